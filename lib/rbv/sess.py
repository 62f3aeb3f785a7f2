"""Runs peer strategies on the real client and judges the recorded sessions."""
import collections

from . import build, sandbox, swarm, tlc, traces
from .build import ToolError
from .report import SEED, THOROUGH

SLOW = ("chatter", "stall", "half", "biglen", "hugelen", "silent", "trickle", "short", "junk")


def slow(st):
    toks = st.get("pre", []) + st.get("ans", []) + [st.get("hs", "good")]
    return sum(3 if "chatter" in t or t == "trickle" else 1 for t in toks if any(x in t for x in SLOW))


def piece_jobs(concrete, n, nproc=7, ntor=3, per=40, seed=1, tail=100, opts=None, extra_pieces=6, timeout=60):
    """Distribute strategies for pieces of n blocks over torrents and processes."""
    jobs = []
    left = sorted(concrete, key=slow, reverse=True)
    slots = max(1, min(nproc * ntor, (len(left) + 7) // 8))
    while slots * per < len(left):
        slots += nproc * ntor
    q = [left[i::slots] for i in range(slots)]
    q = [x for x in q if x]
    for j in range(0, len(q), ntor):
        ts = []
        for k, qq in enumerate(q[j:j + ntor]):
            np = len(qq) + extra_pieces
            ts.append(dict({"torrent": {"name": "f%d.bin" % k, "length": (np - 1) * n * 16384 + (n - 1) * 16384 + tail,
                                        "pl": n * 16384, "seed": seed * 1000 + j + k},
                            "eps": 12, "pieceq": qq}, **(opts or {})))
        jobs.append(("swarm:download", {"torrents": ts, "trackers": build.tracker_urls(), "timeout": timeout, "gather": True}))
    return jobs


def meta_jobs(concrete, parts, nproc=7, ntor=4, per=12, seed=1, opts=None, timeout=90, eps=None):
    """Strategies for the metadata exchange: a sequence of attempts on one torrent ends with the first success."""
    fails = [s for s in concrete if s["abs"]["demand"] == "fail"]
    others = [s for s in concrete if s["abs"]["demand"] != "fail"]
    q = [[o] for o in others]
    slots = max(1, len(q), (len(fails) + per - 1) // per)
    while len(q) < slots:
        q.append([])
    for i, f in enumerate(sorted(fails, key=slow, reverse=True)):
        q[i % slots].insert(0, f)
    jobs = []
    for j in range(0, len(q), ntor):
        ts = []
        for k, qq in enumerate(q[j:j + ntor]):
            # the size of the metadata is tuned with a filler entry
            ts.append(dict({"torrent": {"name": "m%d.bin" % k, "length": 200, "pl": 64, "seed": seed * 1000 + j + k,
                                        "extra": {"zfill": "z" * (max(0, parts - 1) * 16384 + (300 if parts > 1 else 0))}},
                            "eps": len(qq) + 13, "metaq": qq}, **(opts or {})))
        jobs.append(("swarm:download", {"torrents": ts, "trackers": build.tracker_urls(), "timeout": timeout, "gather": True}))
    return jobs


class Run:
    """One client process and what was seen of it."""

    def __init__(self, job, res):
        self.job, self.res = job, res
        self.P = job[1]
        self.ts = {i: swarm.mk_torrent(s["torrent"]) for i, s in enumerate(self.P["torrents"])}
        if "error" in res and "log" not in res:
            self.log, self.sess = [], []
            return
        self.log = res["log"]
        self.sess = traces.sessions(self.log, self.ts)

    @property
    def broken(self):
        return "error" in self.res and "log" not in self.res


def execute(jobs, binary=None, parallel=7, timeout=200):
    binary = binary or build.binary()
    out = []
    for j, r in zip(jobs, sandbox.run_all(jobs, binary, parallel, timeout)):
        x = Run(j, r)
        if x.broken:
            raise ToolError("scenario failed: %s" % r["error"])
        if r.get("envbug"):
            raise ToolError("environment bug: %r" % r["envbug"][:1])
        if "error" in r:
            raise ToolError(r["error"])
        out.append(x)
    return out


def judge_sessions(runs, props, report):
    """Trace validation of every session.  -> [(run, session, position)] rejected."""
    items, where = [], []
    for r in runs:
        for s in r.sess:
            items.append((s, r.ts))
            where.append((r, s))
    bad, results = traces.check_sessions(items, props)
    report.add(sessions_validated=len(items), late_sessions=sum(1 for s, _ in items if s["late"]),
               traces_validated_against_impl=len(items))
    for r in results:
        report.add(states=r.distinct, transitions=r.states)
    return [(where[i][0], where[i][1], at) for i, at in bad]


def fetched_again(run):
    """{session id: was its piece revealed by a later session}"""
    seen = collections.defaultdict(list)
    for s in run.sess:
        if s["kind"] == "piece" and s["piece"] >= 0:
            seen[(s["h"], s["piece"])].append(s)
    out = {}
    for v in seen.values():
        for i, s in enumerate(v):
            out[s["cid"]] = i + 1 < len(v)
    return out


def outcomes(runs):
    """Compare what became of each scripted attempt with TLC's prediction -> [(run, session, what)], number compared."""
    bad, n = [], 0
    for r in runs:
        again = fetched_again(r)
        for s in r.sess:
            ab = (s["st"] or {}).get("abs")
            if not ab or s["late"]:
                continue
            if s["kind"] == "piece" and s["piece"] >= 0 and ab.get("kind", "piece") == "piece":
                if ab["demand"] == "any":
                    continue
                n += 1
                if ab["demand"] == "ok" and again[s["cid"]]:
                    bad.append((r, s, "a correctly served piece was fetched again"))
                if ab["demand"] == "fail" and not again[s["cid"]]:
                    bad.append((r, s, "the piece of a failed attempt was never fetched again"))
        metas = collections.defaultdict(list)
        for s in r.sess:
            if s["kind"] == "meta":
                metas[s["h"]].append(s)
        for v in metas.values():
            for i, s in enumerate(v):
                ab = (s["st"] or {}).get("abs")
                if not ab or s["late"] or ab["demand"] == "any":
                    continue
                n += 1
                if ab["demand"] == "ok" and i + 1 < len(v):
                    bad.append((r, s, "correct metadata was not adopted"))
                if ab["demand"] == "fail" and i + 1 == len(v) and s["eof"] is not None:
                    bad.append((r, s, "the peer after a failed metadata attempt was not asked"))
    return bad, n


def slim(s):
    return {"torrent": s["h"], "kind": s["kind"], "piece": s["piece"], "peer": s["ep"], "strategy": s["st"], "late": s["late"],
            "events": [[k, m, t] for k, m, t in s["ev"]][:80]}


def judge_torrents(runs, props, report, whole=True, cached=False, only=None):
    """-> [(run, torrent, position, event)] rejected."""
    enc, where = [], []
    for r in runs:
        for h in r.ts:
            if only is None or only(r, h):
                enc.append(traces.torrent_trace(r, h, whole, cached))
                where.append((r, h))
    bad, results = traces.check_torrents(enc, props)
    report.add(torrents_validated=len(enc), traces_validated_against_impl=len(enc))
    for r in results:
        report.add(states=r.distinct, transitions=r.states)
    return [(where[i][0], where[i][1], at, enc[i]["ev"][max(0, at - 12):at + 1]) for i, at in bad]
