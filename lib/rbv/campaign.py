"""Runs scenarios on the real client, judges them, and repeats what looks like a violation before it is reported."""
import random
import time

from . import build, sess
from .report import SEED, THOROUGH, Enough, Report

PARALLEL = 10


class Campaign:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.rep = Report(prop, level)
        self.rnd = random.Random(SEED * 1000003 + int(prop[1:]))
        self.binary = build.binary()
        self.urls = build.tracker_urls()
        self.unconfirmed = 0

    def go(self, name, jobs, judges, confirm=2, parallel=PARALLEL, timeout=240):
        """Run jobs, apply judges (functions runs, report -> [(run, what, replay)])."""
        t0 = time.time()
        runs = sess.execute(jobs, self.binary, parallel, timeout)
        t1 = time.time()
        self.rep.add(processes=len(runs), sessions=sum(len(r.sess) for r in runs))
        found = self.judge(runs, judges)
        self.rep.cov.setdefault("scenarios", []).append({"name": name, "processes": len(jobs), "run_s": round(t1 - t0, 1), "judge_s": round(time.time() - t1, 1),
                                                         "slowest": sorted(round(r.log[-1]["t"], 1) for r in runs if r.log)[-3:]})
        for r in runs:
            for s in r.sess[:1]:
                self.rep.sample({"scenario": name, "session": sess.slim(s)})
        if not found or not confirm:
            self.emit(found, name)
            return runs
        again = []
        for r, _, _ in found:
            if r.job not in again:
                again.append(r.job)
        for k in range(confirm):
            runs2 = sess.execute(again[:6], self.binary, 6, timeout)
            f2 = self.judge(runs2, judges)
            if f2:
                self.emit(f2, name)
                return runs
        self.unconfirmed += len(found)
        self.rep.add(unconfirmed=len(found))
        self.rep.cov.setdefault("unconfirmed_what", []).extend("%s: %s" % (name, w) for _, w, _ in found[:5])
        return runs

    def judge(self, runs, judges):
        """What needs no search first; on every change the rest only if that finds nothing."""
        out = []
        for j in sorted(judges, key=lambda j: getattr(j, "searches", False)):
            if out and getattr(j, "searches", False) and not THOROUGH:
                break
            out += j(runs, self.rep)
        return out

    def emit(self, found, name):
        for r, what, replay in found:
            self.rep.violation("%s: %s" % (name, what), {"scenario": name, "detail": replay, "job": r.job})
        if self.rep.viol and not THOROUGH:
            self.finish()
            raise Enough

    def finish(self):
        return self.rep.finish()


# ------------------------------------------------------------------------------ judges
def by_sessions(*props):
    def j(runs, rep):
        return [(r, "TLC rejects a session at event %d (peer %s, %s): %s"
                 % (at, s["ep"], s["kind"], describe(s, at)), {"at": at, "session": sess.slim(s)})
                for r, s, at in sess.judge_sessions(runs, props, rep)]
    j.searches = True
    return j


def describe(s, at):
    ev = s["ev"]
    a = max(0, at - 4)
    return "; ".join("%s %s" % (k, m) for k, m, _ in ev[a:at])[:600]


def by_torrents(*props, whole=True, cached=False, only=None):
    def j(runs, rep):
        return [(r, "TLC rejects the history of torrent %d at event %d: %s" % (h, at, ev[-4:]), {"torrent": h, "at": at, "events": ev})
                for r, h, at, ev in sess.judge_torrents(runs, props, rep, whole, cached, only)]
    j.searches = True
    return j


def by_outcomes(runs, rep):
    bad, n = sess.outcomes(runs)
    rep.add(outcomes_compared=n)
    return [(r, "%s (peer strategy %s)" % (w, s["st"].get("abs")), {"session": sess.slim(s)}) for r, s, w in bad]


def completed(runs, rep):
    out = []
    for r in runs:
        rep.add(downloads=len(r.ts))
        if not r.res["reached"]:
            miss = [(h, f) for h, fs in enumerate(r.res["files"]) for f in fs
                    if not f["same"] and not r.P["torrents"][h].get("doomed")]
            out.append((r, "a download did not complete: %s" % miss[:3],
                        {"files": miss, "panics": r.res["panics"], "died": r.res["died"], "tail": r.log[-30:]}))
    return out


def files_clean(runs, rep):
    out = []
    for r in runs:
        f = [e for e in r.log if e["e"] == "foreign"]
        f += [x for fs in r.res["files"] for x in fs if x["foreign"] or (x["len"] or 0) > x["want"]]
        rep.add(files_inspected=sum(len(fs) for fs in r.res["files"]))
        if f:
            out.append((r, "bytes on disk that are not the torrent's: %s" % f[:2], {"what": f}))
    return out


def survived(rss=400):
    def j(runs, rep):
        out = []
        for r in runs:
            if r.res["died"] != "killed" or r.res["panics"]:
                out.append((r, "the client crashed: %s %s" % (r.res["died"], r.res["panics"][:2]),
                            {"panics": r.res["panics"], "tail": r.log[-20:]}))
            elif r.res["rss_mb"] > rss or any(e["e"] == "runaway" for e in r.log):
                out.append((r, "the client grew to %d MB" % r.res["rss_mb"], {}))
        return out
    return j


def by_histories(*props):
    """Several runs in one directory against Store."""
    from . import traces

    def j(runs, rep):
        where = [(r, h) for r in runs for h in r.ts]
        enc = [traces.store_trace(r, h) for r, h in where]
        bad, results = traces.check_store(enc, props)
        rep.add(histories_validated=len(enc), traces_validated_against_impl=len(enc), client_runs=sum(len(r.res["runs"]) for r in runs))
        for x in results:
            rep.add(states=x.distinct, transitions=x.states)
        return [(where[i][0], "TLC rejects the history of torrent %d at event %d: %s" % (where[i][1], at, enc[i]["ev"][max(0, at - 6):at]),
                 {"torrent": where[i][1], "at": at, "events": enc[i]["ev"]}) for i, at in bad]
    j.searches = True
    return j
