"""C23: only requests that ask for it add a torrent, and each of these does."""
import json
import time

from .. import sandbox, tlc
from ..build import ToolError
from ..campaign import Campaign
from ..report import THOROUGH, SEED


def validate(rs, rep):
    r = tlc.run("ControlTrace", {}, constraint="Undecided", postcondition="Report", workers=1, timeout=300, files={"traces.json": json.dumps([{"ev": x["ev"]} for x in rs])}, dfs=True)
    if not r.ok:
        raise ToolError("ControlTrace: %s\n%s" % (r.error or r.violated, r.out[-3000:]))
    rep.add(states=r.distinct, transitions=r.states, traces_validated_against_impl=len(rs), requests=sum(e["e"] == "req" for x in rs for e in x["ev"]))
    return {p["tid"] - 1: p["at"] for p in r.printed}


def judge(c, jobs, rs):
    out = []
    bad = validate(rs, c.rep)
    for i, (j, r) in enumerate(zip(jobs, rs)):
        if r["died"] != "killed" or r["panics"]:
            out.append((j, "the client crashed: %s" % r["panics"][:2], {}))
        elif r["runaway"] or r["rss_mb"] > 300:
            out.append((j, "the client grew to %d MB" % r["rss_mb"], {}))
        elif r["files"]:
            out.append((j, "files appeared: %s" % r["files"][:3], {}))
        elif i in bad:
            at = bad[i]
            e = r["ev"][at - 1] if at <= len(r["ev"]) else None
            of = [x for x in r["ev"] if e and x["e"] == "req" and (x["i"] == e.get("i") or x["h"] == e.get("h"))]
            if e and e["e"] == "end":
                e = dict(e, counts=[x for x in e["counts"] if x["n"] > 1][:5])
            out.append((j, "TLC rejects what users saw of a client at event %d: %s (%s)" % (at, e, of[:2]), {"at": at, "event": e, "request": of}))
    return out


def check():
    c = Campaign("C23")
    T = tlc.Raw
    one = {"a": "loop", "m": "POST", "p": "/add/magnet", "f": "plain", "b": "magnet"}
    K = T("{%s}" % ", ".join(tlc.tla(dict(one, **x)) for x in ({}, {"f": "stall"}, {"b": "text"}, {"m": "GET"}, {"a": "other"})))
    I, A = ["Inv_Once", "Inv_NoEffect"], ["Act_OnlyAsked", "Live_Answered", "Live_Added"]
    r = tlc.run("Control", {"Users": {"u1", "u2", "u3"}, "Kinds": K, "MaxReq": 2 if THOROUGH else 1, "Serial": False}, invariants=I, properties=A, workers=6, timeout=800)
    c.rep.model("Control", r, "three users who send what they like and may stop for ever; the others' requests are answered")
    r = tlc.run("Control", {"Users": {"u1", "u2"}, "Kinds": K, "MaxReq": 2, "Serial": False}, invariants=I, properties=A, workers=6)
    c.rep.model("Control", r, "two users, two requests each")
    r = tlc.run("Control", {"Users": {"u1", "u2"}, "Kinds": K, "MaxReq": 1, "Serial": True}, properties=A, workers=2)
    if not (r.violated == "Liveness" or r.error and "Live_" in r.error):
        raise ToolError("users served one after the other should starve each other: %s" % r.out[-2000:])
    r = tlc.run("ControlGen", {"MaxDev": 3 if THOROUGH else 2}, workers=1)
    c.rep.model("ControlGen", r, "all requests with few deviations, and what has to become of each")
    S = sorted(r.printed, key=lambda p: json.dumps(p["r"], sort_keys=True))
    c.rnd.shuffle(S)
    rest = [dict(p["r"], adds=False) for p in S if not p["adds"]]
    adds = [dict(p["r"], adds=True) for p in S if p["adds"]]
    c.rep.add(kinds_of_request=len(S))
    jobs = []

    def job(reqs, **kw):
        jobs.append(("control:users", dict({"requests": reqs, "trackers": c.urls, "seed": SEED * 1000 + len(jobs)}, **kw)))
    n = 24 if THOROUGH else 3
    for j in range(n):
        job(rest[j::n] + adds, at_once=(8, 30, 1, 100)[j % 4] if j % 4 != 2 or THOROUGH else 3)
    # connections that stay
    for j in range(8 if THOROUGH else 3):
        kinds = (["none", "head", "body", "drip", "dripchunk"], ["body"], ["head", "drip"], ["none"])[j % 4]
        job(adds + rest[j:60 + j], hogs=[kinds[i % len(kinds)] for i in range((250, 400, 120)[j % 3])], hogwait=(0.5, 6.5)[j % 2])
    for j in range(4 if THOROUGH else 1):
        job(adds + rest[:30], hogs=["flood", "floodhead", "floodchunk", "deafpipe"] * 2, hogwait=3)
    # trackers that are silent, all requests at once
    for j in range(4 if THOROUGH else 1):
        job(adds * 2 + rest[100:130], mute=list(range(len(c.urls))) if j % 2 == 0 else [0], at_once=100)
    # many at once
    job([dict(one, adds=True) for _ in range(60)], at_once=60)
    job([dict(one, adds=True, f=("plain", "chunked", "keep")[i % 3]) for i in range(60)], at_once=1)
    t0 = time.time()

    def run(js, par):
        rs = sandbox.run_all(js, c.binary, par, 200)
        for r in rs:
            if "error" in r:
                raise ToolError(r["error"])
            if r["envbug"]:
                raise ToolError("environment bug: %r" % r["envbug"][:1])
        return judge(c, js, rs), rs
    found, rs = run(jobs, 6)
    c.rep.add(processes=len(jobs))
    c.rep.cov.setdefault("scenarios", []).append({"name": "users", "processes": len(jobs), "run_s": round(time.time() - t0, 1), "spans": [round(r["span"], 1) for r in rs][:12],
                                                  "slowest_answer": round(max(r["slowest"] for r in rs), 2), "rss_mb": max(r["rss_mb"] for r in rs), "connections_that_stay": max(r["hogs"] for r in rs)})
    for x in rs[:3]:
        c.rep.sample({"scenario": "users", "events": x["ev"][:8]})
    if found:
        again = []
        for j, _, _ in found:
            if j not in again:
                again.append(j)
        for _ in range(2):
            f2, _ = run(again[:4], 2)
            if f2:
                for j, what, d in f2[:10]:
                    c.rep.violation("users: %s" % what, {"detail": d, "job": j})
                return c.finish()
        c.rep.add(unconfirmed=len(found))
        c.rep.cov.setdefault("unconfirmed_what", []).extend(w for _, w, _ in found[:5])
    return c.finish()
