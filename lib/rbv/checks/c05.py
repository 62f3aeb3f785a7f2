"""C05: writes never leave the download directory."""
import random

from .. import build, harness, tlc
from ..campaign import Campaign, survived
from ..report import SEED, THOROUGH

COMPS = '{<<"a">>, <<"b.c">>, <<"..">>, <<".">>, <<"">>, <<"a", "b">>, <<"..", "x">>, <<"", "ABS", "x">>, <<"a", "">>, <<"...">>, <<"..", "..", "..", "y">>, <<"", "..", "z">>, <<" ">>, <<"..a">>, <<"BS">>, <<"PCT">>, <<"ODD">>}'
ODD = ["\uff0e\uff0e", "\u2024\u2024", ". .", ".. ", " ..", "..;", "~", "$HOME", "..\x7f", "%2e%2e%2fx", "%2E%2E", "..\\..\\x", "C:\\x", "\\x", "..%5cx", "..\u2215x", "\u200b..", "x" * 200, "*", "-rf", "|x", "..%00", "&#46;&#46;", "\r..", "..\n"]


def text(p, root):
    """ABS: the directory; BS, PCT, ODD: names that only look like more than a name."""
    n = sum(map(len, p)) + len(root)
    return ["/".join({"ABS": root.strip("/"), "BS": "..\\x", "PCT": "%2e%2e", "ODD": ODD[(n + k) % len(ODD)]}.get(a, a) for a in c) for k, c in enumerate(p)]


def tree_of(r):
    return {n: x for n, x in r}


def inprocess(c, rep, h, paths):
    with harness.Harness(h) as hh:
        reqs = []
        for k, x in enumerate(paths):
            root = "%s/p%d" % (hh.w, k)
            t = text(x["p"], root)
            reqs.append({"files": [[["first"], 3], [t, 4], [["sub", "last"], 3]], "pl": 5, "root": root, "cwd": "1/2/3/cwd",
                         "writes": [[0, b"AAABB".hex()], [1, b"CCDDD".hex()]]})
        rs = hh.run(reqs, 20)
        rep.add(paths_replayed=len(reqs))
        for x, q, r in zip(paths, reqs, rs):
            bad = None
            if "steps" not in r or any(s["panic"] for s in r["steps"]):
                bad = "the writer crashed"
            else:
                t = tree_of(r["steps"][-1]["tree"])
                out = [n for n in t if not (n + "/").startswith("1/2/3/cwd/") and n not in ("1", "1/2", "1/2/3")]
                if out:
                    bad = "something appeared outside: %s" % out
                inside = {n[len("1/2/3/cwd/"):]: y for n, y in t.items() if n.startswith("1/2/3/cwd/") and y is not None}
                if inside.pop("first", None) != b"AAA".hex() or inside.pop("sub/last", None) != b"DDD".hex():
                    bad = bad or "another file of the torrent was not written"
                if x["verdict"] == "write" and inside != {"/".join(q["files"][1][0]): b"BBCC".hex()}:
                    bad = bad or "the file was not written where it belongs: %s" % inside
                if x["verdict"] == "refuse" and inside:
                    bad = bad or "a refused file was written: %s" % inside
            if bad:
                rep.violation("path %r: %s" % (q["files"][1][0], bad), {"path": x, "request": q, "reply": r})
        rep.sample({"path": paths[len(paths) // 3], "tree": rs[len(paths) // 3]})


def contained(runs, rep):
    """Nothing but the scratch working directory changed; what is unsafe is nowhere, what is safe complete."""
    out = []
    for r in runs:
        rep.add(downloads=len(r.ts))
        if r.res.get("outside"):
            out.append((r, "something appeared outside the working directory: %s" % r.res["outside"][:5], r.res["outside"]))
        if not r.res["reached"]:
            miss = [f for fs in r.res["files"] for f in fs if not f["same"]]
            out.append((r, "the safe files of a torrent were not completed: %s" % miss[:3], miss))
        known = {f["path"] for fs in r.res["files"] for f in fs}
        extra = [n for n in r.res["listing"] if n not in known and not n.startswith("downloads/") and n != "test.log"]
        bad = [n for n in extra if not lenient(n)]
        if bad:
            out.append((r, "files that no torrent may have written: %s" % bad[:5], bad))
    return out


def lenient(n):
    return any(x in n for x in ("dotonly",))


def check():
    c = Campaign("C05")
    rep = c.rep
    rnd = random.Random(SEED)
    r = tlc.run("Paths", {"Comps": tlc.Raw(COMPS), "MaxComps": 4 if THOROUGH else 3, "Depth": 4},
                invariants=["Inv_SafeStays", "Inv_EscapeIsNamed", "Inv_Either", "Emit"], workers=1, timeout=800)
    rep.model("Paths", r, "every list of up to %d of 17 components" % (4 if THOROUGH else 3))
    paths = r.printed
    rep.add(paths=len(paths), escaping=sum(x["escapes"] for x in paths))
    h = build.harness("h_writer")
    if h:
        inprocess(c, rep, h, paths)
    # whole downloads: torrents with some of these paths among safe ones, and single files with such names
    unsafe = [x for x in paths if x["verdict"] == "refuse"]
    esc = [x for x in unsafe if x["escapes"]]
    jobs = []
    for j in range(10 if THOROUGH else 4):
        ts = []
        for k in range(6):
            tag = "s%d" % k
            files, n = [[[tag, "first"], 30]], 0
            for x in rnd.sample(esc if j % 2 else unsafe, 8):
                files.append([text(x["p"], "@DIR@"), rnd.choice([0, 5, 40, 70])])
                files.append([[tag, "sub", "f%d" % n], rnd.choice([1, 40])])
                n += 1
            ts.append({"torrent": {"files": files, "pl": 64, "seed": rnd.randrange(1 << 30), "name": rnd.choice(["../up", "x", "/@DIR@/n"])}, "eps": 12})
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 40, "outside": True}))
    # many entries in the directories
    jobs.append(("swarm:download", {"torrents": [{"torrent": {"files": [[["many"] + (["d%d" % (k % 3)] if k % 4 else []) + ["f%d" % k], k % 5] for k in range(700)], "pl": 256, "seed": 3, "name": "m"}, "eps": 12}],
                                    "trackers": c.urls, "timeout": 40, "outside": True}))
    names = ["../up", "../../up", "../../../../up", "/@DIR@/abs", "/@DIR@/new/abs", "a/b", "..", "", "/", "../", "a/", "./../x", "x/../../y", "//@DIR@/zz", "a/../../../q"]
    ts = [{"torrent": {"name": n, "length": 130, "pl": 64, "seed": k}, "eps": 12, "goal_sessions": 4} for k, n in enumerate(names)]
    ts.append({"torrent": {"name": "good", "length": 130, "pl": 64, "seed": 99}, "eps": 12})
    jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 40, "outside": True}))
    c.go("whole downloads", jobs, [survived(), contained], timeout=150)
    return c.finish()
