"""C04: every piece lands at its exact place in the right files."""
import json
import os
import random

from .. import build, harness, tlc
from ..build import ToolError
from ..campaign import Campaign, completed, files_clean, survived
from ..report import SEED, THOROUGH

FORMS = [["f0"], ["d", "f1"], ["d", "e", "f2"], ["x y", "é3"], ["f4"], ["d", "f5"], ["g", "h", "i", "j", "f6"], ["f7.bin"], ["d", "e", "f8"], ["...", "f9"]]


def content(rnd, n):
    return bytes(rnd.randrange(1, 256) for _ in range(n))


def some_paths(rnd, n):
    """n paths in a tree of directories."""
    if n <= len(FORMS):
        paths = FORMS[:]
        if rnd.random() < .3:
            rnd.shuffle(paths)
        return paths[:n]
    return [["t"] + ["d%d" % (k % m) for m in (3, 7, 11)[:k % 4]] + ["f%d%s" % (k, rnd.choice(["", ".x", " é"]))] for k in range(n)]


def case(rnd, lens, pl, order, k, w, pre=False, data=None):
    """pre: some files already hold something else."""
    data = content(rnd, sum(lens)) if data is None else data
    paths = some_paths(rnd, len(lens))
    had = [n if pre and rnd.random() < .5 else rnd.randrange(n + 1) if pre else 0 for n in lens]
    if pre == "full":
        had = list(lens)
    old = bytes(b ^ 0xff for b in data)
    start = [sum(lens[:f]) for f in range(len(lens))]
    req = {"files": [[p, n] for p, n in zip(paths, lens)], "pl": pl, "root": "%s/l%d" % (w, k),
           "pre": [["/".join(p), old[s:s + m].hex()] for p, s, m in zip(paths, start, had) if m],
           "writes": [[i, data[i * pl:(i + 1) * pl].hex()] for i in order]}
    return {"lens": list(lens), "pl": pl, "order": list(order), "data": data, "old": old, "pre": had, "paths": paths, "req": req}


def observe(c, rep):
    """Abstract what is on disk after each write."""
    lens, pl, data = c["lens"], c["pl"], c["data"]
    np = (sum(lens) + pl - 1) // pl
    start = [sum(lens[:f]) for f in range(len(lens))]
    names = {"/".join(p): f for f, p in enumerate(c["paths"])}
    dirs = {"/".join(p[:k]) for p in c["paths"] for k in range(1, len(p))}
    steps = []
    for s in rep.get("steps", []):
        sizes, there = [0] * len(lens), [False] * len(lens)
        cells = [["none"] * np for _ in lens]
        other = 0
        got = [b""] * len(lens)
        for name, hx in s["tree"]:
            if hx is None:
                other += name not in dirs
            elif name not in names:
                other += 1
            else:
                f = names[name]
                got[f] = bytes.fromhex(hx)
                sizes[f], there[f] = len(got[f]), True
        for f, n in enumerate(lens):
            for i in range(np):
                a, b = max(i * pl, start[f]), min((i + 1) * pl, start[f] + n)
                if a < b:
                    g = got[f][a - start[f]:b - start[f]]
                    had = c["old"][a:b][:max(0, start[f] + c["pre"][f] - a)].ljust(b - a, b"\0")
                    cells[f][i] = ("full" if g == data[a:b] else "old" if c["pre"][f] > a - start[f] and g.ljust(b - a, b"\0") == had else
                                   "gap" if not any(g) else "bad")
        steps.append({"panic": s["panic"], "cells": cells, "sizes": sizes, "there": there, "other": other})
    return {"lens": lens, "pl": pl, "pre": c["pre"], "order": c["order"], "steps": steps}


def judge(rep, recs):
    from concurrent.futures import ThreadPoolExecutor
    parts = [(i, recs[i:i + 1500]) for i in range(0, len(recs), 1500)]

    def one(p):
        r = tlc.run("LayoutTrace", {"File": "t.ndjson"}, postcondition="Done", workers=1, timeout=900, files={"t.ndjson": "".join(json.dumps(x) + "\n" for x in p[1])})
        if not r.ok:
            raise ToolError("LayoutTrace: %s %s" % (r.violated or r.error, r.out[-2000:]))
        return [p[0] + x["bad"] - 1 for x in r.printed], r
    bad = []
    with ThreadPoolExecutor(4) as ex:
        for b, r in ex.map(one, parts):
            bad += b
            rep.add(states=r.distinct, transitions=r.states)
    return bad


def sparse(rep, h, rnd):
    """Offsets beyond 32 bits."""
    with harness.Harness(h) as hh:
        for k, (lens, pl, i) in enumerate([([5 << 30], 1 << 16, 81000), ([3 << 30, 3 << 30, 10], 1 << 20, 5000), ([7, (6 << 30) + 5], 1 << 14, 393216),
                                           ([(4 << 30) - 3, 9, 1 << 20], 1 << 16, 65535), ([1 << 33, 100], 1 << 16, 131072), ([1, (1 << 33) + 7, 100, 0, 50], 1 << 16, 131072),
                                           ([(1 << 32) + 100, 7, 900, 1 << 33, 9], 1 << 12, 1 << 20), ([5] * 3 + [(1 << 32) - 10] + [11] * 9, 1 << 6, 1 << 26), ([1 << 31, 1 << 31, 3, 1 << 31, 20], 1 << 20, 1 << 12)]):
            total = sum(lens)
            data = content(rnd, min(pl, total - i * pl))
            root = "%s/s%d" % (hh.w, k)
            r = hh.run([{"files": [[["f%d" % f], n] for f, n in enumerate(lens)], "pl": pl, "root": root, "keep": 1,
                         "writes": [[i, data.hex()]]}], 60)[0]
            rep.add(sparse_writes=1)
            want, s = {}, 0
            for f, n in enumerate(lens):
                a, b = max(i * pl, s), min(i * pl + len(data), s + n)
                if a < b:
                    want["f%d" % f] = (a - s, data[a - i * pl:b - i * pl])
                s += n
            bad = "steps" not in r or r["steps"][0]["panic"]
            for name in sorted(os.listdir(root)) if os.path.isdir(root) else []:
                fd = os.open(os.path.join(root, name), os.O_RDONLY)
                o, d = want.pop(name, (0, b""))
                size = os.fstat(fd).st_size
                n = lens[int(name[1:])]
                bad = bad or size > n or size < o + len(d) or os.pread(fd, len(d), o) != d
                pos = 0
                while True:          # everything else is a hole or zeros
                    try:
                        pos = os.lseek(fd, pos, os.SEEK_DATA)
                    except OSError:
                        break
                    end = os.lseek(fd, pos, os.SEEK_HOLE)
                    while pos < min(end, size):
                        blk = os.pread(fd, 1 << 20, pos)
                        for q, z in enumerate(blk):
                            if z and not (o <= pos + q < o + len(d)):
                                bad = True
                                break
                        pos += len(blk)
                os.close(fd)
            if bad or want:
                rep.violation("piece %d of %d bytes in files of %s bytes is not where it belongs" % (i, pl, lens), {"lens": lens, "pl": pl, "idx": i, "reply": str(r)[:500]})


def whole(c, rnd, n):
    """Complete downloads with many files, pieces arriving in any order (some fail first)."""
    jobs = []
    for j in range(n):
        ts = []
        for k in range(5):
            nf = rnd.randrange(1, 9)
            pl = rnd.choice([1, 3, 16, 64, 100, 20000])
            lens = [rnd.choice([0, 1, 2, pl - 1, pl, pl + 1, 3 * pl, rnd.randrange(1, 3 * pl + 2)]) for _ in range(nf)]
            if sum(lens) == 0 or sum(lens) > 40 * pl:
                lens = [0, pl, 0, pl + 1, 0]
            files = [[["t%d" % k, "f%d" % f] if f % 3 else ["t%d-%d" % (k, f)] if f else ["t%d" % k, "sub", "é x%d" % f], q] for f, q in enumerate(lens)]
            ts.append({"torrent": {"files": files, "pl": pl, "seed": rnd.randrange(1 << 30), "name": "n%d" % k}, "eps": 12, "lax": True,
                       "pieceq": [{"ans": [rnd.choice(["good", "good", "close", "slow", "corrupt"])]} for _ in range(rnd.randrange(6))]})
        ts.append({"torrent": {"name": "single%d" % j, "length": rnd.choice([1, 63, 64, 65, 640]), "pl": 64, "seed": j}, "eps": 12})
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 60}))
    c.go("whole downloads", jobs, [survived(), completed, files_clean], timeout=200)


def check():
    c = Campaign("C04")
    rep = c.rep
    rnd = random.Random(SEED)
    from concurrent.futures import ThreadPoolExecutor
    plan = [(3, 3, {1, 2, 3, 4}, 4), (4, 2, {1, 2, 3}, 4), (2, 6, {2, 3, 5}, 4)] + ([(3, 5, {2, 3, 4, 5, 6, 7}, 5), (5, 2, {1, 2, 3, 4}, 5)] if THOROUGH else [])
    orders = []
    with ThreadPoolExecutor(3) as ex:
        for a, r in zip(plan, ex.map(lambda a: tlc.run("LayoutGen", {"MaxFiles": a[0], "MaxLen": a[1], "PieceLens": a[2], "MaxPieces": a[3], "Orders": 0},
                                                       invariants=["Inv_Layout", "Inv_Complete", "Inv_Tile", "Emit"], workers=1, timeout=800), plan)):
            rep.model("LayoutGen", r, "up to %d files of up to %d bytes, piece lengths %s, up to %d pieces in every order" % (a[0], a[1], sorted(a[2]), a[3]))
            orders += r.printed
    h = build.harness("h_writer")
    if h:
        with harness.Harness(h) as hh:
            cases = [case(rnd, o["lens"], o["pl"], o["order"], k, hh.w) for k, o in enumerate(orders)]
            for _ in range(2000 if THOROUGH else 300):
                n = rnd.randrange(1, 10)
                pl = rnd.choice([1, 2, 7, 16, 50, 200])
                lens = [rnd.choice([0, 0, 1, pl, pl - 1, 2 * pl, rnd.randrange(4 * pl)]) for _ in range(n)]
                np = (sum(lens) + pl - 1) // pl
                if 0 < np <= 14:
                    order = list(range(np))
                    rnd.shuffle(order)
                    for _ in range(rnd.randrange(3)):        # a piece written again changes nothing
                        order.insert(rnd.randrange(len(order) + 1), rnd.choice(order))
                    cases.append(case(rnd, lens, pl, order, len(cases), hh.w, pre=rnd.random() < .4))
            # zeros over what was there before
            for _ in range(300 if THOROUGH else 60):
                pl = rnd.choice([1, 2, 7, 16, 50, 200])
                lens = [rnd.choice([1, pl, pl - 1, 2 * pl, rnd.randrange(4 * pl)]) for _ in range(rnd.randrange(1, 6))]
                np = (sum(lens) + pl - 1) // pl
                if 0 < np <= 14:
                    order = list(range(np))
                    rnd.shuffle(order)
                    data = b"".join(rnd.choice([bytes(pl), content(rnd, pl), bytes(pl // 2) + content(rnd, pl - pl // 2), content(rnd, 1) + bytes(pl - 1)]) for _ in order)[:sum(lens)]
                    cases.append(case(rnd, lens, pl, order, len(cases), hh.w, pre="full", data=data))
            # very many files in a piece, and pieces of megabytes
            for n, pl in ((65, 4096), (130, 300), (200, 1 << 16), (300, 900)) + (((2000, 1 << 14), (1000, 5000)) if THOROUGH else ()):
                lens = [rnd.choice([0, 1, 1, 2, 3, 7]) for _ in range(n)] + [rnd.randrange(pl)]
                order = list(range((sum(lens) + pl - 1) // pl))
                rnd.shuffle(order)
                cases.append(case(rnd, lens, pl, order, len(cases), hh.w, pre=rnd.random() < .5))
            for lens, pl in (([(1 << 20) + 5], 1 << 20), ([7, 3 << 20, 0, (2 << 20) - 3], 4 << 20), ([(5 << 20) + 1, 100], 1 << 22)) + ((([9, 20 << 20, 5], 1 << 24), ([40 << 20], 1 << 25)) if THOROUGH else ()):
                order = list(range((sum(lens) + pl - 1) // pl))
                rnd.shuffle(order)
                cases.append(case(rnd, lens, pl, order, len(cases), hh.w, data=rnd.randbytes(sum(lens)).replace(b"\0", b"\1")))
            rs = hh.run([x["req"] for x in cases], 30)
            recs = [observe(x, r) for x, r in zip(cases, rs)]
            rep.add(layouts_replayed=len(cases), piece_writes=sum(len(x["order"]) for x in cases))
            for k in judge(rep, recs):
                rep.violation("TLC rejects the writes of pieces %s (length %d) of files %s" % (cases[k]["order"], cases[k]["pl"], cases[k]["lens"]),
                              {"case": {a: b for a, b in cases[k].items() if a not in ("data", "old") and (a != "req" or len(cases[k]["data"]) < 5000)}, "observed": recs[k], "reply": str(rs[k])[:3000]})
            rep.sample({"layout": recs[len(recs) // 2]})
        sparse(rep, h, rnd)
    whole(c, rnd, 8 if THOROUGH else 3)
    return c.finish()
