"""C07: saved metadata is used in later runs; damage to it is repaired by asking again."""
from . import store
from ..campaign import Campaign, by_histories, files_clean, survived
from ..report import THOROUGH, SEED


ODD = ["sp ace \"q\" \u00e9\n\\u00e9", "\u6f22\u5b57.bin", "a\u202eb\U0001f600", "tab\there\x01\x7f", "back\\slash\\", "\u2028\ufeff\u0301x", " lead and trail ", "'`$(x);&|<>*?"]


def shapes(j, n=6):
    """Torrents whose saved copies differ in size and shape."""
    out = []
    for k in range(n):
        s = {"name": "s%d.bin" % k, "pl": 64, "seed": 100 * j + k + SEED, "length": 64 * (1 + (j + k) % 5) - 7 * (k % 3)}
        if k % 3 == 1:
            s.pop("length")
            s["files"] = [[["d%d" % k, "a"], 100], [["d%d" % k, "b", "c"], 0 if k % 2 else 33], [["z"], 64 * (j % 3)]]
            s["files"] = [f for f in s["files"]]
            s["name"] = "n%d" % k
            s["files"] = [[[x.replace("c", ODD[(j + k) % len(ODD)]) for x in p], n] for p, n in s["files"]]
        if k % 3 == 2:
            s["extra"] = {"zfill": "z" * (17000 if k == 5 else 50), "private": 1}
        if k in (3, 4):
            s["name"] = ODD[(j + k) % len(ODD)]
        out.append({"torrent": s, "eps": 12, "default": {}})
    for i, t in enumerate(out):          # names apart from each other
        if "files" in t["torrent"]:
            t["torrent"]["files"] = [[["t%d" % i] + p, n] for p, n in t["torrent"]["files"]]
    return out


JUNKS = ["", "00", "7b", "7b7d", "5b5d", "6e756c6c", "22", "ff" * 50, "7b2266696c6573223a6e756c6c7d", "64343a6e616d65", "30" * 3000, "5b" * 400, "7b2261223a" * 200, "0a", "20"]


def check():
    c = Campaign("C07")
    store.model(c.rep)
    jobs = []
    whole = {"timeout": 25}
    # every cut of the copy: one cut per copy and run; a run after each repair must not ask again
    nj = 8
    width = 64 if THOROUGH else 13
    for j in range(nj):
        ts = shapes(j)
        runs = [dict(whole), dict(whole)]
        for r in range(width):
            at = [(r * nj + j) * 6 + k for k in range(6)] if THOROUGH else [c.rnd.randrange(1, 2000) if r % 3 else (1, 2, -1, -2, -3, 0)[(r + k + j) % 6] for k in range(6)]
            runs.append(dict(whole, damage=[{"op": "trunc", "at": at}]))
            if r % 4 == 3:             # the copy alone makes the same files again
                runs.append(dict(whole, wipe="content"))
        runs.append(dict(whole))
        jobs.append(("swarm:restarts", {"torrents": ts, "trackers": c.urls, "runs": runs}))
    c.rep.add(cuts=nj * width * 6)
    c.go("cut copies", jobs, [by_histories("C07"), files_clean, survived()], parallel=8, timeout=800)
    # other damage
    ops = [[{"op": "junk", "hex": h, "times": t}] for h in JUNKS for t in ((1, 40) if h else (1,))]
    ops += [[{"op": "delete"}], [{"op": "rmtree"}], [{"op": "dir"}], [{"op": "noread"}], [{"op": "nowrite"}, {"op": "trunc", "at": [5]}][:1], [{"op": "append", "hex": "00"}],
            [{"op": "append", "hex": "7d"}], [{"op": "append", "hex": "ff" * 300}], [{"op": "delete", "only": [0, 2]}], [{"op": "trunc", "at": [0]}, {"op": "noread"}]]
    ops += [[{"op": "age", "secs": x}] for x in (4000, 90000, 40 * 86400, 10 * 365 * 86400, -7200, 1790000000)]
    if THOROUGH:
        ops += [[{"op": "junk", "hex": bytes(c.rnd.randrange(256) for _ in range(c.rnd.randrange(1, 60))).hex(), "times": c.rnd.randrange(1, 50)}] for _ in range(150)]
    c.rnd.shuffle(ops)
    jobs = []
    for j in range(8):
        runs = [dict(whole)]
        for i, op in enumerate(ops[j::8]):
            runs.append(dict(whole, damage=op))
            if i % 2:
                runs.append(dict(whole, wipe="content"))
        runs.append(dict(whole))
        jobs.append(("swarm:restarts", {"torrents": shapes(20 + j), "trackers": c.urls, "runs": runs}))
    # copies of absurd sizes, and a client that has little memory
    jobs.append(("swarm:restarts", {"torrents": shapes(30), "trackers": c.urls, "job": {"rlimits": {"RLIMIT_AS": 3 << 30}},
                                    "runs": [dict(whole)] + [x for n in (1 << 40, 1 << 33, 1 << 20) for x in (dict(whole, damage=[{"op": "sparse", "size": n}]), dict(whole))]}))
    c.rep.add(damages=len(ops))
    c.go("damaged copies", jobs, [by_histories("C07"), files_clean, survived()], parallel=8, timeout=800)
    # killed while saving or right after
    jobs = []
    conds = [{"on": "copy", "after": a} for a in (0, 0, 0, 0.001, 0.002, 0.004, 0.008, 0.016, 0.05)] + [{"on": "mreq"}, {"on": "mreq", "n": 3}, {"on": "req"}, {"on": "req", "n": 2}]
    if THOROUGH:
        conds += [{"on": "copy", "after": k / 2000} for k in range(120)]
    big = {"name": "big.bin", "length": 3000 * 64, "pl": 64, "seed": 5 + SEED}
    n = 30 if THOROUGH else 3
    for j in range(8):
        runs = []
        for i in range(n):
            runs.append({"kill": conds[(j * n + i) % len(conds)], "damage": [{"op": "delete"}] if i % 2 == 0 else [], "timeout": 10})
            runs.append({"kill": {"on": "req", "n": 3, "after": 0.5}, "timeout": 10})
            runs.append({"kill": {"on": "req", "n": 1, "after": 0.4}, "timeout": 10})
        jobs.append(("swarm:restarts", {"torrents": [{"torrent": dict(big, seed=j * 10 + SEED), "eps": 12, "default": {"wait": 0.3}}], "trackers": c.urls, "runs": runs}))
    c.go("killed while saving", jobs, [by_histories("C07"), files_clean, survived()], parallel=8, timeout=800)
    # copies of very many pieces
    jobs = []
    counts = [1000, 4000, 9000, 16000, 24000] + ([40000, 80000, 120000] if THOROUGH else [])
    for j, k in enumerate(counts):
        t = {"name": "m%d.bin" % k, "length": k * 16 - 3, "pl": 16, "seed": 40 + j + SEED}
        stop = {"kill": {"on": "req", "n": 2, "after": 0.6 + k / 40000}, "timeout": 20 + k / 2000}
        cut = [dict(stop, damage=[{"op": "trunc", "at": [at]}]) for at in (1 << 16, 3 * k, -1)]
        jobs.append(("swarm:restarts", {"torrents": [{"torrent": t, "eps": 12, "default": {"wait": 0.4}}], "trackers": c.urls, "runs": [stop, stop] + cut + [stop]}))
    c.rep.add(large_copies=len(jobs))
    c.go("copies of many pieces", jobs, [by_histories("C07"), files_clean, survived()], parallel=8, timeout=800)
    return c.finish()
