"""C20: the process may be killed at any moment, and the same magnet added any number of times."""
from . import store
from ..campaign import Campaign, by_histories, files_clean, survived
from ..report import THOROUGH, SEED


def shapes(j, big=False):
    a = {"name": "one%d.bin" % j, "length": 64 * 9 + 10, "pl": 64, "seed": 10 * j + SEED}
    b = {"name": "many%d" % j, "pl": 100, "seed": 10 * j + 1 + SEED,
         "files": [[["m%d" % j, "a"], 30], [["m%d" % j, "e"], 0], [["m%d" % j, "b", "c"], 370], [["m%d" % j, "d"], 1], [["m%d" % j, "x"], 299]]}
    d = {"name": "blocks%d.bin" % j, "length": 5 * 65536 + 20000, "pl": 65536, "seed": 10 * j + 2 + SEED}
    out = [a, b, d]
    if big:
        out = [{"name": "big%d.bin" % j, "length": 3 * (1 << 20) + 77, "pl": 1 << 20, "seed": 10 * j + 3 + SEED},
               {"name": "bigs%d" % j, "pl": 1 << 19, "seed": 10 * j + 4 + SEED,
                "files": [[["bm%d" % j, str(i)], 1 << 17] for i in range(9)] + [[["bm%d" % j, "tail"], 12345]]}]
    return [{"torrent": s, "eps": 12, "default": {"wait": 0.02 if not big else 0.001}} for s in out]


def check():
    c = Campaign("C20")
    store.model(c.rep)
    whole = {"timeout": 25}
    rnd = c.rnd
    # every kind of moment, twice in a row, in directories that are new or already hold something
    moments = [{"on": "post"}, {"on": "urx"}, {"on": "urx", "n": 20}, {"on": "probe"}, {"on": "open", "n": 1}, {"on": "open", "n": 5}, {"on": "mreq"}, {"on": "mreq", "after": 0.002},
               {"on": "copy"}, {"on": "copy", "after": 0.01}, {"on": "sess"}]
    moments += [{"on": "req", "n": n} for n in (1, 2, 5, 9, 15, 20, 30)] + [{"on": "eof", "n": n, "after": a} for n in (2, 3, 4, 6, 9, 14, 22) for a in (0, 0.001, 0.003)]
    moments += [{"on": "write", "n": n} for n in (1, 2, 3, 4, 6, 8, 10, 12, 16)] + [{"on": "time", "t": rnd.random() * 2.5} for _ in range(200 if THOROUGH else 10)]
    if THOROUGH:
        moments += [{"on": o, "n": n, "after": rnd.random() * 0.02} for o in ("eof", "req", "write") for n in range(1, 40)]
    rnd.shuffle(moments)
    jobs = []
    for j in range(8):
        runs = []
        for i, m in enumerate(moments[j::8]):
            runs.append({"kill": m, "timeout": 6})
            if i % 3 != 1:
                runs.append(dict(whole))
            if i % 3 == 0 and i:         # start over with part of the files gone
                runs.append({"kill": rnd.choice(moments), "timeout": 6, "wipe": rnd.choice(["all", "content", "copy", "half", "holes", "tails"])})
            if i % 4 == 0:
                runs.append(dict(whole, wipe=("holes", "tails")[i // 4 % 2]))
        runs.append(dict(whole))
        jobs.append(("swarm:restarts", {"torrents": shapes(j), "trackers": c.urls, "runs": runs}))
    c.rep.add(kill_moments=len(moments))
    c.go("killed at a moment", jobs, [by_histories("C20"), files_clean, survived()], parallel=8, timeout=800)
    # large pieces: killed while they are being written
    jobs = []
    for j in range(8):
        runs = []
        for i in range(40 if THOROUGH else 4):
            runs.append({"kill": rnd.choice([{"on": "write", "n": 1 + (i + j) % 5}, {"on": "eof", "n": 1 + rnd.randrange(6), "after": rnd.random() * 0.01}]), "timeout": 8, "wipe": "content"})
            if i % 2:
                runs.append(dict(whole))
        runs.append(dict(whole))
        jobs.append(("swarm:restarts", {"torrents": shapes(j, True), "trackers": c.urls, "runs": runs}))
    c.go("killed while writing large pieces", jobs, [by_histories("C20"), files_clean, survived()], parallel=8, timeout=800)
    # added several times
    pats = [[[0, 0]], [[0, 0, 0, 0]], [[0, 0.1]], [[0, 0.4]], [[0, 1.0]], [[0, 0.05, 0.3, 0.8]], [[0], [0, 0], [0, 0.2, 2.0]], [[0, 3.0]]]
    jobs = []
    for j in range(8):
        runs = []
        for i in range(20 if THOROUGH else 2):
            a = pats[(i + j) % len(pats)]
            runs.append(dict(whole, adds=a, wipe="all" if i else ""))
            runs.append({"kill": rnd.choice(moments), "adds": pats[rnd.randrange(len(pats))], "timeout": 6, "wipe": rnd.choice(["", "all"])})
            runs.append(dict(whole, adds=rnd.choice(pats)))
        jobs.append(("swarm:restarts", {"torrents": shapes(30 + j), "trackers": c.urls, "runs": runs}))
    c.go("added several times", jobs, [by_histories("C20"), files_clean, survived()], parallel=8, timeout=800)
    return c.finish()
