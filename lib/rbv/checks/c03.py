"""C03: each piece is fetched by one connection at a time, at most five at once, never again once verified."""
from .. import models, strat
from ..campaign import Campaign, by_torrents, completed
from ..report import THOROUGH, SEED
from .c02 import FAST


def jobs_for(c, rounds):
    jobs = []
    for i in range(rounds):
        def tor(k, np, **kw):
            return dict({"torrent": {"name": "t%d" % k, "length": np * 64 - 5, "pl": 64, "seed": SEED * 31 + 10 * i + k}, "eps": 12, "lax": True}, **kw)
        def mix(n, bad):
            return [dict(c.rnd.choice(FAST)) if c.rnd.random() < bad else {"ans": [c.rnd.choice(["good", "slow", "good"])]} for _ in range(n)]
        ips = [["10.1.0.%d" % k, 7001] for k in range(1, 14)]
        rep = ips + ips[:7] + ips[:7]                                       # repeated in one reply, and by a second tracker later
        ts = [tor(0, 14, eps_by_tracker={"0": rep, "1": ips, "2": ips}, default={"ans": ["slow"]}),
              tor(1, 40, pieceq=mix(60, .5)), tor(2, c.rnd.randrange(1, 6), eps=30, pieceq=mix(25, .7)),
              tor(3, 23, pieceq=mix(60, .3), eps=[["10.4.0.%d" % k, 7001] for k in range(1, 11)] + [["10.4.9.%d" % k, 7999] for k in range(4)]),
              tor(4, 11, eps_by_tracker={"0": [["10.5.0.%d" % k, 7001] for k in range(1, 12)], "1": [["10.5.1.%d" % k, 7001] for k in range(1, 20)],
                                         "2": [["10.5.0.%d" % k, 7001] for k in range(1, 12)]},
                  by_ep={"10.5.0.%d" % k: c.rnd.choice([{"ans": ["slow"]}, {"ans": ["corrupt"]}, {"ans": ["slow", "close"]}]) for k in range(1, 8)})]
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "trackers_up": [0, 1, 2], "tdelay": {"1": 0.7, "2": 1.2 + (i % 3)},
                                        "timeout": 60, "gather": True, "quiet": 1.0}))
    # every peer has failed many times before the pieces are served
    for i in range(max(2, rounds // 6)):
        fast = [x for x in FAST if "stallclose" not in x.get("ans", [])]
        ts = [{"torrent": {"name": "f%d" % k, "length": np * 64 - 5, "pl": 64, "seed": SEED * 47 + 10 * i + k}, "eps": n, "lax": True, "pieceq": [dict(c.rnd.choice(fast)) for _ in range(nf)], "default": {"ans": [("good", "slow")[k % 2]]}}
              for k, (np, n, nf) in enumerate(((2, 11, 70), (5, 11, 90), (6, 12, 75), (9, 13, 80), (12, 11, 100), (1, 11, 60)))]
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 60, "gather": True, "quiet": 1.0}))
    # writing the first piece, or one in the middle, takes longer than fetching all the others
    for i in range(max(2, rounds // 4)):
        ts, slow = [], {}
        for k in range(3):
            n = (30, 90, 300)[k]
            at = c.rnd.choice([10, 64 * 7, 64 * (n // 2) + 1])
            ts.append({"torrent": {"name": "w", "files": [[["w%d" % k, "a"], at], [["w%d" % k, "slow"], 0], [["w%d" % k, "b"], n * 64 - at - 3]], "pl": 64, "seed": SEED * 37 + 10 * i + k},
                       "eps": 12, "pieceq": [dict(c.rnd.choice(FAST)) for _ in range(8 * (i % 2))], "lax": True})
            slow["w%d/slow" % k] = k
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "slow": slow, "timeout": 60, "gather": True, "quiet": 1.0}))
    return jobs


def check():
    c = Campaign("C03")
    models.swarm(c.rep, ("a", "b", "c"), ("a",), 3, 2)
    models.swarm(c.rep, ("a", "b"), ("a",), 4 if THOROUGH else 3, 3 if THOROUGH else 2)
    c.go("concurrent transfers", jobs_for(c, 60 if THOROUGH else 9), [by_torrents("C03"), completed], parallel=9)
    return c.finish()
