"""C18: failing peers are avoided while better ones are known."""
from .. import models
from ..campaign import Campaign, by_torrents, completed
from ..report import THOROUGH, SEED
from .c02 import QUICK as FAST


def check():
    c = Campaign("C18")
    models.swarm(c.rep, ("a", "b", "c"), ("a",), 3, 2)
    models.swarm(c.rep, ("a", "b"), (), 4 if THOROUGH else 3, 3 if THOROUGH else 2)
    jobs = []
    for i in range(50 if THOROUGH else 8):
        def tor(k, np, **kw):
            return dict({"torrent": {"name": "t%d" % k, "length": np * 64 - 5, "pl": 64, "seed": SEED * 31 + 10 * i + k}, "eps": 12, "lax": True}, **kw)
        def fails(n):
            return [dict(c.rnd.choice(FAST)) for _ in range(n)]
        def ep(k, n):
            return [["10.%d.0.%d" % (k + 1, j + 1), 7001] for j in range(n)]
        ts = [tor(0, 1, pieceq=fails(56)),                 # one transfer: every decision is visible
              tor(1, 3, pieceq=fails(70), eps=14),
              tor(2, 9, pieceq=fails(30)),
              # a few bad peers among good ones, good ones failing now and then
              tor(3, 30, eps=ep(3, 13), by_ep={"10.4.0.%d" % j: dict(c.rnd.choice(FAST)) for j in range(1, 8)}),
              tor(4, 2, eps=ep(4, 11) + [["10.5.9.%d" % j, 7999] for j in range(3)], pieceq=fails(45)),
              # peers found late must be preferred to failing ones
              tor(5, 2, eps_by_tracker={"0": ep(5, 11), "1": [["10.6.1.%d" % j, 7001] for j in range(8)]},
                  by_ep={"10.6.0.%d" % j: dict(c.rnd.choice([x for x in FAST if "hs" in x])) for j in range(1, 12)}, default={"ans": ["good"]})]
        # endpoints announced several times, by one tracker and by two
        bad = ep(6, 6)
        ts.append(tor(6, 12, eps_by_tracker={"0": ep(6, 6) + bad + ep(6, 6), "1": bad + [["10.7.3.%d" % j, 7001] for j in range(3)]},
                      by_ep={"10.7.0.%d" % j: dict(c.rnd.choice(FAST)) for j in range(1, 6)}, pieceq=fails(4)))
        ts.append(tor(7, 2, eps=(ep(7, 4) * 5)[:16], pieceq=fails(18)))
        # peers that fail after having served many pieces
        ts.append(tor(8, 170, pieceq=[dict(c.rnd.choice(FAST)) if c.rnd.random() < .14 else {} for _ in range(170)], eps=14))
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "trackers_up": [0, 1], "tdelay": {"1": 2.5},
                                        "timeout": 60, "gather": True}))
    c.go("histories of failures", jobs, [by_torrents("C18"), completed], parallel=8)
    return c.finish()
