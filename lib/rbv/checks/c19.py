"""C19: a download starts exactly once, when metadata and eleven peers are known."""
from .. import models
from ..campaign import Campaign, by_torrents, completed
from ..report import THOROUGH, SEED
from .c02 import QUICK as FAST
from .c12 import capacity

MFAIL = [{"hs": "close"}, {"hs": "bad"}, {"pre": ["close"]}, {"ans": ["corrupt"]}, {"ans": ["choke"]}, {"ans": ["close"]}, {"pre": ["rst"]}, {"meta": "flip"}]


def check():
    c = Campaign("C19")
    models.swarm(c.rep, ("a", "b", "c"), ("a",), 3, 2, minpeers=2, maxfound=4 if THOROUGH else 3)
    models.swarm(c.rep, ("a", "b"), ("a",), 3, 2, minpeers=3, maxfound=4)
    jobs = []
    n = 0
    for i in range(30 if THOROUGH else 5):
        ts = []
        up = {}
        for k in range(8):
            np = [1, 2, 3, 4, 5, 6, 7, 12][(k + i) % 8]
            late = c.rnd.choice([0, 0, 1, 2, 5, 9, 10, 10, 11, 12, 14])         # metadata attempts that fail first
            def ep(a, m):
                return [["10.%d.%d.%d" % (k + 1, a, j + 1), 7001] for j in range(m)]
            a = c.rnd.choice([11, 11, 12, 15, 7, 10, 1, 5])
            b = c.rnd.choice([0, 4, 10]) if a >= 11 else 11 - a + c.rnd.choice([0, 1, 5])
            b = max(b, late + 1 - a, 0)
            e = {"0": ep(0, a), "1": ep(1, b), "2": (ep(0, a) + ep(0, a)) if a + b >= 11 and i % 2 else []}
            if k == 7:          # never enough peers, whatever the torrent
                for x, size in enumerate((np * 64 - 3, 1 + i, 45, 70000)):
                    k2 = k + 40 + x
                    ts.append({"torrent": {"name": "t%d" % k2, "length": size, "pl": 64, "seed": SEED * 5 + 8 * i + k2},
                               "eps_by_tracker": {"0": [["10.%d.0.%d" % (k2, j + 1), 7001] for j in range((10, 10, 9, 10 - i)[x])]}, "doomed": True, "goal_sessions": 1,
                               "metaq": [dict(c.rnd.choice(MFAIL)) for _ in range(i % 4)]})
            else:
                ts.append({"torrent": {"name": "t%d" % k, "length": np * 64 - 3, "pl": 64, "seed": SEED * 5 + 8 * i + k}, "eps_by_tracker": e, "lax": True,
                           "metaq": [dict(c.rnd.choice(MFAIL)) for _ in range(late)], "pieceq": [{"ans": ["slow"]}] * c.rnd.choice([0, 3, 8]) if np > 5 else []})
        # many peers: found while transfers are under way, and found before the metadata are
        def ep2(k, m):
            return [["10.%d.%d.%d" % (20 + k, j // 100, j % 100 + 1), 7001] for j in range(m)]
        many = c.rnd.choice([70, 129, 140])
        ts.append({"torrent": {"name": "m0", "length": 24 * 64 - 3, "pl": 64, "seed": SEED * 7 + i}, "eps_by_tracker": {"0": ep2(0, 12), "1": ep2(0, many)[12:], "2": []}, "lax": True,
                   "default": {"ans": ["slow"]}, "pieceq": [dict(c.rnd.choice(FAST)) if j % 4 == i % 4 else {"ans": ["slow"]} for j in range(16)]})
        late = c.rnd.choice([30, 45, 66])
        ts.append({"torrent": {"name": "m1", "length": 9 * 64 - 3, "pl": 64, "seed": SEED * 11 + i}, "eps_by_tracker": {"0": ep2(1, late + 4)}, "lax": True,
                   "metaq": [dict(c.rnd.choice(MFAIL)) for _ in range(late)], "pieceq": [{"ans": ["slow"]}] * 6})
        # many peers at the start: all five transfers run; every peer has failed when others are found
        late = (31, 43, 60, 75, 50)[i % 5]
        ts.append({"torrent": {"name": "m2", "length": 15 * 64 - 3, "pl": 64, "seed": SEED * 13 + i}, "eps_by_tracker": {"0": ep2(2, late + 3)}, "lax": True, "capacity": True,
                   "metaq": [dict(c.rnd.choice(MFAIL)) for _ in range(late)], "default": {"ans": ["slow", "slow", "slow"], "cap": True}})
        for q, (n0, nf) in enumerate(((11, 13), (12, 26))):
            ts.append({"torrent": {"name": "m%d" % (3 + q), "length": (30 + i) * 64 - 3, "pl": 64, "seed": SEED * 17 + i}, "eps_by_tracker": {"0": ep2(3 + q, n0), "1": ep2(3 + q, n0 + 1 + i)[n0:], "2": []}, "lax": True,
                       "pieceq": [dict(c.rnd.choice(FAST)) for _ in range(nf)], "default": {"ans": ["slow"], "wait": 0.1}})
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "trackers_up": [0, 1, 2], "tdelay": {"1": [0.3, 1.0, 2.0][i % 3], "2": 1.5},
                                        "timeout": 40, "gather": True, "quiet": 2.5}))
    # many torrents in one client: each starts with five transfers
    slow = {"ans": ["slow", "slow", "slow", "slow"], "cap": True}
    for j in range(4 if THOROUGH else 1):
        jobs.append(("swarm:download", {"torrents": [{"torrent": {"name": "w%d" % k, "length": 12 * 64, "pl": 64, "seed": SEED * 31 + 50 * j + k}, "eps": 11 + k % 3, "lax": True, "default": slow, "capacity": True} for k in range(18)],
                                        "trackers": c.urls, "timeout": 40, "gather": True}))
    c.go("orders of discovery", jobs, [by_torrents("C19"), by_torrents("C19", "C18"), completed, capacity], parallel=8)
    return c.finish()
