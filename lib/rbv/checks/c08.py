"""C08: block requests tile the piece; metadata parts 0, 1, 2, ..."""
from .. import models, sess, strat
from ..campaign import Campaign, by_sessions, completed
from ..report import THOROUGH, SEED

BLOCK = 16384
# (piece length, total length): multiples of the block or not, one block more or less, short last pieces
SHAPES = [(BLOCK, 5 * BLOCK), (BLOCK, 5 * BLOCK - 1), (BLOCK, 4 * BLOCK + 1), (3 * BLOCK, 7 * BLOCK), (3 * BLOCK, 8 * BLOCK - 5),
          (3 * BLOCK, 6 * BLOCK + 1), (2 * BLOCK, 2 * BLOCK), (2 * BLOCK, BLOCK), (4 * BLOCK, 4 * BLOCK + 3), (5, 23), (1, 3), (100, 100),
          (BLOCK - 1, 3 * BLOCK), (BLOCK + 1, 4 * BLOCK), (20000, 90001), (2 * BLOCK + 1, 100000), (3 * BLOCK - 1, 9 * BLOCK),
          (40000, 40001), (40000, 79999), (65536, 200000), (32768, 32769), (50, 49), (49152, 49152 * 3 - 16384),
          (49152, 49152 * 2 + 16385), (1 << 18, (1 << 18) * 2 + 5), (1 << 22, (1 << 22) + (1 << 20) + 9), (6 << 20, (6 << 20) + 5), ((9 << 20) + 1, 9 << 20)]


def check():
    c = Campaign("C08")
    models.session(c.rep, (1, 2, 3) if THOROUGH else (1, 2), 6 if THOROUGH else 4, 2)
    shapes = list(SHAPES)
    if THOROUGH:
        shapes += [(1 << 24, (1 << 24) + 5), (3 << 20, (3 << 20) * 3 - BLOCK), ((1 << 21) + 77, (1 << 21) + 77)]
    for _ in range(120 if THOROUGH else 10):
        pl = c.rnd.choice([c.rnd.randrange(1, 60), c.rnd.randrange(100, 70000), BLOCK * c.rnd.randrange(1, 6) + c.rnd.randrange(-2, 3)])
        shapes.append((pl, max(1, pl * c.rnd.randrange(0, 5) + c.rnd.choice([0, 1, pl - 1, c.rnd.randrange(1, pl + 1), BLOCK, BLOCK + 1]))))
    # honest downloads of every shape, metadata in 1..4 parts, extension ids over the whole range
    jobs, per = [], 4
    for j in range(0, len(shapes), per):
        ts = []
        for k, (pl, total) in enumerate(shapes[j:j + per]):
            parts = (j + k) % 4
            fill = 0 if parts == 0 else parts * BLOCK - 150 + [0, 170, -1, 3][(j // per) % 4]
            ts.append({"torrent": {"name": "s%d" % k, "length": total, "pl": pl, "seed": SEED * 77 + j + k,
                                   "extra": {"zfill": "z" * max(0, fill)}},
                       "eps": 12, "default": {"ut": [3, 1, 2, 9, 100, 127, 128, 200, 255][(j + k) % 9]},
                       "metaq": [{"ut": [3, 1, 2, 9, 100, 127, 128, 200, 255][(j + k) % 9]}]})
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 30, "gather": True, "watch": False}))
    # metadata of exactly so many bytes
    sizes = [k * BLOCK + d for k in ((1, 2, 3, 4, 7) if THOROUGH else (1, 2, 3)) for d in (-1, 0, 1)] + [11 * BLOCK + 1, 101 * BLOCK, 130 * BLOCK + 7, 257 * BLOCK + 1] + ([1 << 20, 600 * BLOCK, 1001 * BLOCK + 1] if THOROUGH else [])
    for j in range(0, len(sizes), per):
        ts = [{"torrent": {"name": "i%d" % k, "length": 300, "pl": 100, "seed": SEED * 91 + j + k, "info_size": n}, "eps": 12} for k, n in enumerate(sizes[j:j + per])]
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 30, "gather": True, "watch": False}))
    c.rep.add(shapes=len(shapes), metadata_sizes=len(sizes))
    c.go("honest downloads of %d shapes" % len(shapes), jobs, [by_sessions("C08"), completed])
    # peers that repeat, interleave, delay or corrupt answers
    for kind, n in (("piece", 3), ("piece", 2), ("meta", 3)):
        S = strat.generate(kind, n, pre={"noise", "choke", "ext0"}, ans={"good", "corrupt", "goodchoke", "noisegood", "extgood", "noise", "reject"},
                           pre_max=1, ans_max=2, report=c.rep)
        S = strat.pick(c.rnd, S, 700 if THOROUGH else (90 if kind == "piece" else 50))
        C = strat.Concrete(SEED + n)
        conc = [C.make(s) for s in S]
        c.rep.add(strategies=len(conc))
        jobs = (sess.piece_jobs(conc, n, seed=SEED, nproc=6, ntor=4, tail=BLOCK * (n - 1) + 77 if n == 2 else 100)
                if kind == "piece" else sess.meta_jobs(conc, n, seed=SEED, per=8))
        c.go("%s attempts, %d blocks" % (kind, n), jobs, [by_sessions("C08"), completed], parallel=12)
    return c.finish()
