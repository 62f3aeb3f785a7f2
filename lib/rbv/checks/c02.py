"""C02: no piece is ever lost, whatever its attempts went through."""
from .. import models, sess, strat
from ..campaign import Campaign, by_outcomes, by_sessions, by_torrents, completed
from ..report import THOROUGH, SEED

QUICK = [{"hs": "close"}, {"hs": "bad"}, {"pre": ["close"]}, {"pre": ["unchoke", "close"]}, {"ans": ["corrupt"]}, {"ans": ["choke"]}, {"ans": ["close"]}, {"hs": "bad1"}]
FAST = [{"hs": "close"}, {"hs": "bad"}, {"pre": ["close"]}, {"pre": ["unchoke", "close"]}, {"pre": ["rst"]}, {"pre": ["unchoke", "ext", "rst"]},
        {"ans": ["corrupt"]}, {"ans": ["choke"]}, {"ans": ["close"]}, {"ans": ["rst"]}, {"ans": ["zero"]}, {"ans": ["short"]}, {"ans": ["long"]},
        {"ans": ["rev"]}, {"hs": "bad1"}, {"ans": ["empty"]}, {"ans": ["stallclose"]}]


def check():
    c = Campaign("C02")
    models.swarm(c.rep, live=True)
    models.swarm(c.rep, ("a", "b", "c"), ("a",), 3, 2)
    if THOROUGH:
        models.swarm(c.rep, ("a", "b"), (), 4, 3)
        models.swarm(c.rep, ("a", "b", "c"), ("a",), 4, 2, maxfound=3)
    # 1. every failure TLC can think of, at every block
    jobs = []
    for n, k in (((1, 200), (2, 400), (3, 700)) if THOROUGH else ((1, 40), (2, 60), (3, 120))):
        S = strat.generate("piece", n, hs=list(strat.HS), pre=strat.ALL_PRE - {"chatter"}, ans=strat.ALL_ANS - {"chatter"}, pre_max=1, ans_max=min(n, 2), report=c.rep)
        S = strat.pick(c.rnd, S, k)
        C = strat.Concrete(SEED + n)
        conc = [C.make(s) for s in S]
        c.rep.add(strategies=len(conc))
        jobs += sess.piece_jobs(conc, n, seed=SEED, nproc=4, ntor=3)
    # 2. long histories: many failures of the same piece, every peer beyond four failures, dead endpoints, one good peer among bad ones
    def tor(i, np, n=1, **kw):
        return dict({"torrent": {"name": "l%d" % i, "length": (np - 1) * n * 16384 + 77 if n > 1 else np * 64 - 5, "pl": n * 16384 if n > 1 else 64,
                                 "seed": SEED * 9 + i}, "eps": 12, "lax": True}, **kw)
    def fails(k):
        return [dict(c.rnd.choice(FAST)) for _ in range(k)]
    for i in range(12 if THOROUGH else 3):
        dead = [["10.2.9.%d" % k, 7999] for k in range(1, 7)]
        ts = [tor(0, 1, pieceq=fails(60 if THOROUGH else 22)), tor(1, 3, pieceq=fails(110 if THOROUGH else 60)),
              tor(2, 7, n=2, pieceq=fails(150 if THOROUGH else 70)), tor(3, 25, pieceq=fails(40)),
              tor(4, 6, eps=[["10.5.0.%d" % k, 7001] for k in range(1, 14)], by_ep={"10.5.0.%d" % k: c.rnd.choice(FAST) for k in range(1, 13)}),
              tor(5, 8, eps=[["10.6.0.%d" % k, 7001] for k in range(1, 10)] + dead, pieceq=fails(30))]
        many = c.rnd.choice([210, 300, 520] if THOROUGH else [210, 300])
        ts.append(tor(6, many, pieceq=fails(8), bypiece={str(p): [[c.rnd.choice(["corrupt", "choke", "close", "rst", "short"])]] for p in c.rnd.sample(range(many), many // 6)}))
        ts[4]["torrent"]["seed"] += i
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 90, "gather": True, "max_conns": 6000}))
    # everybody fails until nobody is preferred any more, then a single one serves the pieces
    for i in range(8 if THOROUGH else 2):
        ts = []
        for k in range(6):
            n = 11 + (i + k) % 5
            one = c.rnd.randrange(n) if k % 3 else (0, n - 1)[(k // 3 + i) % 2]
            ips = ["10.%d.%d.%d" % (k + 1, c.rnd.randrange(200), 1 + e) for e in range(n)]
            ts.append({"torrent": {"name": "o%d" % k, "length": (5 + k) * 64 - 5, "pl": 64, "seed": SEED * 41 + 10 * i + k}, "eps": [[e, 7001] for e in ips], "lax": True,
                       "by_ep": {e: [dict(c.rnd.choice(QUICK)) for _ in range(4 + (i + k) % 3)] if j == one else dict(c.rnd.choice(QUICK)) for j, e in enumerate(ips)}})
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 60, "gather": True, "max_conns": 6000}))
    # hundreds of pieces from one endpoint, hundreds of failures of one
    ts = [{"torrent": {"name": "h%d" % k, "length": np * 64 - 5, "pl": 64, "seed": SEED * 43 + k}, "eps": [["10.%d.7.7" % (k + 1), 7001]] * 12, "lax": True, "pieceq": [dict(FAST[j % 2]) for j in range(nf)]}
          for k, (np, nf) in enumerate(((300, 0), (3, 280)) if not THOROUGH else ((700, 0), (3, 700), (1, 300)))]
    hundreds = [("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 60, "gather": True, "max_conns": 6000})]
    c.go("hundreds", hundreds, [completed])
    c.go("failure histories", jobs, [by_sessions("C02"), by_torrents("C02"), by_outcomes, completed], parallel=12)
    return c.finish()
