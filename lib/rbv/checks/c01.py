"""C01: only bytes that passed the SHA-1 piece check reach the disk."""
import hashlib

from .. import models, sess, strat, swarm
from ..campaign import Campaign, by_outcomes, by_torrents, completed, files_clean
from ..report import THOROUGH, SEED


def lookalike(piece, same, tries=400000):
    """Other data of the same length whose SHA-1 has the given bytes in common with the right one."""
    want = hashlib.sha1(piece).digest()
    m = min(4, len(piece))
    base = hashlib.sha1(piece[:-m])
    for k in range(tries):
        x = base.copy()
        tail = ((k * 2654435761) & 0xFFFFFFFF).to_bytes(4, "big")[:m]
        x.update(tail)
        h = x.digest()
        if all(h[i] == want[i] for i in same) and tail != piece[-m:]:
            return piece[:-m] + tail
    return None


def check():
    c = Campaign("C01")
    models.swarm(c.rep, ("a", "b", "c"), ("a",), 3, 2)
    models.session(c.rep, (2,), 6 if THOROUGH else 4, 2)
    judges = [by_torrents("C01"), files_clean, by_outcomes, completed]
    # 1. every corruption TLC can combine over the blocks of a piece; pieces of 1, 2, 3 blocks
    jobs = []
    for n in (1, 2, 3):
        S = strat.generate("piece", n, ans={"good", "corrupt", "dup", "noisegood", "unsol", "extgood"}, pre={"unsol", "noise"},
                           pre_max=1, ans_max=n, report=c.rep)
        S = strat.pick(c.rnd, S, 400 if THOROUGH else {1: 20, 2: 50, 3: 90}[n])
        C = strat.Concrete(SEED + n)
        conc = [C.make(s) for s in S]
        for i in range(n):        # every concrete corruption at every block
            for t in strat.CORRUPT + ["swapblk", "otherfull", "split2", "good+corrupt", "corrupt+good", "zero+good"]:
                d = C.make(S[0])
                d.update(hs="good", pre=["unchoke", "ext"], ans=["good"] * i + [t], abs=dict(d["abs"], demand="any"))
                conc.append(d)
        c.rep.add(strategies=len(conc))
        jobs += [(a, dict(p, disk=True)) for a, p in sess.piece_jobs(conc, n, seed=SEED, nproc=3, ntor=2, extra_pieces=4)]
    c.go("corrupted blocks", jobs, judges, parallel=10)
    # 1b. every corruption of the first, a middle and the last piece, of all lengths, before it is served correctly
    jobs, tries = [], 0
    B = 16384
    shapes = [(pl, last) for pl in (33, B - 1, B, B + 1, 2 * B, 3 * B - 7) for last in sorted({1, pl - 1, pl, pl // 2, B, B + 1, 2 * B} & set(range(1, pl + 1)))]
    c.rnd.shuffle(shapes)
    for i in range(0, len(shapes), 5):
        ts = []
        for k, (pl, last) in enumerate(shapes[i:i + 5]):
            np = 4
            by = {}
            for p in (0, 1, 3):
                nb = -(-(pl if p < 3 else last) // B)
                seqs = [["good"] * b + [x] for b in range(nb) for x in strat.CORRUPT + ["otherfull", "split2", "good+corrupt", "corrupt+good", "zero+good", "padfront", "padback", "good+good", "flip2"]
                        + (["swapblk"] if nb > 1 else [])]
                seqs += [[x] * nb for x in ("corrupt", "zero", "other", "swapblk", "flip2")] if nb > 1 else []
                c.rnd.shuffle(seqs)
                by[str(p)] = seqs if THOROUGH else seqs[:18]
                tries += len(by[str(p)])
            ts.append({"torrent": {"name": "p%d" % k, "length": 3 * pl + last, "pl": pl, "seed": SEED * 17 + i + k}, "eps": 12, "bypiece": by, "lax": True})
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 60, "gather": True, "disk": True}))
    # peers that serve many pieces correctly before one they do not
    for i in range(12 if THOROUGH else 3):
        ts = []
        for k in range(3):
            good = {"hs": "good", "pre": ["unchoke", "ext"], "ans": []}
            by = {}
            for e in range(12):
                q = []
                for run in [(4, 9, 14), (7, 12, 25), (11, 20, 30), (2, 17, 40)][(e + i + k) % 4]:
                    q += [good] * run + [dict(good, ans=[c.rnd.choice(["corrupt", "corruptlast", "zero", "other", "rev", "short", "flip2"])])]
                by["10.%d.0.%d" % (k + 1, e + 1)] = q
            ts.append({"torrent": {"name": "t%d" % k, "length": 33 * 239 + 5, "pl": 33, "seed": SEED * 23 + 10 * i + k}, "eps": 12, "by_ep": by, "lax": True})
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 60, "gather": True, "disk": True}))
    # pieces of a megabyte and more
    for i, (pl, last) in enumerate([(1 << 20, 5), (2 << 20, B + 1), (4 << 20, (1 << 20) + 7)] + ([(16 << 20, 8 << 20)] if THOROUGH else [])):
        by = {}
        for p, size in ((0, pl), (1, pl), (2, last)):
            nb = -(-size // B)
            at = sorted({0, nb // 2, nb - 1, c.rnd.randrange(nb), min(nb - 1, 64)})
            by[str(p)] = [["good"] * b + [x] for b in (at if THOROUGH else c.rnd.sample(at, min(2, len(at))) + [nb - 1]) for x in (c.rnd.sample(["corrupt", "flip2", "zero"], 3 if THOROUGH else 1))]
            tries += len(by[str(p)])
        jobs.append(("swarm:download", {"torrents": [{"torrent": {"name": "big%d" % i, "length": 2 * pl + last, "pl": pl, "seed": SEED * 19 + i}, "eps": 12, "bypiece": by, "lax": True}],
                                        "trackers": c.urls, "timeout": 90, "gather": True, "disk": True}))
    c.rep.add(corruptions_by_place=tries)
    c.go("corruptions in every place", jobs, [by_torrents("C01"), files_clean, completed], parallel=8)
    # 2. pieces nobody ever serves correctly must stay gaps, whatever comes; look-alikes by SHA-1
    jobs = []
    for i in range(30 if THOROUGH else 6):
        ts = []
        for k in range(3):
            pl = [64, 100, 7, 16384, 40000, 33][(i + k) % 6]
            np = 6
            spec = {"name": "d%d" % k, "length": pl * (np - 1) + c.rnd.choice([1, pl, pl - 1, pl // 2 or 1]), "pl": pl, "seed": SEED * 13 + 10 * i + k}
            t = swarm.mk_torrent(spec)
            by = {}
            for p in range(np):
                d = t.piece(p)
                mode = (p + i + k) % 6
                seqs = []
                for same in ([0], [19], [0, 19], [0, 1], [18, 19], [10], [3, 4]) if len(d) <= 100 else ([0], [19], [10]):
                    x = lookalike(d, same) if len(d) > 3 else None
                    if x and len(d) <= 16384:
                        seqs.append(["hex:" + x.hex()])
                base = [["corrupt"], ["corruptlast"], ["other"], ["zero"], ["rev"], ["dupbyte"], ["good+corrupt"] if len(d) > 16384 else ["long"]]
                seqs = seqs + base if mode != 5 else []
                c.rnd.shuffle(seqs)
                if mode in (0, 3):        # never served correctly: the piece must stay a gap
                    seqs = (seqs * 40)[:400]
                by[str(p)] = seqs
            ts.append({"torrent": spec, "eps": 12, "bypiece": by, "doomed": True, "goal_sessions": 60 if pl <= 100 else 40, "lax": True})
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 30, "gather": True, "disk": True, "quiet": 0.5}))
    c.rep.add(never_served_torrents=3 * len(jobs))
    c.go("pieces never served correctly", jobs, [by_torrents("C01", whole=False), files_clean, completed], parallel=8)
    return c.finish()
