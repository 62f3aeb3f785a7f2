"""C06: only metadata whose SHA-1 is the magnet's info hash is adopted."""
import hashlib

from .. import models, sess, strat, swarm
from ..campaign import Campaign, by_outcomes, by_torrents, completed, files_clean, survived
from ..report import THOROUGH, SEED
from ..torrent import benc


def nothing_saved(runs, rep):
    """No peer ever gave the right metadata: nothing but the log may exist."""
    out = []
    for r in runs:
        extra = [k for k in r.res["listing"] if k != "test.log"]
        rep.add(directories_inspected=1)
        if extra:
            out.append((r, "files appeared although no peer gave the right metadata: %s" % extra[:3], {"files": extra}))
        asked = [s for s in r.sess for k, m, _ in s["ev"] if k == "rx" and m["t"] == "req"]
        if asked:
            out.append((r, "a piece was requested although no peer gave the right metadata", {"session": sess.slim(asked[0])}))
    return out


def lookalike(t, rnd, same, tries=300000):
    """Well-formed metadata of another torrent whose SHA-1 has some bytes in common with the right one."""
    head = t.info[:-1] + b"2:zzi"           # sorts last
    base = hashlib.sha1(head)
    want = t.info_hash
    for k in range(tries):
        x = base.copy()
        x.update(b"%dee" % k)
        h = x.digest()
        if all(h[i] == want[i] for i in same):
            return head + b"%dee" % k
    return None


def variants(t, rnd, n, thorough=False):
    """Peer strategies serving wrong metadata for torrent t."""
    L = len(t.info)
    out = [{"meta": "flip", "at": k} for k in [0, 1, L - 1, L - 2, L // 2] + [rnd.randrange(L) for _ in range(n)]]
    out += [{"meta": "trunc", "at": k} for k in (1, 2, L // 2, L - 1)] + [{"meta": "pad", "at": k} for k in (1, 2, 100, 16384)]
    raws = []
    d = dict(t.info_dict)
    raws.append(benc(dict(d, name=d["name"] + "x")))
    raws.append(benc(dict(d, zextra=1)))
    raws.append(benc({k: v for k, v in d.items() if k != "zfill"} if "zfill" in d else dict(d, private=1)))
    # the same dictionary with its keys in another order
    items = sorted(d.items(), reverse=True)
    raws.append(b"d" + b"".join(benc(k) + benc(v) for k, v in items) + b"e")
    raws.append(t.info.replace(b"12:piece lengthi", b"12:piece lengthi0", 1))
    raws.append(benc({"info": d}))
    # what the decoder may leave aside
    tails = (b" ", b"\n", b"\r\n", b"\t \n", b"\0", b"e", b"i0e", b"0:", b"de", b" " * 300)
    raws += [t.info + x for x in (tails if thorough or L < 2000 else rnd.sample(tails, 2))]
    raws += [x + t.info for x in (b" ", b"\n", b"\xef\xbb\xbf")]
    raws.append(t.info.replace(b"4:name", b"04:name", 1))
    raws.append(t.info[:-1] + b"4:name" + benc(d["name"]) + b"e")          # a key said twice
    raws.append(b"d6:lengthi7e" + t.info[1:])
    raws.append(swarm.mk_torrent({"name": "other.bin", "length": 300, "pl": 64, "seed": 4242}).info)
    for same in ([0], [19], [0, 19], [0, 1], [18, 19], [9, 10]) if thorough or L < 2000 else ([0], [19]):
        x = lookalike(t, rnd, same)
        if x:
            raws.append(x)
    out += [{"meta": "raw", "hex": x.hex()} for x in raws if x != t.info]
    out += [{"meta": "raw", "hex": (t.info + t.info).hex()}, {"meta": "raw", "hex": t.info.hex(), "ans": ["corrupt"]},
            {"ans": ["dup"]} if L > 16384 else {"ans": ["long"]}, {"ans": ["empty"]}, {"ans": ["short"]}, {"meta": "flip", "at": 3, "ans": ["good", "good+choke"]}]
    if L > 16384:
        out += [{"ans": ["good"] * i + [x]} for i in range((L - 1) // 16384) for x in ("corrupt", "short", "long", "dup")]
    return out


def check():
    c = Campaign("C06")
    models.session(c.rep, (2,), 6 if THOROUGH else 4, 2)
    from . import store
    store.model(c.rep)
    # 1. TLC's metadata strategies
    jobs = []
    for n, k in ((1, 40), (2, 50), (3, 40)) if not THOROUGH else ((1, 200), (2, 300), (3, 400)):
        S = strat.generate("meta", n, pre={"extless", "extmore", "ext0", "unsol", "noise"}, ans={"good", "corrupt", "dup", "reject", "noisegood", "goodchoke", "extgood"},
                           pre_max=1, ans_max=min(2, n), report=c.rep)
        S = strat.pick(c.rnd, S, k)
        C = strat.Concrete(SEED + n)
        conc = [C.make(s) for s in S]
        c.rep.add(strategies=len(conc))
        jobs += sess.meta_jobs(conc, n, seed=SEED + n, per=6, ntor=6)
    c.go("metadata attempts", jobs, [by_torrents("C06"), by_outcomes, files_clean, completed], parallel=10)
    # 2. concrete wrong metadata: first without, then with a good peer at the end
    for good in (False, True):
        jobs, nvar = [], 0
        for i in range(10 if THOROUGH else 2):
            ts = []
            for k in range(5):
                spec = {"name": "v%d" % k, "length": [200, 64, 1000, 65, 500][k], "pl": 64, "seed": SEED * 3 + 10 * i + k}
                if k:          # the first has the standard keys only
                    spec["extra"] = {"zfill": "z" * [0, 10, 17000, 40000, 100][k]}
                t = swarm.mk_torrent(spec)
                vs = variants(t, c.rnd, 30 if THOROUGH else 5, THOROUGH)
                c.rnd.shuffle(vs)
                if not THOROUGH and k == 3:
                    vs = vs[:12]
                nvar += len(vs)
                ts.append({"torrent": spec, "metaq": vs, "eps": len(vs) + (14 if good else 0), "doomed": not good, "goal_sessions": len(vs)})
            jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 90, "gather": True, "quiet": 2.0 if not good else 0.4, "settle_open": not good}))
        c.rep.add(wrong_metadata=nvar)
        c.go("wrong metadata, %s" % ("then a good peer" if good else "no good peer"), jobs,
             [by_torrents("C06"), files_clean, completed, survived()] + ([] if good else [nothing_saved]), parallel=8)
    # the same peers, torrent after torrent: each learns of them anew
    jobs = []
    for i in range(6 if THOROUGH else 2):
        ts = []
        for k in range(10):
            spec = {"name": "s%d" % k, "length": 700, "pl": 64, "seed": SEED * 7 + 20 * i + k}
            vs = [c.rnd.choice([{"meta": "flip", "at": c.rnd.randrange(100)}, {"meta": "trunc", "at": 5}, {"hs": "close"}, {"ans": ["reject"]}]) for _ in range(c.rnd.choice([3, 6, 9, 10]))]
            ts.append({"torrent": spec, "metaq": vs, "eps_by_tracker": {"0": [["10.1.0.%d" % (j + 1), 7001] for j in range(12 + i % 2)]}, "late": k > 4 and i % 2 == 1})
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "trackers_up": [0], "timeout": 60, "gather": True}))
    c.go("the same peers for ten torrents", jobs, [files_clean, completed, survived()], parallel=6)
    return c.finish()
