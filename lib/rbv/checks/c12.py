"""C12: hostile bytes never crash, hang or disable the client."""
import hashlib
import struct
import random

from .. import models, sess, strat
from ..campaign import Campaign, by_outcomes, by_sessions, completed, survived
from ..report import THOROUGH, SEED
from ..swarm import JUNK
from ..torrent import benc
from ..world import frame


def hostile_infos(rnd, n):
    """Metadata whose SHA-1 is right and whose content is not."""
    h = bytes(20)
    base = {"name": "x", "piece length": 64, "pieces": h * 2, "length": 100}

    def v(**kw):
        d = dict(base)
        for k, x in kw.items():
            k = k.replace("_", " ")
            if x is None:
                d.pop(k, None)
            else:
                d[k] = x
        return benc(d)
    out = [b"x", b"i1e", b"le", b"de", b"l" * 3000, b"d1:a" * 2000, b"l" * 30000 + b"e" * 30000, b"d" + b"1:ad" * 20000,
           v(name=None), v(piece_length=None), v(pieces=None), v(length=None), v(piece_length=0), v(piece_length=-1), v(piece_length=1 << 62),
           v(length=0), v(length=-1), v(length=1 << 62), v(length=(1 << 63) - 1), v(pieces=b""), v(pieces=h[:19]), v(pieces=h), v(pieces=h * 500),
           v(pieces=5), v(name=5), v(name=b"\xff\xfe"), v(name=[]), v(length="12"), v(piece_length="64"), v(files=[]), v(length=None, files=[]),
           v(length=None, files=5), v(length=None, files=[5]), v(length=None, files=[{}]), v(length=None, files=[{"length": 5}]),
           v(length=None, files=[{"path": ["a"]}]), v(length=None, files=[{"length": -5, "path": ["a"]}, {"length": 105, "path": ["b"]}]),
           v(length=None, files=[{"length": 100, "path": []}]), v(length=None, files=[{"length": 100, "path": "a"}]),
           v(length=None, files=[{"length": 100, "path": [5]}]), v(length=None, files=[{"length": 100, "path": [b"\xff"]}]),
           v(length=None, files=[{"length": (1 << 63) - 1, "path": ["a"]}, {"length": (1 << 63) - 1, "path": ["b"]}, {"length": 102, "path": ["c"]}]),
           v(length=None, files=[{"length": (1 << 62), "path": ["a"]}] * 8),
           v(length=None, files=[{"length": 0, "path": ["a"]}] * 3), v(length=None, files=[[100, ["a"]]]),
           benc(base)[:-1], benc(base) + b"garbage", b"d4:name99999999999999999999:xe", b"d6:lengthi99999999999999999999999ee", b"d6:lengthi1",
           b"di1e1:ae", b"dlei1ee", b"dde1:ae", b"d4:name", b"4:spam", b"0:", b"\0" * 50, b"-1:x", b"i-e", b"ie", b"i--1e", b"1", b":", b"e"]
    # consistent and inconsistent combinations of extreme values
    out += [v(piece_length=0, length=0, pieces=b""), v(piece_length=0, length=None, files=[], pieces=b""), v(length=0, pieces=b""), v(length=None, files=[], pieces=b""),
            v(length=None, files=[{"length": 0, "path": ["a"]}], pieces=b""), v(piece_length=0, length=None, files=[{"length": 0, "path": ["a"]}], pieces=b""),
            v(piece_length=1 << 62, length=5, pieces=h[:20]), v(piece_length=(1 << 32) - 1, length=5, pieces=h[:20]), v(piece_length=1 << 32, length=5, pieces=h[:20]),
            v(piece_length=1 << 31, length=1 << 32, pieces=h[:40]), v(piece_length=(1 << 32) - 1, length=1 << 33, pieces=h[:20] * 3), v(piece_length=1, length=1000, pieces=h[:20] * 1000)]
    # pieces that can be had, more or fewer of them than there is room for, in files that end elsewhere
    def z(k):
        return hashlib.sha1(bytes(k)).digest()
    for pl, total in ((64, 100), (64, 128), (64, 0), (16384, 16384), (100, 1)):
        for k in (0, 1, 2, 3, 4, 30):
            if k != -(-total // pl) or pl == 64:
                last = total % pl or pl
                for ps in {z(pl) * k, z(pl) * max(0, k - 1) + z(last) * min(1, k)}:
                    out.append(v(piece_length=pl, length=total, pieces=ps))
                    out.append(v(piece_length=pl, length=None, files=[{"length": total // 3, "path": ["q", "a"]}, {"length": total - total // 3, "path": ["q", "b"]}], pieces=ps))
    for _ in range(n):
        files = [{"length": rnd.choice([0, 1, 64, 100, 1 << 32, 1 << 62, (1 << 63) - 1]), "path": rnd.choice([["a"], ["a", "b"], ["b"], [""], []])} for _ in range(rnd.randrange(4))]
        several = rnd.random() < .4
        length = None if several else rnd.choice([0, 1, 63, 64, 65, 1 << 31, 1 << 32, 1 << 62])
        pl = rnd.choice([0, 1, 2, 64, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 62])
        total = sum(f["length"] for f in files) if length is None else length
        k = -(-total // pl) if pl else 0
        x = dict(piece_length=pl, pieces=h[:20] * min(1000, k + rnd.choice([0, 0, 0, 1, -1]))) if k >= 0 else {}
        out.append(v(length=None, files=files, **x) if several else v(length=length, **x))
    for _ in range(n):
        b = bytearray(benc(base) if rnd.random() < .5 else v(length=None, files=[{"length": 50, "path": ["a", "b"]}, {"length": 50, "path": ["c"]}]))
        for _ in range(rnd.randrange(1, 4)):
            k = rnd.randrange(len(b))
            rnd.choice([lambda: b.__setitem__(k, rnd.choice(b"ilde0123456789:-")), lambda: b.__delitem__(slice(k, k + rnd.randrange(1, 5))),
                        lambda: b.insert(k, rnd.choice(b"ilde0123456789:-"))])()
            if not b:
                b = bytearray(b"d")
        out.append(bytes(b))
    return out


ODDEPS = [["255.255.255.255", 65535], ["0.0.0.0", 0], ["0.0.0.0", 1], ["10.1.0.1", 0], ["127.0.0.1", 8080], ["127.0.0.1", 65535], ["224.0.0.1", 6881], ["239.255.255.250", 1900],
          ["255.255.255.255", 0], ["0.0.0.0", 65535], ["169.254.0.1", 1], ["10.1.0.1", 65535], ["240.0.0.1", 6881], ["1.0.0.0", 255], ["0.0.0.1", 256]]
FILLS = ["fill:%d:%d:%d" % (k, b, n) for k in (5, 250) for b in (0, 255) for n in (1, 2, 8, 32, 1023, 8191, 8192, 8193, 65536, 131072, 500000)]
WHOLEMSG = ["msg:04" + x for x in ("00000000", "ffffffff", "80000000", "00010000", "7fffffff", "000000", "0000000000", "")] + ["msg:05" + x for x in ("", "00", "80", "7f", "01" * 9)] + \
    ["msg:06" + x for x in ("ff" * 12, "00" * 12, "80" + "00" * 11, "00" * 11 + "ff")] + ["msg:08" + x for x in ("", "ff" * 12, "00" * 13)] + ["msg:09", "msg:091a", "msg:09ffff", "msg:02", "msg:03", "msg:0200", "msg:0300"] + \
    ["msg:%02x%s" % (k, x) for k in (10, 11, 12, 13, 14, 15, 16, 17, 18, 21, 22, 23, 100, 127, 128, 254) for x in ("", "ff" * 12)]

HOSTILE_UDP = ["", "00", "00000000", "00000001" + "T" * 8, "00000000" + "T" * 8, "00000003" + "T" * 8 + b"error".hex(), "ff" * 8, "00000000" + "T" * 8 + "00" * 7,
               "00000001" + "T" * 8 + "00" * 11, "00000001" + "T" * 8 + "00" * 12 + "ff", "00000001" + "T" * 8 + "ff" * 12 + "0a" * 5, "00000002" + "T" * 8 + "00" * 40,
               "ffffffff" + "T" * 8 + "00" * 40, "41" * 1400, "00000001" + "T" * 8 + "00" * 4000]


HEADERS = [{"msg_type": 1}, {"msg_type": 1, "piece": 0}, {"msg_type": 1, "piece": 1}, {"msg_type": 1, "piece": 7, "total_size": 5}, {"msg_type": 1, "piece": 1 << 40},
           {"msg_type": 1, "piece": (1 << 63) - 1, "total_size": (1 << 63) - 1}, {"msg_type": 1, "piece": -1}, {"msg_type": 1, "piece": "x"}, {"msg_type": 1, "piece": [], "total_size": {}},
           {"piece": 0}, {"msg_type": 3, "piece": 0}, {"msg_type": "1", "piece": 0}, {"msg_type": -1}, {"msg_type": 2}, {"msg_type": 0}, {"msg_type": 0, "piece": 1 << 50},
           {"msg_type": 1, "metadata_size": 20}, {"msg_type": 1, "metadata_size": 0}, {"msg_type": 1, "metadata_size": 1 << 62}, {"msg_type": 1, "m": {}}, {"msg_type": 1, "m": 5, "metadata_size": 5},
           {"msg_type": 1, "piece": 0, "m": {"ut_metadata": 0}, "metadata_size": 1}, {"msg_type": 1, "piece": 0, "m": {"ut_metadata": 1 << 50}, "metadata_size": 20000},
           {"m": {"ut_metadata": -3}, "metadata_size": 100}, {"m": {"ut_metadata": "a"}, "metadata_size": 40000}, {}, {"": 0}]


def mangled(rnd, whole):
    """One message, valid except for a few bytes; `whole`: the length it announces is right."""
    b = bytearray(rnd.choice([
        frame(7, b"\0" * 8 + b"x" * rnd.randrange(30)), frame(6, b"\0" * 12), frame(4, b"\0" * 4), frame(5, b"\xff" * rnd.randrange(5)), frame(0), frame(1), frame(2), frame(3),
        frame(20, b"\0" + benc({"m": {"ut_metadata": 3, "ut_pex": 1}, "metadata_size": 300, "v": "x"})), frame(20, b"\1" + benc({"msg_type": 1, "piece": 0, "total_size": 300}) + b"y" * 20),
        frame(20, b"\1" + benc({"msg_type": 2, "piece": 0})), frame(20, b"\2" + benc({"added": b"\1\2\3\4\5\6"})), frame(rnd.randrange(256), b"z" * rnd.randrange(20)),
        b"\x13BitTorrent protocol" + b"\0" * 48, frame(19, b"\x13BitTorrent protocol" + b"\0" * rnd.randrange(60)), frame(255, b""), frame(20, b"\0" + benc({"m": [1], "metadata_size": -5}))]))
    for _ in range(rnd.randrange(1, 4)):
        k = rnd.randrange(len(b))
        rnd.choice([lambda: b.__setitem__(k, rnd.randrange(256)), lambda: b.__setitem__(k, b[k] ^ (1 << rnd.randrange(8))), lambda: b.insert(k, rnd.choice(b"ilde0123456789:-\0\xff")),
                    lambda: b.__delitem__(slice(k, k + rnd.randrange(1, 6))), lambda: b.__setitem__(0, 0), lambda: b.__setitem__(min(3, len(b) - 1), rnd.randrange(256))])()
        if not b:
            b = bytearray(4)
    if whole:
        b = bytearray(struct.pack(">I", max(0, len(b) - 4))) + b[4:]
    return "z:" + bytes(b).hex()


def capacity(runs, rep):
    """After everything else five transfers run at once."""
    out = []
    for r in runs:
        of = {x["cid"]: x for x in r.sess}
        for h, spec in enumerate(r.P["torrents"]):
            if not spec.get("capacity"):
                continue
            cur, best = set(), 0
            for e in r.log:
                s = of.get(e.get("c")) if e["e"] in ("sess", "eof", "pclose") else None
                if s is None or s["h"] != h:
                    continue
                if e["e"] == "sess" and s["kind"] == "piece" and s["st"] == spec["default"]:
                    cur.add(e["c"])
                    best = max(best, len(cur))
                elif e["e"] != "sess":
                    cur.discard(e["c"])
            rep.add(capacities_measured=1)
            if r.res["reached"] and best < 5:
                out.append((r, "only %d transfers ran at once afterwards" % best, {"torrent": h}))
    return out


def check():
    c = Campaign("C12")
    models.session(c.rep, (2,), 5 if THOROUGH else 4, 2)
    rnd = random.Random(SEED)
    SLOW = {"ans": ["slow", "slow", "slow"], "cap": True}
    jobs = []
    # 1. malformed messages at every point of a piece attempt and of a metadata attempt
    for kind, n in (("piece", 2), ("meta", 2)):
        S = strat.generate(kind, n, hs=list(strat.HS), pre={"bad", "frag", "unsol"} | ({"extless", "extmore", "exthuge"} if kind == "meta" else set()),
                           ans={"bad", "badgood", "frag", "reject"}, pre_max=2, ans_max=1, report=c.rep)
        C = strat.Concrete(SEED)
        S = strat.pick(rnd, S, 600 if THOROUGH else (100 if kind == "piece" else 30))
        conc = [C.make(s) for s in S]
        one = [s for s in S if s["pre"].count("bad") == 1 and len(s["pre"]) == 3]
        for k in JUNK:              # every malformed message at every place
            for where in range(3):
                s = [x for x in one if x["pre"].index("bad") == where and not x["ans"]]
                if s:
                    d = C.make(s[0])
                    d["pre"] = [("j:" + k) if x == "bad" else x for x in s[0]["pre"]]
                    d["abs"] = dict(d["abs"], demand="any")
                    conc.append(d)
            d = C.make(S[0])
            d.update(hs="good", pre=["unchoke", "ext"], ans=["good", "j:%s+good" % k], abs=dict(d["abs"], demand="any"))
            conc.append(d)
        # every message without effect, whatever its size, before and between the blocks
        quiet = FILLS + WHOLEMSG
        for i in range(0, len(quiet), 12):
            d = C.make(S[0])
            d.update(hs="good", pre=quiet[i:i + 6] + ["unchoke", "ext"] + quiet[i + 6:i + 12], ans=[], abs=dict(d["abs"], demand="any"))
            conc.append(d)
        c.rep.add(strategies=len(conc))
        if kind == "piece":
            jobs += sess.piece_jobs(conc, n, seed=SEED, nproc=6, ntor=3, extra_pieces=14, opts={"default": SLOW, "capacity": True})
        else:
            jobs += sess.meta_jobs([dict(x, abs=dict(x["abs"], demand="fail")) for x in conc], n, seed=SEED, opts={"lax": True}, per=5, ntor=6)
    # a client with little memory: what a peer claims must not be taken from it
    S = [s for s in strat.generate("piece", 2, pre={"frag"}, ans={"frag", "good"}, pre_max=1, ans_max=2, report=c.rep) if "frag" in s["pre"] + s["ans"]]
    C = strat.Concrete(SEED)
    conc = []
    for tok in ("hugelen", "biglen", "len:7fffffff", "len:01000002"):
        for s in strat.pick(rnd, S, 20) if THOROUGH else strat.pick(rnd, S, 4):
            d = C.make(s)
            d.update(pre=[tok if a == "frag" else a for a in s["pre"]], ans=[tok if a == "frag" else a for a in s["ans"]])
            conc.append(d)
    metas = []
    for n in (3 << 30, 1 << 36, 1 << 40, (1 << 62) + 5, (1 << 63) - 1, (64 << 20) + 1, 64 << 20, 63 << 20):
        d = C.make(S[0])
        d.update(pre=["unchoke", "extsize:%d" % n], ans=["close"], abs=dict(d["abs"], demand="fail"))
        metas.append(d)
    for j in sess.piece_jobs(conc, 2, seed=SEED + 7, nproc=2, ntor=2, extra_pieces=14, opts={"default": SLOW, "capacity": True}) + \
            sess.meta_jobs(metas, 2, seed=SEED + 8, per=4, ntor=2, opts={"lax": True}):
        j[1]["job"] = {"rlimits": {"RLIMIT_AS": 3 << 30}}
        jobs.append(j)
    c.rep.add(strategies=len(conc))
    c.go("malformed messages", jobs, [survived(), completed, capacity], parallel=12)
    # 2. metadata data under headers of every kind, and messages with a few bytes changed
    jobs, anyof = [], {"demand": "any", "kind": "any"}
    H = ["dh:" + benc(h).hex() for h in HEADERS]
    for i in range(8 if THOROUGH else 2):
        ts = []
        for k in range(6):
            hs = rnd.sample(H, 10) if i else H[k::6]
            q = [{"ans": a, "abs": anyof, "meta": "flip"} for h in hs for a in ([h, h], ["good", h], [h, "good"])]
            ts.append({"torrent": {"name": "h%d" % k, "length": 15 * 64, "pl": 64, "seed": 50 * i + k, "extra": {"zfill": "z" * (17000 if k % 2 else 40000)}}, "metaq": q, "eps": len(q) + 14, "lax": True,
                       "default": SLOW, "capacity": True})
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 90, "gather": True}))
    for i in range(24 if THOROUGH else 3):
        ts = []
        for k in range(6):
            ms = [mangled(rnd, k > 2) for k in range(20)]
            q = [{"pre": rnd.choice([[m, "unchoke", "ext"], ["unchoke", m, "ext"], ["unchoke", "ext", m]]), "ans": rnd.choice([[], [m], ["good", m + "+good"]]), "abs": anyof} for m in ms]
            ts.append({"torrent": {"name": "z%d" % k, "length": 30 * 32768, "pl": 32768, "seed": 70 * i + k}, "eps": 12, "lax": True, "pieceq": q, "metaq": rnd.sample(q[3:], 3),
                       "default": SLOW, "capacity": True})
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 120, "gather": True}))
    c.go("headers and mangled messages", jobs, [survived(), completed, capacity], parallel=10)
    # 3. hostile metadata with the right hash, and hostile trackers; a healthy torrent before and after
    infos = list(dict.fromkeys(hostile_infos(rnd, 300 if THOROUGH else 30)))
    jobs, per = [], 12
    healthy = {"eps": 12, "default": SLOW, "capacity": True, "odd": ODDEPS}
    for j in range(0, len(infos), per):
        # peers that close, or serve zeros and never what is right
        ts = [{"torrent": {"raw": x.hex()}, "doomed": True, "goal_sessions": 1, "eps": 12, "default": {"hs": "close"} if i % 3 else {}} for i, x in enumerate(infos[j:j + per], j // per)]
        ts.append(dict(healthy, torrent={"name": "before", "length": 15 * 64, "pl": 64, "seed": j}))
        ts.append(dict(healthy, torrent={"name": "after", "length": 15 * 64, "pl": 64, "seed": j + 1}, late=True))
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 40, "timeout2": 40, "trackers_up": [0, 1, 2, 3],
                                        "tjunk": {"1": HOSTILE_UDP, "2": HOSTILE_UDP[::-1], "3": [x * 2 for x in HOSTILE_UDP if "T" not in x]}}))
    # 4. metadata in order, whose paths cannot be written: the writes of the others go on
    def z(k):
        return hashlib.sha1(bytes(k)).digest()

    def unw(files, pl=64):
        n = sum(k for _, k in files)
        pcs = b"".join(z(min(pl, n - o)) for o in range(0, n, pl))
        d = {"name": "x", "piece length": pl, "pieces": pcs}
        d.update({"length": n, "name": files[0][0]} if isinstance(files[0][0], (bytes, str)) else {"files": [{"path": p, "length": k} for p, k in files]})
        return benc(d)
    ways = ["n" * 256, "n" * 300, "n" * 5000, b"a\0b", b"\0", "\u00e9" * 200, "\U0001f600" * 64]
    for i in range(4 if THOROUGH else 1):
        us = [unw([[w, k]]) for w in ways for k in ((64, 1, 700) if THOROUGH else (640,))] + [unw([[["ok%d" % i, "f"], 100], [[w], 500], [["ok%d" % i, "g"], 100]]) for w in ways] + \
            [unw([[["u%d" % i], 300], [["u%d" % i, "v"], 300], [["u%d" % i, "v", "w"], 300]]), unw([[["p%d" % i, "v"], 300], [["p%d" % i], 300]]), unw([[["q%d" % i, "v", "w"], 300], [["q%d" % i, "v"], 300]]),
             unw([[["d"] * 3000, 500]]), unw([[["d" * 200] * 30, 500]])]
        rnd.shuffle(us)
        for j in range(0, len(us), 10):
            ts = [{"torrent": {"raw": x.hex()}, "doomed": True, "goal_sessions": 2, "eps": 12, "default": {}} for x in us[j:j + 10]]
            ts.append(dict(healthy, torrent={"name": "after", "length": 30 * 64, "pl": 64, "seed": j + 1}, late=True))
            jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 40, "timeout2": 40}))
    c.rep.add(hostile_metadata=len(infos), unwritable=len(us))
    c.go("hostile metadata and trackers", jobs, [survived(), completed, capacity], parallel=8)
    return c.finish()
