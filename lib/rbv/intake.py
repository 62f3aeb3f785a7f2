"""Scenarios around the ways into the client: magnets posted to its HTTP interface and the trackers they are announced to."""
import asyncio
import hashlib
import random
import time

from .world import DEAD_PORT, DEAF_PORT, PEER_PORT, World, be32, compact, parse_udp

PORTS = [7001, 1, 80, 255, 256, 6881, 32768, 65535]
RACE = 0.3
TID_AT = 12


def list_eps(n, count, bogus=False):
    """Endpoints of peer list number n; some share their address."""
    a = (60 if bogus else 11) + n // 200
    at = lambda i: i - (i % 5 in (2, 4))
    return [("%d.%d.%d.%d" % (a, n % 200, at(i) // 250, 1 + at(i) % 250), PORTS[(i + n) % len(PORTS)]) for i in range(count)]


def which(ip):
    a, b, c, d = map(int, ip.split("."))
    if a >= 60:
        return ("bogus", (a - 60) * 200 + b, c * 250 + d - 1)
    return ("list", (a - 11) * 200 + b, c * 250 + d - 1)


def family(tag, n):
    """Hashes, half of which differ from another one in one byte or in all but one or two only."""
    out = []
    for i in range(n):
        h = hashlib.sha1(b"%s%d" % (tag, i)).digest()
        if i % 2:
            b, k = out[i - 1], i // 2 % 20
            k2 = (k + 1) % 20
            h = b[:k] + bytes([b[k] ^ 1]) + b[k + 1:] if i % 4 == 1 else bytes(y if j in (k, k2) else x for j, (x, y) in enumerate(zip(h, b)))
        out.append(h)
    return out


HEADS = [(1800, 3, 5), (1800, 0, 0), (0, 0, 0), (60, 0, 1), (1, 1, 0), (0xffffffff, 0xffffffff, 0xffffffff), (1 << 31, 1 << 31, 1 << 31), (1800, 2, 1), (0, 1 << 24, 256), (256, 65536, 1)]


class Exchange:
    def __init__(self, num, k, port, script):
        self.num, self.k, self.port, self.script = num, k, port, script
        self.n = {"c": 0, "a": 0}
        self.hash = None
        self.rnd = random.Random(num * 7919 + script.get("seed", 0))
        self.ev = []
        self.t_good = None


class Udp(World):
    """Every exchange (tracker, client port) plays a script."""

    def __init__(self, job):
        super().__init__(job)
        P = job["params"]
        self.P = P
        self.hashes = family(b"%d/" % P.get("seed", 0), P["magnets"])
        self.scripts = {i: list(P["scripts"].get(str(i), [])) for i in range(len(P["trackers"]))}
        self.ex = {}
        self.tracker_policy = self.track
        self.policy = self.peer
        self.pids = set()

    async def peer(self, conn):
        conn.fin()

    def reply(self, trk, x, addr, data, note, delay=0):
        def go():
            x.ev.append(dict({"e": "tx", "late": bool(delay)}, **note))
            if note["full"] and note["tid"]:
                x.t_good = self.now()
            trk.reply(data, addr)
        if delay:
            asyncio.get_running_loop().call_later(delay, go)
        else:
            go()

    def now(self):
        return asyncio.get_running_loop().time()

    def good(self, x, step, tid):
        if step == "c":
            cid = (b"C%03d%04d" % (x.num, x.n["c"]), bytes(7) + bytes([x.n["c"] & 255]), b"\xff" * 7 + bytes([~x.n["c"] & 255]), b"C%03d%03d\0" % (x.num, x.n["c"]))[x.num % 4]
            return be32(0) + tid + cid, {"a": 0, "tid": True, "full": True, "cid": cid.hex(), "list": 0}
        cnt = x.script.get("peers", 3)
        data = be32(1) + tid + b"".join(map(be32, HEADS[(x.num + x.script.get("seed", 0)) % len(HEADS)])) + compact(list_eps(x.num, cnt)) + b"\x0b\x01\x01\x01\x1b"[:x.script.get("tail", 0)]
        return data, {"a": 1, "tid": True, "full": True, "cid": "", "list": x.num if cnt else 0}

    def bad(self, x, step, tid, after=False):
        """A datagram that does not answer the request (nor, `after` a good reply, the next one)."""
        bog = compact(list_eps(x.num, 4, True))
        wt = x.rnd.choice([bytes(4), b"\xff" * 4, tid[::-1], bytes([tid[0] ^ 1]) + tid[1:], tid[:3] + bytes([tid[3] ^ 0x80]), bytes(a ^ 0xff for a in tid)])
        cid = b"X%07d" % x.num
        if step == "c":
            pool = [(b"", 0, False, False), (be32(0)[:3], 0, False, False), (be32(0) + tid, 0, True, False), (be32(0) + tid + cid[:7], 0, True, False), (be32(0) + wt + cid, 0, False, True),
                    (be32(0) + wt + cid + bytes(20), 0, False, True), (be32(1) + tid + cid + be32(7) + bog, 1, True, True), (be32(3) + tid + b"no such torrent", 3, True, True),
                    (be32(2) + tid + cid, 2, True, True), (b"\xff" * 4 + tid + cid, 9, True, True), (be32(1 << 24) + tid + cid, 9, True, True), (tid + be32(0) + cid, 9, False, True)]
        else:
            hd = be32(1800) + be32(3) + be32(5)
            pool = [(b"", 1, False, False), (be32(1) + tid, 1, True, False), (be32(1) + tid + hd[:4], 1, True, False), (be32(1) + tid + hd[:11], 1, True, False), (be32(1) + wt + hd + bog, 1, False, True),
                    (be32(0) + tid + cid, 0, True, True), (be32(0) + tid + hd + bog, 0, True, True), (be32(3) + tid + b"connection expired, " + bog, 3, True, True),
                    (be32(2) + tid + hd + bog, 2, True, True), (tid + be32(1) + hd + bog, 9, False, True), (be32(256) + tid + hd + bog, 9, True, True), (be32(3) + tid + b"short", 3, True, False)]
        d, a, t, f = x.rnd.choice([q for q in pool if not (after and step == "c" and q[1] == 1)])
        return d, {"a": a, "tid": t, "full": f, "cid": cid.hex(), "list": -1}

    def track(self, trk, data, addr):
        m = parse_udp(data)
        key = (trk.idx, addr[1])
        x = self.ex.get(key)
        if x is None:
            q = self.scripts[trk.idx]
            x = self.ex[key] = Exchange(len(self.ex) + 1, trk.idx, addr[1], q.pop(0) if q else {})
        e = {"e": "rx", "k": m["t"], "cid": "", "own": True, "pid": True, "raced": x.t_good is not None and self.now() - x.t_good < RACE}
        if m["t"] == "announce":
            h = bytes.fromhex(m["hash"])
            e.update(cid=m["cid"], own=h in self.hashes and (x.hash in (None, h)), pid=len(bytes.fromhex(m["pid"]).strip(b"\0")) == 20)
            x.hash = h
        x.ev.append(e)
        if m["t"] == "bad":
            return
        step = m["t"][0]
        tid = bytes.fromhex(m["tid"])
        sc = x.script.get(step, ["good"])
        i = x.n[step]
        x.n[step] += 1
        what = sc[i] if i < len(sc) else "lost" if sc[-1] in ("never", "late") else sc[-1]
        if what in ("lost", "never"):
            return
        if what == "late":
            return self.reply(trk, x, addr, *self.good(x, step, tid), delay=x.script.get("delay", 2.35))
        done = False
        for part in {"bad": ["b"] * x.rnd.randrange(1, 7), "good": ["g"], "badgood": ["b"] * x.rnd.randrange(1, 7) + ["g"], "goodgood": ["g", "g"], "goodbad": ["g", "b", "b"]}[what]:
            self.reply(trk, x, addr, *(self.good(x, step, tid) if part == "g" else self.bad(x, step, tid, done)))
            done = done or part == "g"


async def exchanges(job):
    w = Udp(job)
    P = w.P
    w.net_up()
    await w.listen()
    for p in PORTS[1:]:
        await w.listen(p, False)
    for i, (ip, port) in enumerate(P["trackers"]):
        await w.add_tracker(i, ip, port)
    w.start()
    if not await w.ready():
        return {"error": "the client did not start: " + repr(w.panics())}
    sts = await asyncio.gather(*[w.post("magnet:?xt=urn:btih:%s&dn=x" % h.hex(), timeout=60) for h in w.hashes])

    def idle():
        last = max([e["t"] for e in w.log if e["e"] in ("urx", "open")] or [0])
        return w.ev("tick")["t"] - last > P.get("idle", 5.5)
    whole = await w.until(idle, P.get("timeout", 90), 0.25)
    w.log = [e for e in w.log if e["e"] != "tick"]
    alive = w.died is None
    w.kill()
    got = {}
    for e in w.log:
        if e["e"] == "open":
            got.setdefault(which(e["ep"])[:2], set()).add((e["ep"], e.get("port", PEER_PORT)))
    lag = sum(e["d"] for e in w.log if e["e"] == "lag" and e["d"] > 0.3)
    out = []
    for x in w.ex.values():
        g = got.pop(("list", x.num), set())
        want = set(list_eps(x.num, x.script.get("peers", 3)))
        r = 0 if not g else x.num if g == want else -1
        if got.pop(("bogus", x.num), None):
            r = -1
        x.ev.append({"e": "end", "got": r})
        out.append({"num": x.num, "tracker": x.k, "script": x.script, "whole": whole, "late": lag > 0, "ev": x.ev, "hash": x.hash.hex() if x.hash else None, "contacts": len(g), "wanted": len(want)})
    res = {"exchanges": out, "stray": sorted(map(str, got)), "alive": alive, "died": w.died, "panics": w.panics(), "rss_mb": w.rss_max // 256, "st": sts, "missing": [],
           "hashes": [h.hex() for h in w.hashes], "envbug": [e for e in w.log if e["e"] == "envbug"], "span": w.log[-1]["t"]}
    await w.shutdown()
    return res


ODD_PORTS = [1, 80, 443, 1023, 1024, 6881, 51413, 65535]
ODD_IPS = ["1.2.3.4", "172.16.0.1", "192.168.0.255", "169.254.1.1", "100.64.0.1", "8.8.8.0", "223.255.255.254", "127.0.0.5", "198.18.0.1", "203.0.113.9", "16.1.1.1"]


class Intake(World):
    """Trackers with moods, peers that hang up after the handshake."""

    def __init__(self, job):
        super().__init__(job)
        P = job["params"]
        self.P = P
        self.rnd = random.Random(P.get("seed", 0))
        self.hashes = family(b"intake %d/" % P.get("seed", 0), P["magnets"])
        self.num = {h: i + 1 for i, h in enumerate(self.hashes)}
        self.ids = {}            # endpoint -> number
        self.live = set()
        self.tr = []             # the trace
        self.moods = {}
        self.steady = {}         # tracker -> since when it answers
        self.tracker_policy = self.track
        self.policy = self.peer
        self.hung = []
        self.lost = {}

    def now(self):
        return time.monotonic() - self.t0

    def put(self, e, **kw):
        self.tr.append(dict({"e": e, "t": round(self.now(), 3)}, **kw))

    def peers(self, k, m):
        """The list of tracker k for magnet m: own peers, peers shared by trackers, peers shared by magnets, unreachable ones."""
        r = random.Random("%d/%d/%d" % (self.P.get("seed", 0), k, m))
        n = self.P.get("own", 1)
        n = self.P.get("list", {}).get(str(k), n)
        eps = [("%d.%d.%d.%d" % (10 if i < 250 else 20 + i // 250, k, m, i % 250 + 1), PEER_PORT) for i in range(n)]
        for ip in r.sample(ODD_IPS, self.P.get("odd", 2)):       # anything may be an address, and several peers may share one
            eps += [(ip, port) for port in r.sample(ODD_PORTS, 2)]
        eps += [("11.0.%d.%d" % (m, i + 1), PEER_PORT) for i in range(self.P.get("common", 1)) if r.random() < 0.3]
        eps += [("12.%d.0.%d" % (k, i + 1), PEER_PORT) for i in range(self.P.get("everywhere", 1)) if r.random() < 0.5]
        eps += [("13.%d.%d.%d" % (k, m, i + 1), DEAD_PORT) for i in range(r.randrange(3))]
        for x in eps:
            if x[1] in ODD_PORTS or x[1] == PEER_PORT:
                self.live.add(x)
        r.shuffle(eps)
        d = self.P.get("deaf", {}).get(str(k), 0)
        return [("14.%d.%d.%d" % (k, i // 250, 1 + i % 250), DEAF_PORT) for i in range(d)] + eps

    def id(self, ep):
        return self.ids.setdefault(tuple(ep), len(self.ids) + 1)

    async def peer(self, conn):
        m = self.num.get(conn.hs, 0)
        self.put("sess", p=self.id((conn.ep, conn.port)), m=m)
        how = self.rnd.choice(self.P.get("endings", ["fin", "fin", "rst"]))
        if how == "hang":
            self.hung.append(conn.cid)
            await asyncio.sleep(3600)
        getattr(conn, how)()

    def track(self, trk, data, addr):
        m = parse_udp(data)
        k = trk.idx + 1
        if m["t"] == "bad":
            return self.put("ann", k=k, m=0)
        tid = bytes.fromhex(m["tid"])
        if m["t"] == "announce":
            h = self.num.get(bytes.fromhex(m["hash"]), 0)
            if not h or m["cid"] != (b"T%07d" % k).hex():
                return self.put("ann", k=k, m=0)
            self.put("ann", k=k, m=h)
        mood = self.moods[trk.idx]
        if mood == "silent" or (mood == "connectonly" and m["t"] == "announce"):
            return
        if mood == "slow":           # the first two datagrams of every step get lost
            key = (k, addr[1], m["t"])
            self.lost[key] = self.lost.get(key, 0) + 1
            if self.lost[key] < 3:
                return
        if mood == "nonsense":
            return trk.reply(self.rnd.choice([b"", bytes(16), tid, self.rnd.randbytes(self.rnd.randrange(1, 300)), be32(0) + tid, be32(1) + tid + bytes(11), be32(2) + tid + bytes(40), be32(7) + tid]), addr)
        if mood == "refuse" or (mood == "error" and m["t"] == "announce"):
            return trk.reply(be32(3) + tid + b"torrent not registered with this tracker", addr)
        if m["t"] == "connect":
            return trk.reply(be32(0) + tid + b"T%07d" % k, addr)
        if mood == "empty":
            return trk.reply(be32(1) + tid + be32(1800) + be32(0) + be32(0), addr)
        ps = self.peers(trk.idx, h)
        self.put("list", k=k, m=h, ps=[self.id(x) for x in ps])
        trk.reply(be32(1) + tid + b"".join(map(be32, HEADS[(k + h) % len(HEADS)])) + compact(ps), addr)

    async def mood(self, i, mood):
        """Trackers that are down are not there at all: the kernel refuses."""
        if mood == "down":
            if i in self.trackers:
                self.trackers.pop(i).transport.close()
        elif i not in self.trackers:
            ip, port = self.P["trackers"][i]
            await self.add_tracker(i, ip, port)
        self.moods[i] = mood
        if mood in ("ok", "slow", "empty", "error", "connectonly"):
            # all of these get to see the announce
            self.steady.setdefault(i, self.now())
        else:
            self.steady.pop(i, None)


async def magnets(job):
    """Posts magnets while trackers change their moods; every posted magnet becomes due some time later."""
    w = Intake(job)
    P = w.P
    w.net_up()
    await w.listen()
    for port in ODD_PORTS:
        await w.listen(port, False)
    if P.get("deaf"):
        await w.listen_stall(0, DEAF_PORT)
    moods = P["moods"]
    for i in range(len(P["trackers"])):
        await w.mood(i, moods[i])
    w.start()
    if not await w.ready():
        return {"error": "the client did not start: " + repr(w.panics())}
    due, todo, posts = [], list(range(1, P["magnets"] + 1)), []

    async def post(m):
        t = w.now()
        st = await w.post(P.get("form", "magnet:?xt=urn:btih:%s") % w.hashes[m - 1].hex(), timeout=60)
        posts.append((m, st))
        w.put("posted", m=m, ok=200 <= st < 300, st=st, wait=round(w.now() - t, 2))
        asyncio.get_running_loop().call_later(P.get("due", 12), lambda: w.put("due", m=m, ks=[k + 1 for k, s in w.steady.items() if s <= t]))

    for step in P["steps"]:
        if step[0] == "post":
            ms, todo = todo[:step[1]], todo[step[1]:]
            for m in ms:
                w.put("post", m=m, ok=True)
            ts = [asyncio.create_task(post(m)) for m in ms]
            if len(step) < 3 or not step[2]:
                await asyncio.gather(*ts)
        elif step[0] == "wait":
            await asyncio.sleep(step[1])
        elif step[0] == "mood":
            await w.mood(step[1], step[2])
    n = P["magnets"] - len(todo)
    await w.until(lambda: sum(x["e"] == "due" for x in w.tr) >= n, P.get("due", 12) + 62, 0.1)

    def idle():
        last = max([e["t"] for e in w.tr if e["e"] in ("sess", "ann")] or [0])
        return w.now() - last > 5
    whole = await w.until(idle, P.get("timeout", 60), 0.2)
    alive = w.died is None
    met = {(x["p"], x["m"]) for x in w.tr if x["e"] == "sess"}
    w.put("end", live=[w.id(x) for x in w.live] if whole else [])
    w.kill()
    back = {v: k for k, v in w.ids.items()}
    unmet = [(x["k"], x["m"], back[p]) for x in w.tr if x["e"] == "list" for p in x["ps"] if back[p] in w.live and (p, x["m"]) not in met]
    lag = [e["d"] for e in w.log if e["e"] == "lag" and e["d"] > 0.3]
    res = {"ev": w.tr, "whole": whole, "lag": lag, "alive": alive, "died": w.died, "panics": w.panics(), "unmet": unmet[:20], "posts": posts, "envbug": [e for e in w.log if e["e"] == "envbug"],
           "sessions": len(w.sessions()), "span": w.log[-1]["t"], "rss_mb": w.rss_max // 256}
    await w.shutdown()
    return res


async def bodies(job):
    """Posts request bodies; a tracker lists one peer per torrent, which hangs up after the handshake."""
    w = World(job)
    P = job["params"]
    ann, sess = [], []
    eps = {}

    def track(trk, data, addr):
        m = parse_udp(data)
        tid = data[12:16]
        if m["t"] == "connect":
            trk.reply(be32(0) + tid + b"CONNECT1", addr)
        elif m["t"] == "announce":
            ann.append(m["hash"])
            n = eps.setdefault(m["hash"], len(eps))
            trk.reply(be32(1) + tid + be32(1800) + be32(0) + be32(0) + compact([("10.1.%d.%d" % (n // 250, 1 + n % 250), PEER_PORT)]), addr)

    async def peer(conn):
        sess.append((conn.hs.hex(), conn.ep))
        conn.fin()
    w.tracker_policy, w.policy = track, peer
    w.net_up()
    await w.listen()
    await w.add_tracker(0, *P["tracker"])
    w.start()
    if not await w.ready():
        return {"error": "the client did not start: " + repr(w.panics())}
    ws = [bytes.fromhex(b) for b in P["bodies"]]
    sts = [None] * len(ws)
    sem = asyncio.Semaphore(P.get("parallel", 6))

    async def one(i):
        async with sem:
            sts[i] = await w.post(ws[i], timeout=20)
    await asyncio.gather(*[one(i) for i in range(len(ws))])
    last = await w.post("magnet:?xt=urn:btih:" + "ab" * 20, timeout=20)
    good = sum(200 <= s < 300 for s in sts)

    def idle():
        return time.monotonic() - w.t0 - max([e["t"] for e in w.log if e["e"] in ("urx", "open", "posted")] or [0]) > 2.5
    await w.until(lambda: idle() and (len(set(h for h, _ in sess)) >= min(good, len(set(ann))) or time.monotonic() - w.t0 > 30), 45, 0.1)
    alive = w.died is None
    w.kill()
    wrong = [(h, e) for h, e in sess if eps.get(h) is None or "10.1.%d.%d" % (eps[h] // 250, 1 + eps[h] % 250) != e]
    res = {"sts": sts, "last": last, "ann": ann, "sess": [h for h, _ in sess], "wrong": wrong[:3], "alive": alive, "died": w.died, "panics": w.panics(), "span": w.log[-1]["t"],
           "envbug": [e for e in w.log if e["e"] == "envbug"]}
    await w.shutdown()
    return res
