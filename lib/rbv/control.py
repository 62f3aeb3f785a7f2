"""Users of the HTTP interface, of whom many do not send what adds a torrent."""
import asyncio
import random
import ssl
import time

from .intake import family
from .world import HTTP_PORT, World, be32, parse_udp

OTHER = ["10.0.0.9", "192.168.7.3", "8.8.4.4", "172.17.0.1"]
PATIENCE = 10


class Control(World):
    def __init__(self, job):
        super().__init__(job)
        self.P = job["params"]
        self.reqs = self.P["requests"]
        self.rnd = random.Random(self.P.get("seed", 0))
        self.hashes = family(b"ctl%d/" % self.P.get("seed", 0), len(self.reqs))
        self.no = {h: i + 1 for i, h in enumerate(self.hashes)}
        self.tr = []
        self.counts = {}
        self.stalled = []
        self.tracker_policy = self.track
        self.policy = self.peer

    async def peer(self, conn):
        conn.fin()

    def put(self, e, **kw):
        self.tr.append(dict({"e": e, "t": round(time.monotonic() - self.t0, 3)}, **kw))

    def track(self, trk, data, addr):
        m = parse_udp(data)
        tid = data[12:16]
        if m["t"] == "announce":
            h = self.no.get(bytes.fromhex(m["hash"]), 0)
            self.put("ann", k=trk.idx, h=h)
            self.counts[trk.idx, h] = self.counts.get((trk.idx, h), 0) + 1
        if trk.idx in self.P.get("mute", []):
            return
        if m["t"] == "connect":
            trk.reply(be32(0) + tid + b"C" * 8, addr)
        elif m["t"] == "announce":
            trk.reply(be32(1) + tid + be32(1800) + be32(0) + be32(0), addr)

    # ------------------------------------------------------------ requests
    def body(self, i, b):
        h = self.hashes[i]
        m = b"magnet:?xt=urn:btih:" + h.hex().encode() + b"&dn=x"
        return {"magnet": m, "empty": b"", "text": b"please add " + h.hex().encode(), "binary": b"\xff\xfe\x80" + h + m, "object": b'{"magnet": "' + m + b'"}', "hash": h.hex().encode()}[b]

    def bytes_of(self, r, body):
        """[(bytes, pause after them)], and what happens then: answer, leave, stay"""
        f, ver = r["f"], b"HTTP/1.1"
        ct = {"form": b"application/x-www-form-urlencoded", "json": b"application/json", "utf8": b"text/plain; charset=utf-8"}.get(f, b"text/plain")
        H = [(b"Host", b"localhost:8080"), (b"Content-Type", ct), (b"Content-Length", b"%d" % len(body))]
        if f == "notype":
            del H[1]
        if f == "http10":
            ver = b"HTTP/1.0"
        if f == "close":
            H.append((b"Connection", b"close"))
        if f == "expect":
            H.append((b"Expect", b"100-continue"))
        if f in ("chunked", "cutchunk"):
            H[-1] = (b"Transfer-Encoding", b"chunked")
        if f == "nolength":
            H.pop()
        if f == "badlength":
            H[-1] = (b"Content-Length", b"abc")
        if f in ("cut", "stall"):
            H[-1] = (b"Content-Length", b"%d" % (len(body) + 1 + self.rnd.randrange(20)))
        if f == "hugehead":
            H.append((b"X-Fill", b"x" * 300000))
        if f == "badversion":
            ver = b"HTTP/9.9"
        if f == "lower":
            H = [(k.lower(), v) for k, v in H]
        head = r["m"].encode() + b" " + r["p"].encode() + b" " + ver + b"\r\n" + b"".join(k + b": " + v + b"\r\n" for k, v in H) + b"\r\n"
        if f in ("chunked", "cutchunk"):
            n = self.rnd.randrange(1, len(body)) if len(body) > 1 else 0
            parts = [x for x in (body[:n], body[n:]) if x]
            body = b"".join(b"%x\r\n" % len(x) + x + b"\r\n" for x in parts)
            body += b"" if f == "cutchunk" else b"0\r\n\r\n"
        if f in ("cuthead", "stallhead"):
            return [(head[:-2 - self.rnd.randrange(0, 30)], 0)]
        if f == "garbage":
            return [(b"\x13BitTorrent protocol" + bytes(8) + body + b"\r\n\r\n" + body, 0)]
        if f == "expect":
            return [(head, 0.2), (body, 0)]
        if f == "split":
            d = head + body
            cuts = sorted(self.rnd.sample(range(1, len(d)), min(8, len(d) - 1)))
            return [(d[a:b], 0.02) for a, b in zip([0] + cuts, cuts + [len(d)])]
        return [(head + body, 0)]

    async def answer(self, r):
        """Status of the answer."""
        while True:
            line = await r.readline()
            if not line:
                return 0
            try:
                st = int(line.split()[1])
            except (IndexError, ValueError):
                return 0
            if st != 100:
                return st
            await r.readline()

    async def send(self, i):
        r = self.reqs[i]
        f = r["f"]
        ip = "127.0.0.1" if r["a"] == "loop" else OTHER[i % len(OTHER)]
        body = self.body(i, r["b"])
        st = -1
        try:
            if f == "keep":       # not the first one on its connection
                rd, wr = await asyncio.open_connection(ip, HTTP_PORT)
                wr.write(b"GET /nothing HTTP/1.1\r\nHost: localhost\r\n\r\n")
                n = 0
                try:
                    while True:
                        line = (await asyncio.wait_for(rd.readline(), PATIENCE)).lower()
                        if line.startswith(b"content-length:"):
                            n = int(line.split(b":")[1])
                        if line in (b"\r\n", b""):
                            break
                    await rd.readexactly(n)
                    if not line:
                        raise OSError
                except (OSError, asyncio.TimeoutError, asyncio.IncompleteReadError):
                    wr.close()
                    rd, wr = await asyncio.open_connection(ip, HTTP_PORT)
            elif f == "tls":
                self.put("req", i=i + 1, h=i + 1, r=r)
                c = ssl.create_default_context()
                c.check_hostname, c.verify_mode = False, ssl.CERT_NONE
                try:
                    rd, wr = await asyncio.wait_for(asyncio.open_connection(ip, HTTP_PORT, ssl=c), 3)
                    wr.close()
                except (OSError, asyncio.TimeoutError):
                    pass
                self.put("ans", i=i + 1, st=0)
                return
            else:
                rd, wr = await asyncio.open_connection(ip, HTTP_PORT)
            self.put("req", i=i + 1, h=i + 1, r=r)
            for d, p in self.bytes_of(r, body):
                wr.write(d)
                await wr.drain()
                if p:
                    await asyncio.sleep(p)
            if f in ("cut", "cuthead", "cutchunk"):
                await asyncio.sleep(self.rnd.choice([0, 0.05]))
                wr.close()
                self.put("ans", i=i + 1, st=0)
                return
            if f in ("stall", "stallhead"):
                self.stalled.append((rd, wr))
                return
            st = await asyncio.wait_for(self.answer(rd), PATIENCE)
            wr.close()
        except asyncio.TimeoutError:
            st = -2
        except OSError:
            st = -1 if not any(e["e"] == "req" and e["i"] == i + 1 for e in self.tr) else 0
        if not any(e["e"] == "req" and e["i"] == i + 1 for e in self.tr):
            self.put("req", i=i + 1, h=i + 1, r=r)
        self.put("ans", i=i + 1, st=st)

    async def hog(self, kind, ip="127.0.0.1"):
        """Takes up a connection for good."""
        try:
            rd, wr = await asyncio.open_connection(ip, HTTP_PORT)
            self.stalled.append((rd, wr))
            if kind == "head":
                wr.write(b"POST /add/magnet HTTP/1.1\r\nHost: localhost\r\n")
            elif kind == "body":
                wr.write(b"POST /add/magnet HTTP/1.1\r\nHost: localhost\r\nContent-Length: 100\r\n\r\nmagnet:?xt=urn:btih:")
            elif kind == "drip":
                wr.write(b"POST /add/magnet HTTP/1.1\r\nHost: localhost\r\nContent-Length: 100000\r\n\r\n")
                while True:
                    wr.write(b"m")
                    await wr.drain()
                    await asyncio.sleep(0.3)
            elif kind == "dripchunk":
                wr.write(b"POST /add/magnet HTTP/1.1\r\nHost: localhost\r\nTransfer-Encoding: chunked\r\n\r\n")
                while True:
                    wr.write(b"1\r\nm\r\n")
                    await wr.drain()
                    await asyncio.sleep(0.3)
            elif kind == "flood":        # a body without end
                wr.write(b"POST /add/magnet HTTP/1.1\r\nHost: localhost\r\nContent-Length: 100000000000\r\n\r\n")
                while True:
                    wr.write(b"m" * 65536)
                    await wr.drain()
                    await asyncio.sleep(0.002)
            elif kind == "floodhead":
                wr.write(b"POST /add/magnet HTTP/1.1\r\nHost: localhost\r\n")
                n = 0
                while True:
                    n += 1
                    wr.write(b"X-%d: %s\r\n" % (n, b"y" * 1000))
                    await wr.drain()
                    await asyncio.sleep(0.002)
            elif kind == "floodchunk":
                wr.write(b"POST /add/magnet HTTP/1.1\r\nHost: localhost\r\nTransfer-Encoding: chunked\r\n\r\n")
                while True:
                    wr.write(b"10000\r\n" + b"m" * 65536 + b"\r\n")
                    await wr.drain()
                    await asyncio.sleep(0.002)
            elif kind == "deafpipe":     # asks and asks, and never reads
                while True:
                    wr.write(b"GET / HTTP/1.1\r\nHost: localhost\r\n\r\n" * 100)
                    await wr.drain()
                    await asyncio.sleep(0.002)
        except OSError:
            pass


async def users(job):
    w = Control(job)
    P = w.P
    w.net_up()
    await w.listen()
    for i, (ip, port) in enumerate(P["trackers"]):
        await w.add_tracker(i, ip, port)
    w.start()
    if not await w.ready():
        return {"error": "the client did not start: " + repr(w.panics())}
    hogs = [asyncio.create_task(w.hog(k)) for k in P.get("hogs", [])]
    if hogs:
        await asyncio.sleep(P.get("hogwait", 0.5))
    q = list(range(len(w.reqs)))
    w.rnd.shuffle(q)
    gate = asyncio.Semaphore(P.get("at_once", 8))

    async def one(i):
        async with gate:
            await w.send(i)
    tasks = [asyncio.create_task(one(i)) for i in q]
    done, _ = await asyncio.wait(tasks, timeout=P.get("timeout", 90))
    for t in done:
        if t.exception():
            w.ev("envbug", what=repr(t.exception()))
    adds = [i + 1 for i, r in enumerate(w.reqs) if r["adds"]]
    ks = [k for k in range(len(P["trackers"])) if k not in P.get("mute", [])]
    await w.until(lambda: all((k, h) in w.counts for k in ks for h in adds), 20, 0.05)
    await asyncio.sleep(P.get("extra", 1.5))
    lag = [e["d"] for e in w.log if e["e"] == "lag" and e["d"] > 0.3]
    w.put("end", ks=ks, exact=not lag and not P.get("mute"), counts=[{"h": h, "n": w.counts.get((k, h), 0)} for k in ks for h in range(1, len(w.reqs) + 1)])
    alive = w.died is None
    open_ = sum(1 for t in hogs if not t.done())
    w.kill()
    for t in hogs + tasks:
        t.cancel()
    tree = sorted(f for f in w.tree() if f != "test.log")
    out = {"ev": [{k: v for k, v in e.items() if k != "t"} for e in w.tr], "span": w.tr[-1]["t"], "slowest": max([0] + w.took()), "alive": alive, "panics": w.panics(), "died": w.died, "rss_mb": w.rss_max // 256,
           "files": tree, "hogs": open_, "lag": lag, "envbug": [e for e in w.log if e["e"] == "envbug"], "runaway": any(e["e"] == "runaway" for e in w.log)}
    for e in out["ev"]:
        if "r" in e:
            e["r"] = {k: e["r"][k] for k in "ampfb"}
    await w.shutdown()
    return out


def took(self):
    at = {e["i"]: e["t"] for e in self.tr if e["e"] == "req"}
    return [e["t"] - at[e["i"]] for e in self.tr if e["e"] == "ans" and e["st"] > 0]


Control.took = took
