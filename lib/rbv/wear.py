"""What the client holds open while it is used, and after."""
import asyncio
import os
import random
from urllib.parse import quote

from .swarm import Swarm, result
from .world import HTTP_PORT, PEER_PORT, be32, compact, parse_udp

IDLE = 12.0        # no session or probe lasts longer without anything happening
EXCHANGE = 10.0    # an exchange is given up by then
FAIR = 1.0         # what we see and what we count may be that much apart


class Wear(Swarm):
    def __init__(self, job):
        super().__init__(job)
        self.rnd = random.Random(self.P.get("seed", 0))
        self.exch = {}         # (tracker, port) -> [begin, answered]
        self.users = []        # [begin, closed]
        self.looks = []
        self.adds = []

    def now(self):
        t = self.ev("now")["t"]
        self.log.pop()
        return t

    def track(self, trk, data, addr):
        m = parse_udp(data)
        x = self.exch.setdefault((trk.idx, addr[1]), [self.now(), None])
        mode = self.P.get("modes", {}).get(str(trk.idx), "good")
        tid = data[12:16]
        if mode == "silent" or mode == "mute" and m["t"] == "announce":
            return
        if mode == "garbage":
            for d in (b"", b"x" * 7, be32(9) + tid + b"y" * 30, be32(0) + b"zzzz" + b"C" * 8, be32(3) + tid + b"no"):
                trk.reply(d, addr)
            return
        if mode == "short" and m["t"] == "announce":
            trk.reply(be32(1) + tid + be32(1800), addr)
            return
        if m["t"] == "connect":
            trk.reply(be32(0) + tid + b"CONN%04d" % trk.idx, addr)
        elif m["t"] == "announce":
            ts = self.byhash.get(bytes.fromhex(m["hash"]))
            if ts is None:
                return
            eps = self.endpoints(ts, trk.idx)
            d = be32(1) + tid + be32(1800) + be32(0) + be32(len(eps)) + compact(eps) + (b"xyz" if mode == "tail" else b"")
            trk.reply(d, addr)
            x[1] = self.now()
            if mode == "twice":
                trk.reply(d, addr)

    # ------------------------------------------------------------ what it holds
    def look(self, quiet=False):
        pid = self.proc.pid
        tcp, udp = {}, set()
        try:
            with open("/proc/%d/net/tcp" % pid) as f:
                for l in f.read().splitlines()[1:]:
                    p = l.split()
                    tcp[p[9]] = (int(p[1].split(":")[1], 16), int(p[3], 16))
            with open("/proc/%d/net/udp" % pid) as f:
                udp = {l.split()[9] for l in f.read().splitlines()[1:]}
            with open("/proc/%d/net/unix" % pid) as f:
                unix = {l.split()[6] for l in f.read().splitlines()[1:]}
            n = {"peer": 0, "tracker": 0, "user": 0}
            files = []
            for fd in os.listdir("/proc/%d/fd" % pid):
                try:
                    to = os.readlink("/proc/%d/fd/%s" % (pid, fd))
                except OSError:
                    continue
                if to.startswith("socket:["):
                    i = to[8:-1]
                    if i in udp:
                        n["tracker"] += 1
                    elif i in tcp:
                        port, st = tcp[i]
                        if st == 10 or st == 2 and not quiet:       # listening; not yet connected
                            continue
                        n["user" if port == HTTP_PORT else "peer"] += 1
                    elif quiet and i not in unix:      # in no table: no longer connected, and not closed either
                        n["peer"] += 1
                elif int(fd) > 2 and to.startswith(self.cwd) and os.path.basename(to.replace(" (deleted)", "")) != "test.log":
                    files.append(os.path.relpath(to, self.cwd))
            threads = len(os.listdir("/proc/%d/task" % pid))
            with open("/proc/%d/statm" % pid) as f:
                mb = int(f.read().split()[1]) // 256
        except OSError:
            return None
        e = {"t": self.now(), "held": n, "files": files, "threads": threads, "mb": mb, "quiet": quiet, "nfd": len(os.listdir("/proc/%d/fd" % pid))}
        self.looks.append(e)
        return e

    async def post(self, *a, **kw):
        u = [self.now(), None]
        self.users.append(u)
        st = await super().post(*a, **kw)
        u[1] = self.now()
        return st

    async def user(self, kind):
        u = [self.now(), None]
        self.users.append(u)
        try:
            rd, wr = await asyncio.open_connection("127.0.0.1", HTTP_PORT)
            L = b"POST /add/magnet HTTP/1.1\r\nHost: localhost\r\n"
            d = {"get": b"GET / HTTP/1.1\r\nHost: localhost\r\n\r\n", "cut": L + b"Content-Length: 50\r\n\r\nmag", "head": L, "junk": b"\0\1\2\3\r\n\r\n",
                 "text": L + b"Content-Length: 5\r\n\r\nhello", "none": b"", "chunk": L + b"Transfer-Encoding: chunked\r\n\r\n5\r\nhel",
                 "keep": b"GET / HTTP/1.1\r\nHost: localhost\r\n\r\n" * 3}[kind]
            if d:
                wr.write(d)
                await wr.drain()
            await asyncio.sleep(self.rnd.choice([0.05, 0.3, 1]))
            wr.close()
        except OSError:
            pass
        u[1] = self.now()

    def trace(self):
        ev = [(t, 1, {"e": "add"}) for t in self.adds]
        last, beg, end, n = {}, {}, {}, {}
        for e in self.log:
            if "c" in e:
                beg.setdefault(e["c"], e["t"])
                if e["e"] != "eof":
                    last[e["c"]] = e["t"]
                else:
                    end[e["c"]] = e["t"]
        late = sum(e["d"] for e in self.log if e["e"] == "lag" and e["d"] > 0.3)
        fair = FAIR + late

        def use(k, i, b, x):
            ev.append((b - fair, 0, {"e": "beg", "k": k, "i": i}))
            if x is not None:
                ev.append((x + fair, 2, {"e": "end", "k": k, "i": i}))
        for c in beg:
            use("peer", c, beg[c], min(end.get(c, 1e9), last.get(c, beg[c]) + IDLE))
        for i, (b, x) in enumerate(self.exch.values()):
            use("tracker", i, b, min(x or 1e9, b + EXCHANGE))
        for i, (b, x) in enumerate(self.users):
            use("user", i, b, None if x is None else x + 2)
        for q in self.looks:
            ev.append((q["t"], 1, dict({k: q[k] for k in ("held", "threads", "quiet", "mb", "nfd")}, e="look", files=len(q["files"]), names=q["files"][:4], t=q["t"])))
        ev.sort(key=lambda x: x[:2])
        return [x[2] for x in ev]


async def wear(job):
    w = Wear(job)
    P = w.P
    w.net_up()
    await w.listen()
    for i, (ip, port) in enumerate(P["trackers"]):
        if P.get("modes", {}).get(str(i)) != "down":
            await w.add_tracker(i, ip, port)
    if P.get("deaf"):
        await w.listen_stall(0, 7998)
    for x, t in zip(w.ts, P["torrents"]):
        if t.get("junk_copy"):       # saved metadata that cannot be read
            os.makedirs(os.path.join(w.cwd, "downloads"), exist_ok=True)
            with open(os.path.join(w.cwd, "downloads", quote(x.t.info_hash, safe="")), "wb") as f:
                f.write(t["junk_copy"].encode("latin-1"))
        if t.get("in_the_way"):      # files that cannot be written
            for rel, _ in x.t.expected_files():
                os.makedirs(os.path.join(w.cwd, rel))
    w.start()
    if not await w.ready():
        return {"error": "the client did not start: " + repr(w.panics())}
    await asyncio.sleep(1.5)
    base = w.look()
    w.looks.clear()
    every = P.get("modes", {})
    blind = any(m == "down" for m in every.values())

    async def watch():
        while True:
            e = w.look()
            if e and blind:          # exchanges that we do not see
                e["held"].pop("tracker")
            await asyncio.sleep(0.15)
    wt = asyncio.create_task(watch())
    w.tasks.append(wt)
    us = []
    for wave in P["waves"]:
        for i in wave.get("post", []):
            w.adds.append(w.now())
            st = await w.post(w.ts[i].t.magnet("&dn=x"))
            await asyncio.sleep(wave.get("gap", 0.02))
        for k in wave.get("users", []):
            us.append(asyncio.create_task(w.user(k)))
        await asyncio.sleep(wave.get("wait", 0.5))

    def complete(x):
        if P["torrents"][x.idx].get("doomed"):
            return True
        for rel, exp in x.t.expected_files():
            try:
                with open(os.path.join(w.cwd, rel), "rb") as f:
                    if f.read() != exp:
                        return False
            except OSError:
                return False
        return True
    reached = await w.until(lambda: all(complete(x) for x in w.ts), P.get("timeout", 60), 0.3)
    await asyncio.wait(us, timeout=10) if us else None
    # nothing is in progress any more

    def busy():
        n = w.now()
        if any(n - b < EXCHANGE + 2 and not x for b, x in w.exch.values()):
            return True
        last = max([0] + [e["t"] for e in w.log if e["e"] not in ("lag", "eof")])
        return n - last < IDLE + 1.5
    await w.until(lambda: not busy(), 100, 0.1)
    wt.cancel()
    await asyncio.sleep(0)
    fin = w.look(quiet=True)
    alive = w.died is None
    w.ev("end")
    w.kill()
    res = result(w)
    out = {"ev": w.trace(), "base": base["threads"] + 2, "nfd": base["nfd"] + 4, "mb": base["mb"], "start": base, "final": fin, "died": w.died, "alive": alive, "panics": res["panics"], "reached": reached,
           "peak": {k: max(q["held"].get(k, 0) for q in w.looks) for k in base["held"]}, "threads": max(q["threads"] for q in w.looks), "span": w.log[-1]["t"], "rss_mb": res["rss_mb"],
           "sessions": sum(c.kind in ("meta", "piece") for c in w.conns.values()), "conns": len(w.conns), "exchanges": len(w.exch), "envbug": res["envbug"], "torrents": len(w.adds)}
    await w.shutdown()
    return out
