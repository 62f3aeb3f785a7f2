"""The environment of one rust_bit process: every tracker, every peer, the HTTP user, the file
system.  Runs inside a private network namespace (see sandbox.py), as an unprivileged user, in a
scratch directory.  Everything observed is appended to World.log as one totally ordered event
list: the trace that TLC validates."""
import asyncio
import errno
import hashlib
import os
import re
import resource
import signal
import socket
import struct
import subprocess
import time

PEER_PORT = 7001
DEAD_PORT = 7999          # nothing listens here
STALL_PORT = 7997         # answers the reachability probe; later connections get no answer at all
DEAF_PORT = 7998          # no connection ever gets an answer
HTTP_PORT = 8080


def be32(n):
    return struct.pack(">I", n & 0xFFFFFFFF)


def frame(mid, body=b""):
    return be32(1 + len(body)) + bytes([mid]) + body


class Closed(Exception):
    pass


class Conn:
    """One TCP connection accepted by a scripted peer."""

    def __init__(self, world, cid, sock, ep):
        self.w, self.cid, self.sock, self.ep = world, cid, sock, ep
        self.buf = b""
        self.q = asyncio.Queue()
        self.eof = False
        self.closed = False
        self.t_open = time.monotonic()
        self.t_eof = None
        self.t_last_tx = self.t_open
        self.nrx = 0
        self.piece = None          # revealed by the first block request
        self.served = set()        # block offsets answered with correct data
        self.kind = "probe"        # probe | meta | piece
        self.hs = None
        self.served_all = False
        self.was_rst = False
        self.task = None
        self.rtask = None

    def log(self, e, **kw):
        return self.w.ev(e, c=self.cid, **kw)

    async def _pump(self):
        loop = asyncio.get_running_loop()
        try:
            while True:
                try:
                    d = await loop.sock_recv(self.sock, 65536)
                except OSError:
                    d = b""
                if not d:
                    break
                self.buf += d
                self._parse()
        finally:
            self.eof = True
            self.t_eof = time.monotonic()
            if self.buf:
                self.log("rx", m={"t": "partial", "raw": self.buf[:80].hex(), "n": len(self.buf)})
            if not self.was_rst:
                self.log("eof", idle=round(self.t_eof - self.t_last_tx, 3))
            self.q.put_nowait(None)

    def _parse(self):
        while True:
            b = self.buf
            if self.nrx == 0:
                if len(b) < 68:
                    return
                m = {"t": "hs", "pstr": b[:20] == b"\x13BitTorrent protocol", "res": b[20:28].hex(),
                     "hash": b[28:48].hex(), "pid": b[48:68].hex(), "len": 68}
                self.hs = b[28:48]
                self.buf = b[68:]
            else:
                if len(b) < 4:
                    return
                n = struct.unpack(">I", b[:4])[0]
                if n > 1 << 20:
                    m = {"t": "badframe", "n": n, "raw": b[:80].hex()}
                    self.buf = b""
                elif len(b) < 4 + n:
                    return
                else:
                    m = self._decode(b[4:4 + n])
                    self.buf = b[4 + n:]
            self.nrx += 1
            self.log("rx", m=m)
            self.q.put_nowait(m)

    def _decode(self, p):
        from .torrent import bdec, benc
        if not p:
            return {"t": "keepalive"}
        i, body = p[0], p[1:]
        if i in (6,) and len(body) == 12:
            a, o, n = struct.unpack(">III", body)
            return {"t": "req", "p": a, "o": o, "n": n}
        if i == 2 and not body:
            return {"t": "interested"}
        if i == 20 and body:
            try:
                v, j = bdec(body[1:])
            except Exception:
                return {"t": "ext", "x": body[0], "bad": True, "raw": body[:60].hex()}
            canon = benc(v) == body[1:1 + j]
            if body[0] == 0:
                mm = v.get(b"m", {}) if isinstance(v, dict) else {}
                return {"t": "exths", "ut": mm.get(b"ut_metadata", -1), "rest": len(body) - 1 - j, "canon": canon}
            if isinstance(v, dict) and v.get(b"msg_type") == 0:
                return {"t": "mreq", "x": body[0], "p": v.get(b"piece", -1), "rest": len(body) - 1 - j, "canon": canon}
            return {"t": "ext", "x": body[0], "bad": False, "raw": body[:60].hex()}
        return {"t": "other", "id": i, "n": len(body), "raw": body[:40].hex()}

    async def recv(self, timeout=None):
        """Next client message, None at EOF, or 'timeout'."""
        try:
            return await asyncio.wait_for(self.q.get(), timeout)
        except asyncio.TimeoutError:
            return "timeout"

    async def send(self, data, note=None, log=True):
        if log and note is not None:
            self.log("tx", m=note)
        try:
            await asyncio.get_running_loop().sock_sendall(self.sock, data)
            self.t_last_tx = time.monotonic()
            return True
        except OSError:
            return False

    async def send_chunks(self, data, cuts, gap, note=None):
        """Send `data` split at the offsets in `cuts`, sleeping `gap` seconds in between."""
        if note is not None:
            self.log("tx", m=note)
        last = 0
        for c in list(cuts) + [len(data)]:
            if c > last:
                if last:
                    await asyncio.sleep(gap)
                await self.send(data[last:c])
                last = c

    def close(self):
        """Really close our end (after the client's EOF, or when nothing more is to be learnt)."""
        if not self.closed:
            self.closed = True
            try:
                self.sock.close()
            except OSError:
                pass

    def fin(self):
        """The peer disconnects: FIN; we keep listening for the client's own close."""
        self.log("pclose", how="fin")
        try:
            self.sock.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def rst(self):
        """The peer's connection breaks: RST, the client's close can no longer be seen."""
        self.log("pclose", how="rst")
        try:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        self.was_rst = True
        self.eof = True
        self.t_eof = time.monotonic()
        if self.rtask:
            self.rtask.cancel()
        self.closed = True
        self.sock.close()


class UdpTracker(asyncio.DatagramProtocol):
    def __init__(self, world, idx, addr):
        self.w, self.idx, self.addr = world, idx, addr
        self.n = 0

    def connection_made(self, transport):
        self.transport = transport

    def datagram_received(self, data, addr):
        self.n += 1
        self.w.on_udp(self, data, addr)

    def reply(self, data, addr, note=None):
        if note is not None:
            self.w.ev("utx", k=self.idx, m=note)
        self.transport.sendto(data, addr)


class World:
    def __init__(self, job):
        self.job = job
        self.dir = job["dir"]
        self.cwd = os.path.join(self.dir, "a", "b", "c", "cwd")
        os.makedirs(self.cwd, exist_ok=True)
        self.log = []
        self.t0 = time.monotonic()
        self.ncid = 0
        self.conns = {}
        self.trackers = {}
        self.tracker_policy = lambda trk, data, addr: None
        self.policy = None       # async def policy(conn)
        self.proc = None
        self.rss_max = 0
        self.died = None
        self.tasks = []

    def ev(self, e, **kw):
        d = {"e": e, "t": round(time.monotonic() - self.t0, 4)}
        d.update(kw)
        self.log.append(d)
        return d

    # ------------------------------------------------------------ network
    def net_up(self):
        subprocess.run(["ip", "link", "set", "lo", "up"], check=True)
        if self.job.get("anyip", True):
            self.anyip()

    def anyip(self):
        subprocess.run(["ip", "route", "add", "local", "0.0.0.0/0", "dev", "lo"], check=True)

    async def _heartbeat(self):
        """When we ourselves are late, silence of ours must not be held against the client."""
        last = time.monotonic()
        while True:
            await asyncio.sleep(0.01)
            now = time.monotonic()
            if now - last > 0.05:
                self.ev("lag", d=round(now - last, 3))
            last = now

    async def listen(self, port=PEER_PORT, first=True):
        if first:
            self.tasks.append(asyncio.create_task(self._heartbeat()))
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("0.0.0.0", port))
        s.listen(4096)
        s.setblocking(False)
        self.lsock = s
        self.tasks.append(asyncio.create_task(self._accept(s)))

    async def _accept(self, s):
        loop = asyncio.get_running_loop()
        while True:
            c, _ = await loop.sock_accept(s)
            c.setblocking(False)
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            ip, port = c.getsockname()
            self.ncid += 1
            conn = Conn(self, self.ncid, c, ip)
            conn.port = port
            self.conns[conn.cid] = conn
            conn.task = asyncio.create_task(self._serve(conn))

    async def _serve(self, conn):
        # Events that causally precede this connection (the close of an earlier one) are already
        # in our socket queues: let the loop drain them first.
        await asyncio.sleep(0.002)
        await asyncio.sleep(0)
        conn.log("open", ep=conn.ep, **({} if conn.port == PEER_PORT else {"port": conn.port}))
        conn.rtask = asyncio.create_task(conn._pump())
        try:
            m = await conn.recv()
            if m is None:
                conn.close()
                return
            if m["t"] == "hs":
                conn.kind = "session"
            conn.first = m
            await self.policy(conn)
        except Closed:
            pass
        except Exception as ex:      # a bug of ours: report, never hide
            import traceback
            self.ev("envbug", what=repr(ex), tb=traceback.format_exc())
        # after the script: drain until EOF
        if not conn.closed:
            while not conn.eof:
                await asyncio.sleep(0.01)
            conn.close()

    async def listen_dead(self, n, port=DEAD_PORT):
        """Endpoints that answer the reachability probe and refuse every later connection: the
        listener goes away after n connections."""
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("0.0.0.0", port))
        s.listen(4096)
        s.setblocking(False)

        async def run():
            loop = asyncio.get_running_loop()
            for _ in range(n):
                c, _ = await loop.sock_accept(s)
                self.ev("dprobe", ep=c.getsockname()[0])
                c.close()
            s.close()
        self.tasks.append(asyncio.create_task(run()))

    async def listen_stall(self, n, port=STALL_PORT):
        """After n connections the queue of the listener is full for good: the kernel drops what comes."""
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("0.0.0.0", port))
        s.listen(4096 if n else 0)
        s.setblocking(False)
        self.kept = getattr(self, "kept", []) + [s]

        async def fill():
            s.listen(0)
            for _ in range(8):
                c = socket.socket()
                c.setblocking(False)
                c.connect_ex(("127.0.0.1", port))
                self.kept.append(c)
            await asyncio.sleep(0.02)

        async def run():
            loop = asyncio.get_running_loop()
            for _ in range(n):
                c, _ = await loop.sock_accept(s)
                self.ev("dprobe", ep=c.getsockname()[0])
                c.close()
            await fill()
        if n:
            self.tasks.append(asyncio.create_task(run()))
        else:
            await fill()

    async def add_tracker(self, idx, ip, port):
        loop = asyncio.get_running_loop()
        _, p = await loop.create_datagram_endpoint(lambda: UdpTracker(self, idx, (ip, port)),
                                                   local_addr=(ip, port))
        self.trackers[idx] = p
        return p

    def on_udp(self, trk, data, addr):
        m = parse_udp(data)
        self.ev("urx", k=trk.idx, m=m, port=addr[1])
        self.tracker_policy(trk, data, addr)

    # ------------------------------------------------------------ process
    def start(self, env=None):
        lim = self.job.get("rlimits", {})

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            for k, v in lim.items():
                resource.setrlimit(getattr(resource, k), (v, v))
        e = {"PATH": "/usr/bin:/bin", "HOME": self.cwd, "RUST_BACKTRACE": "0"}
        if "RLIMIT_AS" in lim:       # many arenas take up address space without using it
            e["MALLOC_ARENA_MAX"] = "2"
        e.update(env or {})
        self.errf = open(os.path.join(self.dir, "stderr.txt"), "ab")
        for k in range(20):
            try:
                self.proc = subprocess.Popen([self.job["bin"]], cwd=self.cwd, env=e, stdin=subprocess.DEVNULL,
                                             stdout=subprocess.DEVNULL, stderr=self.errf, preexec_fn=pre)
                break
            except OSError as x:
                if x.errno != errno.ETXTBSY or k == 19:
                    raise
                time.sleep(0.1)
        self.died = None
        self.ev("start", pid=0)
        self.tasks.append(asyncio.create_task(self._watch(self.proc)))

    async def _watch(self, proc):
        limit = self.job.get("rss_limit_mb", 1500) * 256
        while True:
            rc = proc.poll()
            if rc is not None:
                if self.proc is proc and self.died is None:
                    self.died = rc
                    self.ev("died", rc=rc)
                return
            try:
                with open("/proc/%d/statm" % proc.pid) as f:
                    rss = int(f.read().split()[1])
                self.rss_max = max(self.rss_max, rss)
                if rss > limit:
                    self.ev("runaway", rss_mb=rss // 256)
                    proc.kill()
            except OSError:
                pass
            await asyncio.sleep(0.02)

    def kill(self):
        if self.proc and self.proc.poll() is None:
            self.died = "killed"
            self.ev("kill")
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()

    async def ready(self, timeout=20):
        """Wait until the HTTP API accepts connections."""
        t = time.monotonic()
        while time.monotonic() - t < timeout:
            if self.proc.poll() is not None:
                return False
            try:
                r, w = await asyncio.open_connection("127.0.0.1", HTTP_PORT)
                w.close()
                return True
            except OSError:
                await asyncio.sleep(0.01)
        return False

    async def post(self, body, path="/add/magnet", timeout=20, method="POST"):
        """HTTP status code, 0 if the server dropped the connection without a response, or -1."""
        if isinstance(body, str):
            body = body.encode()
        n = self.ev("post", n=len(body))
        try:
            r, w = await asyncio.open_connection("127.0.0.1", HTTP_PORT)
            w.write(("%s %s HTTP/1.1\r\nHost: localhost\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n"
                     "Connection: close\r\n\r\n" % (method, path, len(body))).encode() + body)
            await w.drain()
            line = await asyncio.wait_for(r.readline(), timeout)
            w.close()
            st = int(line.split()[1]) if line else 0
        except asyncio.TimeoutError:
            st = -2
        except (OSError, IndexError, ValueError):
            st = -1
        self.ev("posted", st=st)
        return st

    # ------------------------------------------------------------ observation
    def sessions(self):
        return [c for c in self.conns.values() if c.kind in ("session", "meta", "piece")]

    def open_sessions(self):
        return [c for c in self.sessions() if not c.eof]

    async def until(self, pred, timeout, step=0.01):
        t = time.monotonic()
        while time.monotonic() - t < timeout:
            if pred():
                return True
            if self.died is not None:
                return pred()
            await asyncio.sleep(step)
        return pred()

    async def quiesce(self, quiet=1.0, timeout=30):
        """No open session and no event for `quiet` seconds."""
        t = time.monotonic()
        while time.monotonic() - t < timeout:
            last = self.log[-1]["t"] if self.log else 0
            if not self.open_sessions() and (time.monotonic() - self.t0) - last >= quiet:
                return True
            if self.died is not None:
                return True
            await asyncio.sleep(0.02)
        return False

    def tree(self, root=None):
        """{relative path: bytes} of everything under root, except the log and the metadata cache."""
        root = root or self.cwd
        out = {}
        for d, _, fs in os.walk(root):
            for f in fs:
                p = os.path.join(d, f)
                if not os.path.isfile(p):
                    continue
                with open(p, "rb") as h:
                    out[os.path.relpath(p, root)] = h.read()
        return out

    def panics(self):
        try:
            with open(os.path.join(self.dir, "stderr.txt"), errors="replace") as f:
                return [l.strip() for l in f if "panicked at" in l or "overflowed its stack" in l
                        or "memory allocation" in l]
        except OSError:
            return []

    async def shutdown(self):
        self.kill()
        for t in self.tasks:
            t.cancel()
        for c in self.conns.values():
            for t in (c.task, c.rtask):
                if t:
                    t.cancel()


def parse_udp(d):
    if len(d) == 16 and d[:8] == bytes.fromhex("0000041727101980") and d[8:12] == bytes(4):
        return {"t": "connect", "tid": d[12:16].hex()}
    if len(d) == 98 and d[8:12] == be32(1):
        return {"t": "announce", "cid": d[:8].hex(), "tid": d[12:16].hex(), "hash": d[16:36].hex(),
                "pid": d[36:56].hex(), "rest": d[56:].hex()}
    return {"t": "bad", "n": len(d), "raw": d[:120].hex()}


def compact(eps):
    return b"".join(socket.inet_aton(ip) + struct.pack(">H", port) for ip, port in eps)
