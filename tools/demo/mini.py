"""A small BitTorrent world around /repo's rust_bit, for demonstrations: trackers, peers, the HTTP user.

Everything runs as an unprivileged user (when started as root) in a user and network namespace of its own, in a scratch directory
that is removed at the end.  Usage:  mini.run(main)  with  def main(w): ... return problem or None."""
import hashlib
import os
import queue
import random
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import threading
import time

TRACKERS = [("93.158.213.92", 1337), ("102.223.180.235", 6969), ("23.134.88.6", 1337), ("193.189.100.187", 6969), ("185.243.218.213", 80),
            ("91.216.110.52", 451), ("208.83.20.20", 6969), ("23.157.120.14", 6969), ("156.234.201.18", 80), ("185.102.219.163", 6969),
            ("185.50.159.149", 6969), ("209.141.59.16", 6969), ("38.7.201.142", 6969), ("73.170.204.100", 6969), ("176.31.250.174", 6969),
            ("82.156.24.219", 6969), ("83.102.180.21", 80), ("185.230.4.150", 1337)]
PORT = 7001
BLK = 16384


def be(n):
    return struct.pack(">I", n)


def benc(v):
    if isinstance(v, int):
        return b"i%de" % v
    if isinstance(v, str):
        v = v.encode()
    if isinstance(v, bytes):
        return b"%d:" % len(v) + v
    if isinstance(v, (list, tuple)):
        return b"l" + b"".join(map(benc, v)) + b"e"
    return b"d" + b"".join(benc(k) + benc(x) for k, x in sorted((k.encode() if isinstance(k, str) else k, x) for k, x in v.items())) + b"e"


def bdec(b, i=0):
    c = b[i:i + 1]
    if c == b"i":
        j = b.index(b"e", i)
        return int(b[i + 1:j]), j + 1
    if c in (b"l", b"d"):
        i += 1
        out = []
        while b[i:i + 1] != b"e":
            v, i = bdec(b, i)
            out.append(v)
        return (out if c == b"l" else dict(zip(out[::2], out[1::2]))), i + 1
    j = b.index(b":", i)
    n = int(b[i:j])
    return b[j + 1:j + 1 + n], j + 1 + n


def msg(i, body=b""):
    return be(1 + len(body)) + bytes([i]) + body


class Torrent:
    def __init__(self, name="data.bin", size=1000, pl=64, files=None, seed=1, **extra):
        self.files = files or [([name], size)]
        self.pl = pl
        self.data = random.Random(seed).randbytes(sum(n for _, n in self.files))
        self.np = (len(self.data) + pl - 1) // pl
        info = {"name": name, "piece length": pl, "pieces": b"".join(hashlib.sha1(self.piece(i)).digest() for i in range(self.np))}
        if files:
            info["files"] = [{"length": n, "path": list(p)} for p, n in files]
        else:
            info["length"] = size
        info.update(extra)
        self.info = benc(info)
        self.hash = hashlib.sha1(self.info).digest()

    def piece(self, i):
        return self.data[i * self.pl:(i + 1) * self.pl]

    def magnet(self):
        return "magnet:?xt=urn:btih:%s&dn=x" % self.hash.hex()

    def wanted(self):
        out, o = {}, 0
        for p, n in self.files:
            out["/".join(p)] = self.data[o:o + n]
            o += n
        return out


class Conn:
    """A peer's end of a connection of the client."""

    def __init__(self, w, s):
        self.w, self.s, self.ep = w, s, s.getsockname()[0]
        self.buf = b""
        self.reqs = []          # (piece, offset, length) asked for
        self.mreqs = []         # metadata pieces asked for
        self.t = None

    def take(self, n, timeout=30):
        self.s.settimeout(timeout)
        while len(self.buf) < n:
            try:
                d = self.s.recv(65536)
            except OSError:
                return None
            if not d:
                return None
            self.buf += d
        d, self.buf = self.buf[:n], self.buf[n:]
        return d

    def recv(self, timeout=30):
        """("req", p, o, n), ("mreq", p), (id, body) or None when the client is gone (or silent for that long)."""
        h = self.take(4, timeout)
        if h is None:
            return None
        n = struct.unpack(">I", h)[0]
        b = self.take(n, timeout) if n else b""
        if not b:
            return None if b is None else ("ka",)
        if b[0] == 6 and n == 13:
            r = struct.unpack(">III", b[1:])
            self.reqs.append(r)
            self.w.reqs.append((self.ep, self.hs, r))
            return ("req",) + r
        if b[0] == 20 and b[1] != 0:
            d, _ = bdec(b[2:])
            if d.get(b"msg_type") == 0:
                self.mreqs.append(d[b"piece"])
                self.w.mreqs.append((self.ep, self.hs, d[b"piece"]))
                return ("mreq", d[b"piece"])
        return (b[0], b[1:])

    def send(self, data):
        try:
            self.s.sendall(data)
            return True
        except OSError:
            return False

    def close(self):
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()

    # an honest peer, unless told otherwise
    def hello(self, hash=None):
        self.send(b"\x13BitTorrent protocol" + bytes(8) + (hash or self.hs) + b"-XX0000-123456789012")

    def ext(self, size=None, ut=3):
        self.send(msg(20, b"\0" + benc({"m": {"ut_metadata": ut}, "metadata_size": len(self.t.info) if size is None else size})))

    def unchoke(self):
        self.send(msg(1))

    def block(self, p, o, n, data=None):
        a = p * self.t.pl + o
        self.send(msg(7, be(p) + be(o) + (self.t.data[a:a + n] if data is None else data)))

    def meta(self, p, data=None):
        d = self.t.info[p * BLK:(p + 1) * BLK] if data is None else data
        self.send(msg(20, bytes([1]) + benc({"msg_type": 1, "piece": p, "total_size": len(self.t.info)}) + d))

    def serve(self, onreq=None):
        """Answer everything honestly; onreq(c, p, o, n) may return False to take over."""
        while True:
            m = self.recv()
            if m is None:
                return
            if m[0] == "req":
                if onreq is None or onreq(self, *m[1:]) is not False:
                    self.block(*m[1:])
            elif m[0] == "mreq":
                self.meta(m[1])

    def honest(self, onreq=None):
        self.hello()
        self.unchoke()
        self.ext()
        self.serve(onreq)


class World:
    def __init__(self, d):
        self.dir = d
        self.cwd = os.path.join(d, "cwd")
        os.makedirs(self.cwd, exist_ok=True)
        self.torrents, self.reqs, self.mreqs, self.conns, self.probes = {}, [], [], [], []
        self.src = {}                          # tracker -> where its last datagram came from
        self.announces = []                    # (tracker, info hash)
        self.policy = lambda c: c.honest()     # what a peer does
        self.peers = {}                        # info hash -> endpoints the first tracker lists
        self.udp = self.tracker                # what a tracker answers: (index, datagram, reply)
        self.err = open(os.path.join(d, "stderr"), "ab")
        self.proc = None
        subprocess.run("ip link set lo up; ip route add local 0.0.0.0/0 dev lo", shell=True, check=True)
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("0.0.0.0", PORT))
        s.listen(500)
        threading.Thread(target=self.accept, args=(s,), daemon=True).start()
        for k, a in enumerate(TRACKERS):
            u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            u.bind(a)
            threading.Thread(target=self.listen, args=(k, u), daemon=True).start()

    def add(self, t, peers=12, post=True):
        self.torrents[t.hash] = t
        k = len(self.torrents)
        self.peers[t.hash] = ["10.%d.0.%d" % (k, i + 1) for i in range(peers)] if isinstance(peers, int) else peers
        return self.post(t.magnet()) if post else None

    def accept(self, s):
        while True:
            c, _ = s.accept()
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            threading.Thread(target=self.one, args=(Conn(self, c),), daemon=True).start()

    def one(self, c):
        h = c.take(68)
        if h is None:
            self.probes.append(c.ep)
            c.s.close()
            return
        c.hs = h[28:48]
        c.handshake = h
        c.t = self.torrents.get(c.hs)
        c.at = time.time()
        self.conns.append(c)
        try:
            if c.t:
                self.policy(c)
        except OSError:
            pass
        c.close()

    def listen(self, k, u):
        while True:
            d, a = u.recvfrom(4096)
            self.src[k] = a
            self.udp(k, d, lambda x: u.sendto(x, a))

    def tracker(self, k, d, reply):
        """The first tracker lists the peers, the others list none."""
        if len(d) == 16:
            reply(be(0) + d[12:16] + b"CONN%04d" % k)
        elif len(d) == 98:
            self.announces.append((k, d[16:36]))
            reply(be(1) + d[12:16] + be(1800) + be(0) + be(0) + (self.compact(self.peers.get(d[16:36], [])) if k == 0 else b""))

    @staticmethod
    def compact(eps):
        return b"".join(socket.inet_aton(e) + struct.pack(">H", PORT) for e in eps)

    def start(self):
        self.proc = subprocess.Popen([os.environ["RUST_BIT"]], cwd=self.cwd, stdout=subprocess.DEVNULL, stderr=self.err)
        for _ in range(500):
            try:
                socket.create_connection(("127.0.0.1", 8080)).close()
                return
            except OSError:
                time.sleep(.02)
        raise SystemExit("the client does not start")

    def stop(self):
        if self.proc:
            self.proc.kill()
            self.proc.wait()

    def post(self, body, timeout=20):
        body = body if isinstance(body, bytes) else body.encode()
        s = socket.create_connection(("127.0.0.1", 8080), timeout)
        s.sendall(b"POST /add/magnet HTTP/1.1\r\nHost: x\r\nContent-Type: text/plain\r\nConnection: close\r\nContent-Length: %d\r\n\r\n" % len(body) + body)
        try:
            return int(s.recv(1000).split()[1])
        except (OSError, IndexError):
            return 0

    def has(self, rel):
        try:
            with open(os.path.join(self.cwd, rel), "rb") as f:
                return f.read()
        except OSError:
            return None

    def missing(self, *ts):
        return [n for t in ts for n, d in t.wanted().items() if self.has(n) != d]

    def wait(self, pred, timeout):
        end = time.time() + timeout
        while time.time() < end:
            if pred():
                return True
            time.sleep(.05)
        return pred()

    def complete(self, *ts, timeout=60):
        return self.wait(lambda: not self.missing(*ts), timeout)


def run(main):
    if os.environ.get("MINI") != "inside":
        d = tempfile.mkdtemp(prefix="demo-")
        os.chmod(d, 0o755)
        shutil.copy(os.path.join(os.getcwd(), "target/debug/rust_bit"), os.path.join(d, "rust_bit"))
        for f in os.listdir(os.path.dirname(os.path.abspath(sys.argv[0]))):
            if f.endswith(".py"):
                shutil.copy(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), f), d)
        w = os.path.join(d, "w")
        os.mkdir(w)
        pre = None
        if os.getuid() == 0:
            os.chown(w, 65534, 65534)

            def pre():
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
        p = subprocess.Popen(["timeout", "-k", "5", "280", "unshare", "-Urn", sys.executable, os.path.join(d, os.path.basename(sys.argv[0]))] + sys.argv[1:],
                             env=dict(os.environ, MINI="inside", SCRATCH=w, RUST_BIT=os.path.join(d, "rust_bit"), PYTHONDONTWRITEBYTECODE="1", HOME=w), cwd=w,
                             preexec_fn=pre, start_new_session=True)
        rc = p.wait()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        shutil.rmtree(d, ignore_errors=True)
        sys.exit(rc)
    w = World(os.environ["SCRATCH"])
    try:
        what = main(w)
    finally:
        w.stop()
    print("WRONG: %s" % what if what else "as it should be", flush=True)
    os._exit(1 if what else 0)
