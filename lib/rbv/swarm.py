"""Scripted swarm: every peer session plays a strategy (normally one enumerated by TLC).

A strategy is a dict:
  hs    what answers the client's handshake
  pre   messages sent once the client's extension handshake arrived
  ans   one entry per data request received; when exhausted, requests are answered honestly
  cuts/gap   segment every outgoing frame at these offsets, pausing `gap` seconds
  ka    insert this many keep-alives before every frame
  burst if true, `pre` is sent in one segment together with the handshake
The honest peer is {}.
"""
import asyncio
import os
import stat
import struct
import time

from .torrent import RawTorrent, Torrent, benc
from .world import (DEAD_PORT, DEAF_PORT, PEER_PORT, STALL_PORT, Closed, World, be32, compact, frame, parse_udp)

HS = b"\x13BitTorrent protocol"
META_BLK = 16384

# malformed or useless messages: name -> (bytes, what the client makes of it: "noise" a message
# without effect, "none" no message at all)
JUNK = {
    "ext_empty": (frame(20), "bad"),
    "ext_noben": (frame(20, b"\0"), "noise"),
    "ext_trunc": (frame(20, b"\0d1:md11:ut_metadatai1e"), "bad"),
    "ext_strlen": (frame(20, b"\0d1:m999999999:x"), "bad"),
    "ext_hugelen": (frame(20, b"\x0018446744073709551615:x"), "bad"),
    "ext_loop": (frame(20, b"\0lxe"), "bad"),
    "ext_listempty": (frame(20, b"\0l0:e"), "noise"),
    "ext_dictloop": (frame(20, b"\0d1:axe"), "bad"),
    "ext_nokey": (frame(20, b"\0di1ei2ee"), "bad"),
    "ext_unterminated": (frame(20, b"\0i12"), "bad"),
    "ext_digits": (frame(20, b"\x0012"), "bad"),
    "ext_nest": (frame(20, b"\0" + b"l" * 30000), "bad"),
    "ext_nestd": (frame(20, b"\0" + b"d1:a" * 9000), "bad"),
    "ext_neg": (frame(20, b"\0d1:xi-1ee"), "bad"),
    "ext_badutf": (frame(20, b"\0d2:\xff\xfei1ee"), "bad"),
    "ext_sizestr": (frame(20, b"\0d13:metadata_size3:abce"), "noise"),
    "ext_mlist": (frame(20, b"\0d1:mlee"), "noise"),
    "piece_empty": (frame(7), "bad"),
    "piece_4": (frame(7, b"\0\0\0\0"), "bad"),
    "piece_7": (frame(7, b"\0" * 7), "bad"),
    "req_empty": (frame(6), "bad"),
    "req_5": (frame(6, b"\0" * 5), "bad"),
    "hs_short": (frame(19, b"abc"), "bad"),
    "hs_empty": (frame(19), "bad"),
    "bitfield_empty": (frame(5), "noise"),
    "have_short": (frame(4, b"\0"), "noise"),
    "unknown": (frame(250, b"zzzz"), "noise"),
    "id255": (frame(255), "noise"),
    "cancel": (frame(8, b"\0" * 12), "noise"),
}


class TState:
    """What the environment knows about one torrent."""

    def __init__(self, idx, torrent, spec):
        self.idx, self.t = idx, torrent
        self.pieceq = list(spec.get("pieceq", []))
        self.metaq = list(spec.get("metaq", []))
        self.by_ep = spec.get("by_ep", {})
        self.bypiece = {int(k): list(v) for k, v in spec.get("bypiece", {}).items()}
        self.default = spec.get("default", {})
        self.meta_known = spec.get("meta_known", False)
        self.meta_bytes = torrent.info
        self.foreign = None
        self.npsess = 0
        self.nmsess = 0
        self.sess = []


def regular(p):
    """The file for reading; what is no regular file counts as absent."""
    if not stat.S_ISREG(os.stat(p).st_mode):
        raise OSError("not a file")
    return open(p, "rb")


def here(x, d):
    """"@DIR@" in a name stands for the scratch directory."""
    if isinstance(x, dict):
        return {k: here(v, d) for k, v in x.items()}
    if isinstance(x, list):
        return [here(v, d) for v in x]
    return x.replace("@DIR@", d.strip("/")) if isinstance(x, str) else x


def mk_torrent(s):
    if "raw" in s:
        return RawTorrent(bytes.fromhex(s["raw"]))
    f = s.get("files")
    return Torrent(name=s.get("name", "content.bin"), length=s.get("length"),
                   files=[(p, n) for p, n in f] if f is not None else None,
                   piece_length=s["pl"], seed=s.get("seed", 1), extra=s.get("extra"),
                   file_extra=s.get("file_extra"), extra_raw=s.get("extra_raw"), info_size=s.get("info_size"))


class Swarm(World):
    def __init__(self, job):
        super().__init__(job)
        P = job["params"]
        self.P = P
        for s in P["torrents"]:
            s["torrent"] = here(s["torrent"], self.dir)
        self.ts = [TState(i, mk_torrent(s["torrent"]), s) for i, s in enumerate(P["torrents"])]
        self.byhash = {x.t.info_hash: x for x in self.ts}
        self.policy = self.peer
        self.tracker_policy = self.track
        self.tmode = P.get("tmode", {})          # tracker idx -> mode
        self.announced = {}

    # ---------------------------------------------------------------- trackers
    def endpoints(self, ts, k):
        s = self.P["torrents"][ts.idx]
        e = s.get("eps_by_tracker", {}).get(str(k))
        if e is None:
            e = s.get("eps", 12) if k == self.P.get("main_tracker", 0) else []
        if isinstance(e, int):
            e = [["10.%d.0.%d" % (ts.idx + 1, i + 1), PEER_PORT] for i in range(e)]
        return [tuple(x) for x in e]

    def track(self, trk, data, addr):
        m = parse_udp(data)
        tid = data[12:16]
        for h in self.P.get("tjunk", {}).get(str(trk.idx), []):      # "TTTTTTTT" stands for the transaction id
            trk.reply(bytes.fromhex(h.replace("T" * 8, tid.hex())), addr)
        if m["t"] == "connect":
            trk.reply(be32(0) + tid + b"CONN%04d" % trk.idx, addr)
        elif m["t"] == "announce":
            ts = self.byhash.get(bytes.fromhex(m["hash"]))
            if ts is None:
                return
            eps = self.endpoints(ts, trk.idx)
            if eps and str(trk.idx) in self.P.get("tdelay", {}):
                data = be32(1) + tid + be32(1800) + be32(0) + be32(len(eps)) + compact(eps)
                asyncio.get_running_loop().call_later(self.P["tdelay"][str(trk.idx)], trk.reply, data, addr)
            elif eps:
                odd = [tuple(x) for x in self.P["torrents"][ts.idx].get("odd", [])]       # endpoints nobody can be at
                trk.reply(be32(1) + tid + be32(1800) + be32(0) + be32(len(eps)) + compact(odd[::2] + eps + odd[1::2]), addr)
                self.announced.setdefault(ts.idx, []).extend(e for e in eps if e[1] == PEER_PORT)

    async def up(self):
        self.net_up()
        await self.listen()
        nd = sum(1 for t in self.ts for k in range(len(self.P["trackers"])) for e in self.endpoints(t, k) if e[1] == DEAD_PORT)
        if nd:
            await self.listen_dead(nd)
        ns = sum(1 for t in self.ts for k in range(len(self.P["trackers"])) for e in self.endpoints(t, k) if e[1] == STALL_PORT)
        if ns:
            await self.listen_stall(ns)
        if any(e[1] == DEAF_PORT for t in self.ts for k in range(len(self.P["trackers"])) for e in self.endpoints(t, k)):
            await self.listen_stall(0, DEAF_PORT)
        for i, (ip, port) in enumerate(self.P["trackers"]):
            if i in self.P.get("trackers_up", [0]):
                await self.add_tracker(i, ip, port)

    # ---------------------------------------------------------------- peers
    def conflicts(self, ts, p, me):
        return [c for c in ts.sess if c is not me and c.piece == p and not c.eof]

    async def settle(self, cond, tmax=0.3):
        """A close that precedes this event is already in a socket queue: wait for it."""
        for _ in range(int(tmax / 0.01)):
            if cond():
                return
            await asyncio.sleep(0.01)

    async def peer(self, conn):
        ts = self.byhash.get(conn.hs)
        if ts is None:
            conn.log("sess", h=-1, k="unknown")
            conn.fin()
            return
        conn.ts = ts
        if ts.meta_known:
            conn.kind = "piece"
            ts.npsess += 1
            nopen = [c for c in ts.sess if c.kind == "piece" and not c.eof]
            if len(nopen) >= 5:
                await self.settle(lambda: len([c for c in ts.sess if c.kind == "piece" and not c.eof]) < 5, 0.05)
            if conn.ep in ts.by_ep:
                st = ts.by_ep[conn.ep]
                if isinstance(st, list):
                    st = st.pop(0) if st else ts.default
            else:
                st = ts.pieceq.pop(0) if ts.pieceq else ts.default
        else:
            conn.kind = "meta"
            ts.nmsess += 1
            if "meta_by_ep" in self.P["torrents"][ts.idx] and conn.ep in self.P["torrents"][ts.idx]["meta_by_ep"]:
                st = self.P["torrents"][ts.idx]["meta_by_ep"][conn.ep]
            else:
                st = ts.metaq.pop(0) if ts.metaq else {}
        ts.sess.append(conn)
        conn.st = st
        conn.log("sess", h=ts.idx, k=conn.kind, ep=conn.ep, st=st)
        await self.play(conn, ts, st)

    async def emit(self, conn, data, note):
        st = conn.st
        for _ in range(st.get("ka", 0) if (note or {}).get("t") != "hs" else 0):
            await conn.send(be32(0), {"t": "noise", "w": "keepalive"})
        if st.get("cuts"):
            cuts = [c if c >= 0 else len(data) + c for c in st["cuts"]]
            await conn.send_chunks(data, sorted(c for c in cuts if 0 < c < len(data)), st.get("gap", 0.03), note)
        else:
            await conn.send(data, note)

    def ext_hs(self, ts, st, size=None, ut=3):
        d = {"m": {"ut_metadata": ut}, "v": "scripted", "reqq": 250}
        if size is None:
            size = st.get("msize", len(self.meta_for(ts, st)))
        d["metadata_size"] = size
        return frame(20, b"\0" + benc(d))

    def meta_for(self, ts, st):
        """Bytes this peer serves as metadata."""
        m = st.get("meta", "good")
        good = ts.t.info
        if m == "good":
            return good
        if m == "flip":
            i = st.get("at", len(good) - 10) % len(good)
            return good[:i] + bytes([good[i] ^ 1]) + good[i + 1:]
        if m == "trunc":
            return good[:len(good) - st.get("at", 1)]
        if m == "pad":
            return good + b"x" * st.get("at", 1)
        if m == "foreign":
            return mk_torrent(st["torrent"]).info
        if m == "raw":
            return bytes.fromhex(st["hex"])
        if m == "json":      # a python-literal dictionary
            return benc(_lit(st["dict"]))
        raise ValueError(m)

    async def simple(self, conn, ts, st, tok):
        """One scripted message that does not answer a request."""
        if tok == "unchoke":
            await self.emit(conn, frame(1), {"t": "unchoke"})
        elif tok == "choke":
            await self.emit(conn, frame(0), {"t": "choke"})
        elif tok == "ext":
            conn.ut = st.get("ut", 3)
            size = st.get("msize", len(self.meta_for(ts, st)))
            await self.emit(conn, self.ext_hs(ts, st, ut=conn.ut), {"t": "ext", "size": size, "ut": conn.ut})
        elif tok == "noext":
            await self.emit(conn, frame(20, b"\0" + benc({"m": {"ut_pex": 3}})), {"t": "noise", "w": tok})
        elif tok == "extnout":
            conn.ut = -1
            await self.emit(conn, frame(20, b"\0" + benc({"m": {"ut_pex": 1}, "metadata_size": len(ts.t.info)})),
                            {"t": "ext", "size": len(ts.t.info), "ut": -1})
        elif tok == "ext0":
            await self.emit(conn, frame(20, b"\0" + benc({"m": {"ut_metadata": 3}, "metadata_size": 0})),
                            {"t": "ext", "size": 0, "ut": 3})
        elif tok == "have":
            await self.emit(conn, frame(4, be32(0)), {"t": "noise", "w": tok})
        elif tok == "bitfield":
            n = (ts.t.npieces + 7) // 8
            await self.emit(conn, frame(5, b"\xff" * n), {"t": "noise", "w": tok})
        elif tok == "ka":
            await conn.send(be32(0), {"t": "noise", "w": "keepalive"})
        elif tok == "hsagain":
            await self.emit(conn, HS + bytes(8) + conn.hs + b"-XX0000-%012d" % 7, {"t": "hs", "ok": True})
        elif tok == "hsagainbad":
            await self.emit(conn, HS + bytes(8) + bytes(20) + b"-XX0000-%012d" % 7, {"t": "hs", "ok": False})
        elif tok == "piece0" and conn.kind == "meta":
            conn.tainted = True
            await self.emit(conn, frame(20, bytes([1]) + benc({"msg_type": 1, "piece": 0, "total_size": 20}) + b"x" * 20),
                            {"t": "data", "ok": False, "o": -1, "n": 20, "w": "unsol"})
        elif tok == "piece0":        # unsolicited data
            await self.emit(conn, frame(7, be32(0) + be32(0) + b"x" * 20),
                            {"t": "data", "ok": False, "o": -1, "n": 20, "w": "unsol"} if conn.kind == "piece" else {"t": "noise", "w": tok})
        elif tok == "cancel":
            await self.emit(conn, frame(8, b"\0" * 12), {"t": "noise", "w": tok})
        elif tok == "unknown":
            await self.emit(conn, frame(250, b"zzzz"), {"t": "noise", "w": tok})
        elif tok == "reject16":
            await self.emit(conn, frame(16, b"\0" * 12), {"t": "noise", "w": tok})
        elif tok in ("extless", "extmore", "exthuge"):
            size = {"extless": max(1, len(ts.t.info) - META_BLK), "extmore": len(ts.t.info) + META_BLK,
                    "exthuge": 1 << 40}[tok]
            conn.ut = 3
            await self.emit(conn, self.ext_hs(ts, st, size=size), {"t": "ext", "size": size, "ut": 3})
        elif tok.startswith("extsize:"):
            size = int(tok[8:])
            conn.ut = 3
            await self.emit(conn, self.ext_hs(ts, st, size=size), {"t": "ext", "size": size, "ut": 3})
        elif tok.startswith("j:"):
            raw, cls = JUNK[tok[2:]]
            await self.emit(conn, raw, {"t": cls, "w": tok})
        elif tok.startswith("dh:"):        # not asked for metadata any more
            conn.fin()
            raise Closed
        elif tok.startswith("z:"):         # arbitrary bytes
            conn.tainted = True
            await conn.send(bytes.fromhex(tok[2:]), {"t": "frag", "w": "bytes"})
        elif tok == "hugelen":
            await conn.send(b"\xff\xff\xff\xff\x07abc", {"t": "frag", "w": tok})
            raise Closed_silent
        elif tok == "biglen":
            await conn.send(b"\x01\x00\x00\x00\x07abc", {"t": "frag", "w": tok})
            raise Closed_silent
        elif tok.startswith("len:"):
            await conn.send(bytes.fromhex(tok[4:]) + b"\x07abc", {"t": "frag", "w": tok})
            raise Closed_silent
        elif tok == "half":
            await conn.send(b"\0\0", {"t": "frag", "w": tok})
            raise Closed_silent
        elif tok == "halfmsg":
            await conn.send(be32(100) + b"\x07abc", {"t": "frag", "w": tok})
            raise Closed_silent
        elif tok == "wait":
            await asyncio.sleep(0.03)
        elif tok == "pause":               # well within the client's patience
            await asyncio.sleep(st.get("pause", 0.5))
        elif tok.startswith("big:"):       # a message larger than what the socket can hold
            await self.emit(conn, frame(5, b"\xff" * int(tok[4:])), {"t": "noise", "w": tok})
        elif tok.startswith("msg:"):       # a whole message the client has no use for
            await self.emit(conn, frame(int(tok[4:6], 16), bytes.fromhex(tok[6:])), {"t": "noise", "w": tok})
        elif tok.startswith("fill:"):      # the same with a body of one byte repeated
            k, b, n = tok[5:].split(":")
            await self.emit(conn, frame(int(k), bytes([int(b)]) * int(n)), {"t": "noise", "w": tok})
        elif tok == "close":
            conn.fin()
            raise Closed
        elif tok == "rst":
            conn.rst()
            raise Closed
        elif tok == "silent":
            raise Closed_silent
        elif tok == "kaslow":              # keep-alives all the time, nothing between them
            for _ in range(16):
                await self.emit(conn, be32(0), {"t": "noise", "w": "ka"})
                await asyncio.sleep(0.04)
        elif tok.endswith("chatter"):      # some message again and again
            have = frame(4, be32(0))
            kinds = {"": [have], "ka": [be32(0)], "bf": [frame(5, b"\xff")], "junk": [frame(7, b"\0\0")], "ext": [self.ext_hs(ts, st)],
                     "choke": [frame(0)], "unchoke": [frame(1)], "interested": [frame(2)], "notinterested": [frame(3)], "request": [frame(6, be32(0) * 2 + be32(16384))],
                     "data": [frame(7, be32(0) * 2 + b"x" * 20)], "cancel": [frame(8, b"\0" * 12)], "port": [frame(9, b"\x1b\x59")], "unknown": [frame(250, b"zz")],
                     "meta": [frame(20, b"\1" + benc({"msg_type": 1, "piece": 0, "total_size": 20}) + b"x" * 20)], "reject": [frame(20, b"\1" + benc({"msg_type": 2, "piece": 0}))],
                     "hs": [HS + bytes(8) + conn.hs + b"-XX0000-%012d" % 7], "chokehave": [frame(0), have], "haveka": [have, be32(0)], "pex": [frame(20, b"\2" + benc({"added": b"\1\2\3\4\5\6"}))]}
            kinds["all"] = [x for k, v in kinds.items() if k not in ("unchoke", "ext") for x in v]
            msgs = kinds[tok[:-7]]
            if tok in ("datachatter", "metachatter", "allchatter"):
                conn.tainted = True
            conn.log("tx", m={"t": "bad" if tok in ("junkchatter", "allchatter") else "noise", "w": tok, "endless": True})
            conn.bg = asyncio.create_task(self.repeat(conn, msgs, 0.05, True))
            raise Closed_silent
        elif tok == "trickle":
            conn.log("tx", m={"t": "frag", "w": tok, "endless": True})
            msg = frame(7, be32(0) * 2 + b"q" * 16384)
            conn.bg = asyncio.create_task(self.repeat(conn, [bytes([b]) for b in msg], 0.2, False))
            raise Closed_silent
        else:
            raise ValueError("token " + tok)

    async def repeat(self, conn, msgs, gap, forever):
        while True:
            for m in msgs:
                if conn.eof or not await conn.send(m):
                    return
                await asyncio.sleep(gap)
            if not forever:
                return

    async def play(self, conn, ts, st):
        try:
            await self._play(conn, ts, st)
        except (Silent, Closed):
            pass
        # the peer says nothing more, but what is still asked of it is of interest
        while not conn.was_rst:
            m = await conn.recv(60)
            if m is None or m == "timeout":
                return
            if m["t"] == "req":
                await self.reveal(conn, ts, m)

    async def reveal(self, conn, ts, m):
        if conn.kind != "piece":       # the client was further than expected
            conn.log("kind", k="piece", was=conn.kind)
            conn.kind = "piece"
            ts.meta_known = True
        if conn.piece is None:
            conn.piece = m["p"]
            if self.conflicts(ts, m["p"], conn):
                await self.settle(lambda: not self.conflicts(ts, m["p"], conn))
            conn.log("reveal", h=ts.idx, p=m["p"])
            return True
        return False

    async def _play(self, conn, ts, st):
        hs = st.get("hs", "good")
        good = HS + bytes([0, 0, 0, 0, 0, 0x10, 0, 0]) + conn.hs + b"-XX0000-%012d" % conn.cid
        conn.ut = -1
        if hs == "slow":
            await asyncio.sleep(st.get("pause", 0.5))
            hs = "good"
        if hs == "good":
            if st.get("burst"):
                data = good
                conn.log("tx", m={"t": "hs", "ok": True})
                for tok in st.get("pre", ["unchoke", "ext"]):
                    if tok == "unchoke":
                        data += frame(1)
                        conn.log("tx", m={"t": "unchoke"})
                    elif tok == "ext":
                        conn.ut = 3
                        data += self.ext_hs(ts, st)
                        conn.log("tx", m={"t": "ext", "size": st.get("msize", len(self.meta_for(ts, st))), "ut": 3})
                await conn.send(data)
            else:
                c = st.get("hscuts")
                if c:
                    await conn.send_chunks(good, c, st.get("gap", 0.03), {"t": "hs", "ok": True})
                else:
                    await self.emit(conn, good, {"t": "hs", "ok": True})
        elif hs == "bad":
            await self.emit(conn, HS + bytes(8) + bytes(20) + b"-XX0000-%012d" % 1, {"t": "hs", "ok": False})
        elif hs.startswith("bad"):      # one bit off, in one byte of the hash
            k = int(hs[3:])
            h = conn.hs[:k] + bytes([conn.hs[k] ^ (1 << (st.get("bit", 0)))]) + conn.hs[k + 1:]
            await self.emit(conn, HS + bytes(8) + h + b"-XX0000-%012d" % 1, {"t": "hs", "ok": False})
        elif hs == "close":
            conn.fin()
            return
        elif hs == "silent":
            raise Silent
        elif hs == "short":
            await conn.send(good[:40], {"t": "frag", "w": "hs"})
            raise Silent
        elif hs == "shortclose":
            await conn.send(good[:40], {"t": "frag", "w": "hs"})
            await asyncio.sleep(0.02)
            conn.fin()
            return
        elif hs == "junk":
            await conn.send(b"HTTP/1.1 400 Bad Request\r\n" * 4, {"t": "frag", "w": "http"})
            raise Silent
        elif hs == "unchokefirst":
            await conn.send(frame(1) + good, {"t": "noise", "w": hs})
            raise Silent
        else:
            raise ValueError(hs)
        n = 0
        ans = list(st.get("ans", []))
        introduced = bool(st.get("burst"))
        while True:
            m = await conn.recv(60)
            if m is None or m == "timeout":
                return
            if m["t"] == "exths" and not introduced:
                introduced = True
                for tok in st.get("pre", ["unchoke", "ext"]):
                    await self.simple(conn, ts, st, tok)
            elif m["t"] == "req":
                if await self.reveal(conn, ts, m):
                    if ts.bypiece.get(m["p"]):
                        ans = list(ts.bypiece[m["p"]].pop(0)) + ans
                if st.get("cap") and n == 0:
                    for _ in range(80):
                        if self.calm(ts):
                            break
                        await asyncio.sleep(0.01)
                    else:
                        conn.fin()
                        return
                a = ans.pop(0) if ans else "good"
                if st.get("wait"):
                    await asyncio.sleep(st["wait"])
                if not await self.answer(conn, ts, st, m, a, n):
                    return
                n += 1
            elif m["t"] == "mreq":
                if conn.kind != "meta":
                    conn.log("kind", k="meta", was=conn.kind)
                    conn.kind = "meta"
                a = ans.pop(0) if ans else "good"
                if st.get("wait"):
                    await asyncio.sleep(st["wait"])
                if not await self.manswer(conn, ts, st, m, a, n):
                    return
                n += 1

    def calm(self, ts):
        """Nothing but capacity-measuring sessions are left."""
        return not ts.pieceq and not any(not c.eof and c.kind == "piece" and not c.st.get("cap") for c in ts.sess)

    def block(self, ts, m):
        o = m["p"] * ts.t.piece_length + m["o"]
        return ts.t.content[o:o + m["n"]]

    async def answer(self, conn, ts, st, m, a, n):
        """Answer one block request with scripted answer `a`."""
        t = ts.t
        hdr = be32(m["p"]) + be32(m["o"])
        data = self.block(ts, m)
        valid = m["p"] < t.npieces and m["o"] + m["n"] <= t.piece_len(m["p"]) and m["n"] > 0
        if isinstance(t, RawTorrent) and m["n"] <= 1 << 17 and m["o"] < 1 << 20:      # as much as is asked for, within limits
            await self.emit(conn, frame(7, hdr + bytes(m["n"])), {"t": "data", "ok": False, "o": m["o"], "n": m["n"]})
            return True
        if not valid:
            # a request outside the piece: a real peer drops the connection
            conn.log("badreq", m=m)
            conn.fin()
            return False

        async def put(d, ok, h=hdr, i=7):
            await self.emit(conn, frame(i, h + d), {"t": "data", "ok": bool(ok), "o": m["o"], "n": len(d)})
        for part in a.split("+"):
            if part == "good":
                await put(data, True)
            elif part == "good6":
                await put(data, True, i=6)
            elif part == "corrupt":
                k = st.get("at", 0) % len(data)
                await put(data[:k] + bytes([data[k] ^ (1 << st.get("bit", 0))]) + data[k + 1:], False)
            elif part == "corruptlast":
                await put(data[:-1] + bytes([data[-1] ^ 0x80]), False)
            elif part == "zero":
                await put(bytes(len(data)), False)
            elif part == "flip2":         # two bytes exchanged, the sum unchanged
                k = next((k for k in range(len(data) - 1) if data[k] != data[k + 1]), None)
                d = data if k is None else data[:k] + data[k + 1:k + 2] + data[k:k + 1] + data[k + 2:]
                await put(d, d == data)
            elif part == "padfront":
                await put(b"\0" + data, False)
            elif part == "padback":
                await put(data + bytes(range(1, 99)), False)
            elif part == "short":
                await put(data[:-1], False)
            elif part == "short1":
                await put(data[:len(data) // 2], False)
            elif part == "empty":
                await put(b"", False)
            elif part == "long":
                await put(data + b"\0", False)
            elif part == "dupbyte":
                await put(data + data[-1:], False)
            elif part == "other":
                q = (m["p"] + 1) % t.npieces
                o = q * t.piece_length + m["o"]
                d = t.content[o:o + m["n"]]
                await put(d, d == data)
            elif part.startswith("hex:"):
                d = bytes.fromhex(part[4:])
                await put(d, d == data)
            elif part == "otherfull":     # correct data of another piece, correctly labelled
                q = (m["p"] + 1) % t.npieces
                o = q * t.piece_length + m["o"]
                d = t.content[o:o + m["n"]]
                await put(d, d == data, h=be32(q) + be32(m["o"]))
            elif part == "rev":
                await put(data[::-1], data[::-1] == data)
            elif part == "swapblk":       # data of the other block of the piece
                o2 = 16384 if m["o"] == 0 else 0
                o = m["p"] * t.piece_length + o2
                d = t.content[o:o + m["n"]]
                await put(d, d == data)
            elif part == "split2":        # one block delivered as two half messages
                k = len(data) // 2
                await put(data[:k], False)
                await put(data[k:], False, h=be32(m["p"]) + be32(m["o"] + k))
            elif part == "slow":
                await asyncio.sleep(0.5)
                await put(data, True)
            elif part == "stall":
                f = frame(7, hdr + data)
                await conn.send(f[:max(6, len(f) // 2)], {"t": "frag", "w": "stall"})
                raise Silent
            elif part == "stallclose":
                f = frame(7, hdr + data)
                await conn.send(f[:max(6, len(f) // 2)], {"t": "frag", "w": "stall"})
                await asyncio.sleep(0.05)
                conn.fin()
                return False
            elif part == "silent":
                raise Silent
            elif part == "close":
                conn.fin()
                return False
            else:
                await self.simple(conn, ts, st, part)
        return True

    async def manswer(self, conn, ts, st, m, a, n):
        meta = self.meta_for(ts, st)
        i = m["p"]
        blk = meta[i * META_BLK:(i + 1) * META_BLK]
        good = self.meta_for(ts, {})[i * META_BLK:(i + 1) * META_BLK]

        async def put(d, idx=i):
            h = benc({"msg_type": 1, "piece": idx, "total_size": len(meta)})
            conn.log("tx", m={"t": "data", "ok": d == good and meta == ts.t.info, "o": i, "n": len(d)})
            await self.emit(conn, frame(20, bytes([1]) + h + d), None)
        for part in a.split("+"):
            if part == "good" and not blk:     # beyond the end: there is nothing to give
                await self.emit(conn, frame(20, bytes([1]) + benc({"msg_type": 2, "piece": i})), {"t": "noise", "w": "reject"})
            elif part == "good":
                await put(blk)
                if meta == ts.t.info and (i + 1) * META_BLK >= len(meta) and not getattr(conn, "tainted", False) \
                        and st.get("abs", {}).get("out", "ok") == "ok":
                    conn.served_all = True
                    ts.meta_known = True
            elif part == "corrupt":
                conn.tainted = True
                k = st.get("at", 0) % len(blk)
                await put(blk[:k] + bytes([blk[k] ^ 1]) + blk[k + 1:])
            elif part == "short":
                conn.tainted = True
                await put(blk[:-1])
            elif part == "long":
                conn.tainted = True
                await put(blk + b"e")
            elif part == "empty":
                conn.tainted = True
                await put(b"")
            elif part == "dup":
                conn.tainted = True
                await put(blk)
                await put(blk)
            elif part.startswith("dh:"):       # the right data under a header of its own
                conn.tainted = True
                await self.emit(conn, frame(20, bytes([1]) + bytes.fromhex(part[3:]) + blk), {"t": "frag", "w": "header"})
            elif part == "reject":
                await self.emit(conn, frame(20, bytes([1]) + benc({"msg_type": 2, "piece": i})), {"t": "noise", "w": part})
            elif part == "stall":
                f = frame(20, bytes([1]) + benc({"msg_type": 1, "piece": i}) + blk)
                await conn.send(f[:len(f) // 2], {"t": "frag", "w": "stall"})
                raise Silent
            elif part == "stallclose":
                f = frame(20, bytes([1]) + benc({"msg_type": 1, "piece": i}) + blk)
                await conn.send(f[:len(f) // 2], {"t": "frag", "w": "stall"})
                await asyncio.sleep(0.05)
                conn.fin()
                return False
            elif part == "silent":
                raise Silent
            elif part == "close":
                conn.fin()
                return False
            else:
                await self.simple(conn, ts, st, part)
        return True


class Silent(Exception):
    pass


Closed_silent = Silent


def _lit(d):
    return d


# -------------------------------------------------------------------- generic whole-download run
async def download(job):
    """Add every torrent, let the swarm play its strategies, wait until all pieces were served
    correctly and the client is quiet.  Returns the trace and the files."""
    w = Swarm(job)
    P = w.P
    await w.up()
    pre = P.get("prefill", {})

    for rel, hx in pre.items():
        p = os.path.join(w.cwd, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(bytes.fromhex(hx))
    for rel, x in P.get("slow", {}).items():       # opening this (empty) file takes until all pieces of torrent x were fetched, and longer
        p = os.path.join(w.cwd, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        os.mkfifo(p)

        async def release(p=p, x=w.ts[x]):
            await w.until(lambda: len({c.piece for c in x.sess if c.kind == "piece" and c.piece is not None and c.eof}) >= x.t.npieces, 20, 0.2)
            await asyncio.sleep(1)
            fd = os.open(p, os.O_RDONLY | os.O_NONBLOCK)
            await asyncio.sleep(0.05)
            open(p + "~", "wb").close()
            os.rename(p + "~", p)
            os.close(fd)
        w.tasks.append(asyncio.create_task(release()))
    w.start()
    res = {}
    if not await w.ready():
        res["error"] = "the client did not start: " + repr(w.panics())
        return res
    sts = []
    first = [x for x in w.ts if not P["torrents"][x.idx].get("late")]
    if P.get("gather"):
        sts = await asyncio.gather(*[w.post(x.t.magnet(P.get("suffix", "&dn=x")), timeout=60) for x in first])
    else:
        for x in first:
            sts.append(await w.post(x.t.magnet(P.get("suffix", "&dn=x")), timeout=60))
            if P.get("post_gap"):
                await asyncio.sleep(P["post_gap"])

    now = list(first)

    def on_disk():
        for x in now:
            g = P["torrents"][x.idx].get("goal_sessions")
            if g is not None and len(x.sess) < g:
                return False
            if P["torrents"][x.idx].get("doomed"):
                continue
            if (x.pieceq or x.metaq) and not P["torrents"][x.idx].get("lax"):
                return False
            for rel, exp in x.t.expected_files():
                try:
                    with regular(os.path.join(w.cwd, rel)) as f:
                        if f.read() != exp:
                            return False
                except OSError:
                    return False
        return True

    pst = {}

    def pieces_on_disk(x):
        """What the pieces look like on disk: gap, partial, good or bad."""
        got = b""
        for rel, exp in x.t.expected_files():
            try:
                with regular(os.path.join(w.cwd, rel)) as f:
                    b = f.read()
            except OSError:
                b = b""
            got += b[:len(exp)].ljust(len(exp), b"\0")
        for i in range(x.t.npieces):
            a = i * x.t.piece_length
            e = x.t.content[a:a + x.t.piece_len(i)]
            g = got[a:a + len(e)]
            st = "good" if g == e else "gap" if g.count(0) == len(g) else "bad" if foreign_bytes(g, e) else "partial"
            if pst.get((x.idx, i), "gap") != st:
                pst[(x.idx, i)] = st
                w.ev("disk", h=x.idx, p=i, st=st)

    async def watch():
        seen = {}
        while True:
            for x in w.ts:
                if P.get("disk"):
                    m = []
                    for rel, _ in x.t.expected_files():
                        try:
                            q = os.stat(os.path.join(w.cwd, rel))
                            m.append((q.st_mtime_ns, q.st_size))
                        except OSError:
                            m.append(0)
                    if seen.get(("d", x.idx)) != m:
                        seen[("d", x.idx)] = m
                        pieces_on_disk(x)
                for rel, exp in x.t.expected_files():
                    try:
                        p = os.path.join(w.cwd, rel)
                        m = os.stat(p).st_mtime_ns
                        if seen.get(p) == m:
                            continue
                        seen[p] = m
                        with regular(p) as f:
                            n = foreign_bytes(f.read(), exp)
                        if n:
                            w.ev("foreign", h=x.idx, file=rel, n=n)
                    except OSError:
                        pass
            await asyncio.sleep(0.01)
    if P.get("watch", True):
        w.tasks.append(asyncio.create_task(watch()))

    def goal():
        if len(w.conns) > P.get("max_conns", 1 << 30):
            return True
        if P.get("leave_open"):
            return on_disk()
        return on_disk() and not [c for c in w.open_sessions() if not doomed(c)]

    def doomed(c):
        return hasattr(c, "ts") and P["torrents"][c.ts.idx].get("doomed")
    res["reached"] = await w.until(goal, P.get("timeout", 30), 0.1) and len(w.conns) <= P.get("max_conns", 1 << 30)
    if len(first) < len(w.ts):       # torrents added once the others are done
        res["reached1"] = res["reached"]
        now = [x for x in w.ts if x not in first]
        for x in now:
            sts.append(await w.post(x.t.magnet(P.get("suffix", "&dn=x")), timeout=60))
        res["reached"] = await w.until(goal, P.get("timeout2", 30), 0.1) and res["reached1"]
    if any(t.get("doomed") for t in P["torrents"]):
        await asyncio.sleep(P.get("quiet", 0.4))
    else:
        await w.quiesce(P.get("quiet", 0.4), P.get("qtimeout", 10))
    alive = w.proc.poll() is None
    if P.get("disk"):
        for x in w.ts:
            pieces_on_disk(x)
    w.ev("end")
    w.kill()
    res.update(result(w))
    if P.get("outside"):
        res["outside"] = outside(w)
    res["st"] = sts
    res["alive"] = alive
    await w.shutdown()
    return res


def outside(w):
    """What is in the scratch directory around the working directory and is not ours."""
    out = []
    for d, ds, fs in os.walk(w.dir):
        if d == w.cwd:
            ds[:] = []
            continue
        out += [os.path.relpath(os.path.join(d, f), w.dir) for f in fs + ds]
    mine = {"a", "a/b", "a/b/c", "a/b/c/cwd", "job.json", "stderr.txt", "out.json"}
    return sorted(x for x in out if x not in mine)


def pieces_ok(ts):
    return {c.piece for c in ts.sess if c.kind == "piece" and c.piece is not None and session_served(c)}


def session_served(c):
    """Every block of the piece was sent complete, correct and in order on this connection."""
    t = c.ts.t
    off = 0
    for e in c.w.log:
        if e.get("c") == c.cid and e["e"] == "tx" and e["m"]["t"] == "data":
            m = e["m"]
            if not m["ok"] or m["o"] != off:
                return False
            off += m["n"]
    return c.piece is not None and off == t.piece_len(c.piece)


def result(w):
    tree = w.tree()
    files = []
    for x in w.ts:
        out = []
        for rel, exp in x.t.expected_files():
            got = tree.get(rel)
            out.append({"path": rel, "len": None if got is None else len(got), "want": len(exp),
                        "same": got == exp,
                        "foreign": 0 if got is None else foreign_bytes(got, exp)})
        files.append(out)
    return {"log": w.log, "files": files, "panics": w.panics(), "died": w.died, "rss_mb": w.rss_max // 256,
            "listing": {k: len(v) for k, v in tree.items()},
            "served": [sorted(pieces_ok(x)) for x in w.ts],
            "envbug": [e for e in w.log if e["e"] == "envbug"]}


ZEROS = bytes(4096)


def foreign_bytes(got, exp):
    """Bytes on disk that are neither the torrent's nor a gap."""
    n = 0
    for k in range(0, len(got), 4096):
        g, e = got[k:k + 4096], exp[k:k + 4096]
        if g != e and g != ZEROS[:len(g)]:
            n += sum(1 for i, b in enumerate(g) if b != 0 and (i >= len(e) or b != e[i]))
    return n


# -------------------------------------------------------------------- several runs in one directory
LOGS = {"test.log"}


class Store:
    """What the client leaves in its directory besides the content and the log: the saved metadata, whatever its form."""

    def __init__(self, w):
        self.w = w
        self.content = {rel for x in w.ts for rel, _ in x.t.expected_files()}

    def copies(self):
        out = []
        for d, _, fs in os.walk(self.w.cwd):
            for f in fs:
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.w.cwd)
                if rel not in self.content and rel not in LOGS:
                    out.append(p)
        return sorted(out)

    def damage(self, op):
        n = 0
        for i, p in enumerate(self.copies()):
            if "only" in op and i not in op["only"]:
                continue
            n += 1
            k = op["op"]
            with open(p, "rb") as f:
                b = f.read()
            if k == "delete":
                os.remove(p)
            elif k == "trunc":
                at = op["at"][i % len(op["at"])]
                b = b[:at % len(b)] if b else b
            elif k == "flip":
                j = op["at"][i % len(op["at"])] % max(1, len(b))
                b = b[:j] + bytes([b[j] ^ 0x80]) + b[j + 1:]
            elif k == "junk":
                b = bytes.fromhex(op["hex"]) * op.get("times", 1)
            elif k == "append":
                b = b + bytes.fromhex(op["hex"])
            elif k == "swap":
                pass
            elif k == "dir":
                os.remove(p)
                os.mkdir(p)
            elif k == "age":           # no damage at all
                t = time.time() - op["secs"]
                os.utime(p, (t, t))
                continue
            elif k == "sparse":
                os.truncate(p, op["size"])
            elif k in ("noread", "nowrite"):
                os.chmod(p, 0o200 if k == "noread" else 0o400)
            if k in ("trunc", "flip", "junk", "append"):
                with open(p, "wb") as f:
                    f.write(b)
        if op["op"] == "rmtree":
            import shutil
            for d in {os.path.dirname(p) for p in self.copies()}:
                if d != self.w.cwd:
                    shutil.rmtree(d)
                    n += 1
        if op["op"] != "age":
            self.w.ev("damage", op=op["op"], n=n, all="only" not in op)

    def wipe(self, what):
        """Files removed while the client is down."""
        cs = self.copies()
        if what in ("all", "copy") and cs:
            for p in cs:
                os.remove(p)
            self.w.ev("damage", op="delete", n=len(cs), all=True)
        if what in ("holes", "tails"):       # written in part: pieces whose ends are there, files that stop early
            for x in self.w.ts:
                o = 0
                for rel, b in x.t.expected_files():
                    p = os.path.join(self.w.cwd, rel)
                    if os.path.isfile(p) and b:
                        g = bytearray(b) if what == "holes" else bytearray(b[:max(1, len(b) * 2 // 3)])
                        if what == "holes":
                            pl = x.t.piece_length
                            for k in range(0, len(b) + pl, pl):
                                a = max(0, k - o % pl)
                                e = min(len(b), k - o % pl + pl)
                                if e - a > 2:
                                    g[a + 1:e - 1] = bytes(e - a - 2)
                        with open(p, "wb") as f:
                            f.write(g)
                    o += len(b)
            return
        for i, rel in enumerate(sorted(self.content)):
            p = os.path.join(self.w.cwd, rel)
            if os.path.exists(p) and (what in ("all", "content") or what == "half" and i % 2):
                os.remove(p)


async def restarts(job):
    """The client runs several times in one directory.  runs: [{adds, kill, damage}]; kill: {on, n, after} or none."""
    w = Swarm(job)
    P = w.P
    await w.up()
    store = Store(w)
    pst = {}

    def disk():
        for x in w.ts:
            got = b""
            for rel, exp in x.t.expected_files():
                try:
                    with regular(os.path.join(w.cwd, rel)) as f:
                        b = f.read()
                except OSError:
                    b = b""
                if len(b) > len(exp):
                    w.ev("toolong", h=x.idx, file=rel)
                got += b[:len(exp)].ljust(len(exp), b"\0")
            for i in range(x.t.npieces):
                a = i * x.t.piece_length
                e = x.t.content[a:a + x.t.piece_len(i)]
                g = got[a:a + len(e)]
                st = "good" if g == e else "gap" if g.count(0) == len(g) else "bad" if foreign_bytes(g, e) else "partial"
                if pst.get((x.idx, i), "gap") != st:
                    pst[(x.idx, i)] = st
                    w.ev("disk", h=x.idx, p=i, st=st)
    seen = {}

    def changed():
        hit = False
        for x in w.ts:
            m = []
            for rel, _ in x.t.expected_files():
                try:
                    q = os.stat(os.path.join(w.cwd, rel))
                    m.append((q.st_mtime_ns, q.st_size))
                except OSError:
                    m.append(0)
            if seen.get(x.idx, [0] * len(m)) != m:
                seen[x.idx] = m
                hit = True
        return hit

    async def watch():
        while True:
            if changed():
                disk()
            await asyncio.sleep(0.01)
    w.tasks.append(asyncio.create_task(watch()))
    res = {"reached": True, "runs": []}
    for r, run in enumerate(P["runs"]):
        for op in run.get("damage", []):
            store.damage(op)
        if run.get("wipe"):
            store.wipe(run["wipe"])
            changed()
            disk()
        for x in w.ts:
            x.sess = []
        w.start()
        w.ev("run", i=r)
        if not await w.ready():
            res["error"] = "the client did not start: " + repr(w.panics())
            res["log"] = w.log
            return res
        mark = len(w.log)
        cond = run.get("kill")
        fired = asyncio.Event()

        async def killer():
            on, n = cond["on"], cond.get("n", 1)
            base = set(store.copies())
            k, pos = 0, mark
            t0 = time.monotonic()
            while True:
                if on == "time":
                    if time.monotonic() - t0 >= cond["t"]:
                        break
                elif on == "copy":          # the copy appears or grows
                    if [p for p in store.copies() if p not in base or os.stat(p).st_size == 0]:
                        break
                elif on == "write":
                    if changed():
                        k += 1
                    while pos < len(w.log):
                        k += w.log[pos]["e"] == "disk"
                        pos += 1
                    if k >= n:
                        break
                else:
                    while pos < len(w.log):
                        e = w.log[pos]
                        pos += 1
                        if (e["e"] == "rx" and e["m"]["t"] == on) or e["e"] == on:
                            k += 1
                    if k >= n:
                        break
                await asyncio.sleep(0.0005)
            if cond.get("after"):
                await asyncio.sleep(cond["after"])
            w.kill()
            fired.set()
        kt = asyncio.create_task(killer()) if cond else None
        adds = run.get("adds", [[0]])        # groups of additions: [[delay, ...], ...] per torrent alike
        sts = []

        async def add(x, d):
            await asyncio.sleep(d)
            if w.died is None:
                w.ev("add", h=x.idx)
                sts.append(await w.post(x.t.magnet("&dn=x"), timeout=20))
        at = [asyncio.create_task(add(x, d)) for x in w.ts for d in adds[x.idx % len(adds)]]

        def complete():
            if any(not t.done() for t in at) or w.open_sessions():
                return False
            for x in w.ts:
                for rel, exp in x.t.expected_files():
                    try:
                        with regular(os.path.join(w.cwd, rel)) as f:
                            if f.read() != exp:
                                return False
                    except OSError:
                        return False
            return True
        if cond:
            try:
                await asyncio.wait_for(fired.wait(), run.get("timeout", 20))
            except asyncio.TimeoutError:
                w.kill()
            kt.cancel()
            died = w.died
            ok = complete()
        else:
            ok = True
            t0 = time.monotonic()
            while time.monotonic() - t0 < run.get("timeout", 30):
                # every piece has to be asked for and served once more in each run before the end is meant to be reached
                if complete() and all(len({c.piece for c in x.sess if c.piece is not None and c.eof}) >= x.t.npieces for x in w.ts):
                    break
                if w.died is not None:
                    ok = False
                    break
                await asyncio.sleep(0.02)
            else:
                ok = complete()
            await w.quiesce(0.35, 10)
            ok = ok and complete()
            disk()
            died = w.died
            w.ev("end", i=r, ok=ok)
            w.kill()
        for t in at:
            t.cancel()
        await asyncio.sleep(0.1)             # what the kill leaves in our queues
        changed()
        disk()
        for c in list(w.conns.values()):
            if not c.eof:
                c.rst()
        res["runs"].append({"ok": ok, "killed": bool(cond), "died": died, "st": sts, "copies": [os.path.getsize(p) for p in store.copies() if os.path.isfile(p)]})
        if not cond and not ok:
            res["reached"] = False
            break
        if died is not None and died != "killed":
            break
    res.update(result(w))
    res["alive"] = True
    await w.shutdown()
    return res
