"""Many torrents in one client, some of which cannot make progress."""
import asyncio
import os
from urllib.parse import unquote_to_bytes

from .swarm import Swarm, result
from .world import parse_udp


class Many(Swarm):
    def __init__(self, job):
        super().__init__(job)
        self.tr = []
        self.ids = {}
        self.nlog = 0

    def id(self, ep):
        return self.ids.setdefault(ep, len(self.ids) + 1)

    def put(self, e, **kw):
        self.tr.append(dict({"e": e, "t": self.ev("many")["t"]}, **kw))
        self.log.pop()

    def track(self, trk, data, addr):
        m = parse_udp(data)
        if m["t"] == "announce":
            x = self.byhash.get(bytes.fromhex(m["hash"]))
            if x is not None:
                for ip, port in self.endpoints(x, trk.idx):
                    self.put("list", h=x.idx + 1, p=self.id(ip))
        super().track(trk, data, addr)

    async def peer(self, conn):
        x = self.byhash.get(conn.hs)
        self.put("sess", h=x.idx + 1 if x else 0, p=self.id(conn.ep))
        await super().peer(conn)


async def together(job):
    w = Many(job)
    P = w.P
    spec = P["torrents"]
    for t in spec:
        for d in t.get("dirs", []):
            os.makedirs(os.path.join(w.cwd, d), exist_ok=True)
        for f in t.get("files_in_the_way", []):
            with open(os.path.join(w.cwd, f), "wb"):
                pass
        for f in t.get("fifos", []):           # writing to it takes for ever
            os.mkfifo(os.path.join(w.cwd, f))
    before = {f for t in spec for f in t.get("fifos", [])} | set(w.tree()) | {"test.log"}
    await w.up()
    w.start()
    if not await w.ready():
        return {"error": "the client did not start: " + repr(w.panics())}
    cache = {}
    for x in w.ts:
        for rel, _ in x.t.expected_files():
            cache.setdefault(rel, set()).add(x.idx + 1)
    seen, done = set(before), set()

    def look():
        for d, _, fs in os.walk(w.cwd):
            for f in fs:
                rel = os.path.relpath(os.path.join(d, f), w.cwd)
                if rel in seen:
                    continue
                seen.add(rel)
                own = cache.get(rel)
                if own is None:       # the saved metadata
                    own = {x.idx + 1 for x in w.ts if x.t.info_hash.hex() in rel.lower() or x.t.info_hash == unquote_to_bytes(os.path.basename(rel))}
                w.put("disk", h=min(own) if own else 0, path=rel)
        for x in w.ts:
            if x.idx in done or spec[x.idx].get("fifos"):
                continue
            ok = True
            for rel, exp in x.t.expected_files():
                try:
                    with open(os.path.join(w.cwd, rel), "rb") as f:
                        ok = ok and f.read() == exp
                except OSError:
                    ok = False
                if not ok:
                    break
            if ok:
                done.add(x.idx)
                w.put("done", h=x.idx + 1)

    async def watch():
        while True:
            look()
            await asyncio.sleep(0.03)
    w.tasks.append(asyncio.create_task(watch()))
    D = P.get("due", 15)
    n = 0

    async def post(x):
        t = w.ev("a")["t"]
        w.log.pop()
        w.put("post", h=x.idx + 1)
        st = await w.post(x.t.magnet("&dn=x"), timeout=D)
        w.put("posted", h=x.idx + 1, ok=200 <= st < 300, st=st)
        await asyncio.sleep(max(0, D - (w.log[-1]["t"] - t)))
        if x.idx not in done:
            await asyncio.sleep(0.2)
            look()
        w.put("due", h=x.idx + 1)
    tasks = []
    for wave in P["waves"]:
        for i in wave["post"]:
            tasks.append(asyncio.create_task(post(w.ts[i])))
            await asyncio.sleep(wave.get("gap", 0.02))
        await asyncio.sleep(wave.get("wait", 0.5))
    good = [i for i, t in enumerate(spec) if not t.get("doomed")]

    # all is decided as soon as everything that can be done is done
    await w.until(lambda: all(t.done() for t in tasks) or all(i in done for i in good), D + 30, 0.1)
    await asyncio.sleep(P.get("extra", 2.5))
    for t in tasks:
        t.cancel()
    fin = {e["h"] for e in w.tr if e["e"] == "due"}
    for i in good:
        if i + 1 not in fin and i in done:
            w.put("due", h=i + 1)
    lag = [e["d"] for e in w.log if e["e"] == "lag" and e["d"] > 0.3]
    alive = w.died is None
    w.ev("end")
    w.kill()
    look()
    res = result(w)
    foreign = [(h, f) for h, fs in enumerate(res["files"]) for f in fs if f["foreign"] or (f["len"] or 0) > f["want"]]
    out = {"ev": w.tr, "good": [i + 1 for i in good], "panics": res["panics"], "died": res["died"], "alive": alive, "lag": lag, "foreign": foreign, "rss_mb": res["rss_mb"], "envbug": res["envbug"],
           "span": w.log[-1]["t"], "took": {e["h"]: e["t"] for e in w.tr if e["e"] == "done"}, "log": w.log if P.get("keep") else []}
    await w.shutdown()
    return out
