"""HTTP trackers that answer anything, around the client code compiled into h_tracker (argument "bin")."""
import asyncio
import gzip
import json
import subprocess
import zlib


async def exchanges(job):
    P = job["params"]
    subprocess.run(["ip", "link", "set", "lo", "up"], check=True)
    subprocess.run(["ip", "route", "add", "local", "0.0.0.0/0", "dev", "lo"], check=True)
    cur = {}
    keep = []

    async def serve(r, w):
        cur["conns"] += 1
        how, body = cur["how"], cur["body"]
        if how == "closeearly":
            w.close()
            return
        if how == "deaf":
            keep.append(w)
            return
        head = b""
        try:
            while b"\r\n\r\n" not in head:
                d = await r.read(65536)
                if not d:
                    return
                head += d
        except OSError:
            return
        lines = head.split(b"\r\n")
        f = lines[0].split(b" ")
        hd = {l.split(b":", 1)[0].strip().lower(): l.split(b":", 1)[1].strip() for l in lines[1:] if b":" in l}
        cur["req"] = {"method": list(f[0]), "target": list(f[1]) if len(f) > 1 else [], "host": list(hd.get(b"host", b""))}
        acc = hd.get(b"accept-encoding", b"").lower()

        async def put(x):
            w.write(x)
            await w.drain()

        def hdr(st=200, extra=b"", n=None):
            return b"HTTP/1.1 %d %s\r\nContent-Type: text/plain\r\n" % (st, b"OK" if st == 200 else b"Whatever") + (b"Content-Length: %d\r\n" % n if n is not None else b"") + extra + b"\r\n"
        try:
            if how == "length":
                await put(hdr(n=len(body)) + body)
            elif how == "length0":         # with the connection kept open
                await put(hdr(n=len(body)) + body)
                keep.append(w)
                return
            elif how == "close":
                await put(hdr(extra=b"Connection: close\r\n") + body)
            elif how == "http10":
                await put(b"HTTP/1.0 200 OK\r\n\r\n" + body)
            elif how == "chunked":
                x, out = body, b""
                k = 1
                while x:
                    out += b"%x\r\n" % len(x[:k]) + x[:k] + b"\r\n"
                    x = x[k:]
                    k = k * 2 + 1
                await put(hdr(extra=b"Transfer-Encoding: chunked\r\n") + out + b"0\r\n\r\n")
            elif how == "split":
                data = hdr(n=len(body)) + body
                k = max(1, len(data) // 5)
                for i in range(0, len(data), k):
                    await put(data[i:i + k])
                    await asyncio.sleep(0.02)
            elif how == "coded":           # in the best encoding the client says it takes
                if b"deflate" in acc:
                    b = zlib.compress(body)
                    await put(hdr(extra=b"Content-Encoding: deflate\r\n", n=len(b)) + b)
                elif b"gzip" in acc:
                    b = gzip.compress(body)
                    await put(hdr(extra=b"Content-Encoding: gzip\r\n", n=len(b)) + b)
                else:
                    await put(hdr(n=len(body)) + body)
            elif how.startswith("status:"):
                await put(hdr(int(how[7:]), n=len(body)) + body)
            elif how == "silent":
                keep.append(w)
                return
            elif how == "headsilent":
                await put(hdr(n=max(len(body), 30)))
                keep.append(w)
                return
            elif how == "halfsilent":
                await put(hdr(n=len(body)) + body[:len(body) // 2])
                keep.append(w)
                return
            elif how == "drip":
                await put(hdr(n=len(body) + 100))
                for i in range(80):
                    await put(body[i:i + 1] or b"x")
                    await asyncio.sleep(0.1)
            elif how == "headdrip":
                for i in range(80):
                    await put((b"HTTP/1.1 200 OK\r\nX-Filler: " + b"y" * 200)[i:i + 1])
                    await asyncio.sleep(0.1)
            elif how == "cut":
                await put(hdr(n=len(body) + 50) + body)
            elif how == "cuthead":
                await put(hdr(n=len(body))[:-9])
            elif how == "cutchunk":
                await put(hdr(extra=b"Transfer-Encoding: chunked\r\n") + b"%x\r\n" % (len(body) + 5) + body)
            elif how == "nothttp":
                await put(body)
            elif how == "badlength":
                await put(b"HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n" + body)
            elif how == "hugelength":
                await put(b"HTTP/1.1 200 OK\r\nContent-Length: 18446744073709551615\r\n\r\n" + body)
            elif how == "late":
                await asyncio.sleep(1.5)
                await put(hdr(n=len(body)) + body)
        except OSError:
            pass
        w.close()
    srv = await asyncio.start_server(serve, "0.0.0.0", 8000, backlog=200)
    p = await asyncio.create_subprocess_exec(job["bin"], stdin=asyncio.subprocess.PIPE, stdout=asyncio.subprocess.PIPE, stderr=asyncio.subprocess.DEVNULL, limit=1 << 26)
    out = []
    for x in P["cases"]:
        cur.clear()
        cur.update(how=x["how"], body=bytes.fromhex(x["body"]), conns=0, req=None)
        try:
            p.stdin.write(json.dumps({"url": x["url"], "hash": x["hash"]}).encode() + b"\n")
            await p.stdin.drain()
            line = await asyncio.wait_for(p.stdout.readline(), 12)
            rep = json.loads(line) if line else {"died": await p.wait()}
        except asyncio.TimeoutError:
            rep = {"hang": True}
        except (OSError, ValueError) as e:
            rep = {"died": repr(e)}
        out.append({"rep": rep, "req": cur["req"], "conns": cur["conns"]})
        for w in keep:
            w.close()
        keep.clear()
        if "died" in rep or "hang" in rep:
            if p.returncode is None:
                p.kill()
            await p.wait()
            p = await asyncio.create_subprocess_exec(job["bin"], stdin=asyncio.subprocess.PIPE, stdout=asyncio.subprocess.PIPE, stderr=asyncio.subprocess.DEVNULL, limit=1 << 26)
    if p.returncode is None:
        p.kill()
    srv.close()
    return {"out": out}
