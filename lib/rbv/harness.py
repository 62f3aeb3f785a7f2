"""Runs requests through a harness binary (functions of /repo compiled in), as an unprivileged user in a scratch
directory; a crash or a hang of the code under test is a result."""
import json
import os
import select
import shutil
import subprocess
import tempfile
import threading

from . import sandbox


def _limits(mb):
    import resource

    def f():
        sandbox._drop()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (mb << 20, mb << 20))
    return f


class Harness:
    def __init__(self, binary, mem_mb=2048):
        self.d = tempfile.mkdtemp(prefix="rbvh-", dir="/tmp")
        os.chmod(self.d, 0o755)
        shutil.copy(binary, os.path.join(self.d, "h"))
        os.chmod(os.path.join(self.d, "h"), 0o755)
        self.w = os.path.join(self.d, "w")
        os.mkdir(self.w)
        os.chown(self.w, sandbox.NOBODY, sandbox.NOBODY)
        self.mem = mem_mb

    def close(self):
        subprocess.run(["chmod", "-R", "u+rwX", self.d], check=False)
        shutil.rmtree(self.d, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _start(self):
        return subprocess.Popen([os.path.join(self.d, "h")], cwd=self.w, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                stderr=subprocess.DEVNULL, env={"PATH": "/usr/bin:/bin"}, preexec_fn=_limits(self.mem))

    def run(self, reqs, timeout=10):
        """-> one reply per request; {"died": rc} and {"hang": true} are replies."""
        out = []
        while len(out) < len(reqs):
            p = self._start()
            todo = reqs[len(out):]

            def feed(p=p, todo=todo):
                try:
                    for r in todo:
                        p.stdin.write(json.dumps(r).encode() + b"\n")
                    p.stdin.close()
                except OSError:
                    pass
            th = threading.Thread(target=feed, daemon=True)
            th.start()
            buf = b""
            while len(out) < len(reqs):
                i = buf.find(b"\n")
                if i >= 0:
                    lines = buf.split(b"\n")
                    buf = lines.pop()
                    out += [json.loads(x) for x in lines]
                    continue
                r, _, _ = select.select([p.stdout], [], [], timeout)
                if not r:
                    p.kill()
                    out.append({"hang": True})
                    break
                d = os.read(p.stdout.fileno(), 1 << 20)
                if not d:
                    out.append({"died": p.wait()})
                    break
                buf += d
            p.kill()
            p.wait()
            th.join(5)
            p.stdout.close()
        return out[:len(reqs)]


def run(binary, reqs, timeout=10, parallel=4):
    """Split over several processes."""
    from concurrent.futures import ThreadPoolExecutor
    if not reqs:
        return []
    n = max(1, min(parallel, len(reqs) // 200 + 1))
    k = (len(reqs) + n - 1) // n

    def one(part):
        with Harness(binary) as h:
            return h.run(part, timeout)
    with ThreadPoolExecutor(n) as ex:
        return [x for part in ex.map(one, [reqs[i:i + k] for i in range(0, len(reqs), k)]) for x in part]
