"""Runs scenario functions inside a private user+network namespace, as an unprivileged user."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

LIB = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOBODY = 65534


def _drop():
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)
    os.umask(0o022)


def launch(scenario, params, binary, timeout=120):
    """-> (Popen, handle).  `scenario` is 'module:function' under rbv."""
    d = tempfile.mkdtemp(prefix="rbv-", dir="/tmp")
    os.chmod(d, 0o755)
    # by another process: an open descriptor of ours, inherited by a concurrent fork, would make the file "busy"
    subprocess.run(["cp", binary, os.path.join(d, "rust_bit")], check=True)
    os.chmod(os.path.join(d, "rust_bit"), 0o755)
    w = os.path.join(d, "w")
    os.mkdir(w)
    job = {"dir": w, "bin": os.path.join(d, "rust_bit"), "scenario": scenario, "params": params,
           "out": os.path.join(w, "out.json")}
    job.update(params.get("job", {}))
    with open(os.path.join(w, "job.json"), "w") as f:
        json.dump(job, f)
    os.chown(w, NOBODY, NOBODY)
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONPATH": LIB, "PYTHONDONTWRITEBYTECODE": "1",
           "HOME": w, "LANG": "C.UTF-8"}
    p = subprocess.Popen(["timeout", "-k", "5", str(timeout), "unshare", "-Urn", sys.executable, "-m",
                          "rbv.nsrun", os.path.join(w, "job.json")],
                         cwd=w, env=env, preexec_fn=_drop, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    return p, (d, job)


def collect(p, handle):
    d, job = handle
    out, _ = p.communicate()
    try:
        with open(job["out"]) as f:
            res = json.load(f)
    except (OSError, ValueError):
        res = {"error": "scenario produced no result (rc=%s): %s" % (p.returncode,
                                                                     out.decode(errors="replace")[-3000:])}
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    subprocess.run(["chmod", "-R", "u+rwX", d], check=False)
    shutil.rmtree(d, ignore_errors=True)
    return res


def run_all(jobs, binary, parallel=6, timeout=120):
    """jobs: [(scenario, params)] -> [result], at most `parallel` at a time, results in order."""
    from concurrent.futures import ThreadPoolExecutor

    def one(j):
        p, h = launch(j[0], j[1], binary, timeout)
        return collect(p, h)
    with ThreadPoolExecutor(parallel) as ex:
        return list(ex.map(one, jobs))
