"""Runs TLC on the modules in /verif/spec and reads its verdict."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from .build import BUILD, VERIF, ToolError

SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(type(v))


class Result:
    def __init__(self):
        self.rc = None
        self.out = ""
        self.states = self.distinct = self.depth = 0
        self.printed = []
        self.violated = None       # name of the violated invariant/property, or None
        self.error = None
        self.coverage = {}

    @property
    def ok(self):
        return self.violated is None and self.error is None


def run(module, constants=None, invariants=(), properties=(), spec="Spec", postcondition=None, constraint=None,
        deadlock=False, workers=4, timeout=600, simulate=None, seed=1, files=None, view=None, dfs=False,
        symmetry=None, heap="3g", init=None, nxt=None, coverage=False, depth=None, action_constraint=None):
    """Model-check `module`.  `constants` are put in the cfg as a wrapper module's definitions so that any
    TLA+ value can be given."""
    constants = constants or {}
    d = tempfile.mkdtemp(prefix="tlc-", dir=_scratch())
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, data in (files or {}).items():
            with open(os.path.join(d, name), "w") as f:
                f.write(data)
        mc = "MC_" + module
        with open(os.path.join(d, mc + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS %s\n" % (mc, module))
            for k, v in constants.items():
                f.write("mc_%s == %s\n" % (k, v if isinstance(v, Raw) else tla(v)))
            f.write("====\n")
        with open(os.path.join(d, mc + ".cfg"), "w") as f:
            if init:
                f.write("INIT %s\nNEXT %s\n" % (init, nxt))
            else:
                f.write("SPECIFICATION %s\n" % spec)
            if constants:
                f.write("CONSTANTS\n")
                for k in constants:
                    f.write("  %s <- mc_%s\n" % (k, k))
            for i in invariants:
                f.write("INVARIANT %s\n" % i)
            for p in properties:
                f.write("PROPERTY %s\n" % p)
            if postcondition:
                f.write("POSTCONDITION %s\n" % postcondition)
            if constraint:
                f.write("CONSTRAINT %s\n" % constraint)
            if action_constraint:
                f.write("ACTION_CONSTRAINT %s\n" % action_constraint)
            if view:
                f.write("VIEW %s\n" % view)
            if symmetry:
                f.write("SYMMETRY %s\n" % symmetry)
            f.write("CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE"))
        cmd = ["timeout", "-k", "5", str(timeout), "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d,
               "-XX:ParallelGCThreads=%d" % max(2, min(4, workers)), "-XX:CICompilerCount=3"]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", CP, "tlc2.TLC", "-metadir", os.path.join(d, "states"), "-workers", str(workers),
                "-seed", str(seed), "-config", mc + ".cfg", "-noGenerateSpecTE"]
        if coverage:
            cmd += ["-coverage", "1"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd.append(mc + ".tla")
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace")
        r = parse(p.stdout)
        r.rc = p.returncode
        if p.returncode == 124:
            r.error = "timeout after %ss" % timeout
        if r.rc not in (0, 10, 11, 12, 13, 14) and not r.error and not r.violated and not simulate:
            r.error = "TLC exited with %d: %s" % (r.rc, p.stdout[-3000:])
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Raw(str):
    """A TLA+ expression, taken as it is."""


def _scratch():
    d = os.path.join(BUILD, "tlc")
    os.makedirs(d, exist_ok=True)
    return d


def parse(out):
    r = Result()
    r.out = out
    for line in out.splitlines():
        if line.startswith('"@@'):
            try:
                r.printed.append(json.loads(json.loads(line)[2:]))
            except ValueError:
                raise ToolError("unreadable TLC line: " + line[:300])
            continue
        m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
        if m:
            r.states, r.distinct = int(m.group(1)), int(m.group(2))
        m = re.match(r"The depth of the complete state graph search is (\d+)", line)
        if m:
            r.depth = int(m.group(1))
        m = re.match(r"Error: Invariant (\S+) is violated", line)
        if m:
            r.violated = m.group(1)
        if line.startswith("Error: Deadlock reached"):
            r.violated = "Deadlock"
        if "Error: Temporal properties were violated" in line:
            r.violated = "Liveness"
        m = re.match(r"Error: Action property (\S+) is violated", line)
        if m:
            r.violated = m.group(1)
        m = re.match(r"Error: (?:Postcondition|The postcondition) (\S+)", line)
        if m or "ostcondition" in line and "Error" in line:
            r.violated = "Postcondition"
        m = re.match(r"<(\w+) line (\d+).*>: (\d+):(\d+)", line)
        if m:
            r.coverage[m.group(1)] = max(r.coverage.get(m.group(1), 0), int(m.group(4)))
        if (line.startswith("Error:") or "***Parse Error***" in line or line.startswith("Semantic error")) \
                and r.violated is None and r.error is None and "behavior up to this point" not in line:
            r.error = line
    if r.error:
        i = out.find(r.error)
        r.error = out[i:i + 2500]
    return r


def tmo():
    return os.environ.get("VERIF_TIER", "quick") == "thorough"
