"""Builds rust_bit from /repo's current working tree (never from a copy)."""
import glob
import os
import re
import shutil
import subprocess
import sys

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = os.path.join(VERIF, "build")


class ToolError(Exception):
    """The check itself could not run (exit 2)."""


def cargo_env(target):
    e = dict(os.environ)
    e.update({"HOME": "/root", "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true",
              "CARGO_INCREMENTAL": "1", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "CARGO_TERM_COLOR": "never",
              "RUSTC_WRAPPER": "", "CARGO_TARGET_DIR": target})
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e.pop("RUSTFLAGS", None)
    return e


def _cargo(args, cwd, target):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=cargo_env(target), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("cargo %s failed in %s:\n%s" % (" ".join(args), cwd, p.stdout[-4000:]))


def binary():
    """Path of the rust_bit executable built from /repo."""
    target = os.path.join(BUILD, "repo")
    os.makedirs(target, exist_ok=True)
    for f in glob.glob(os.path.join(target, "debug/.fingerprint/rust_bit-*")):
        shutil.rmtree(f, ignore_errors=True)
    _cargo(["build", "--offline", "--bin", "rust_bit"], REPO, target)
    return os.path.join(target, "debug", "rust_bit")


def harness(name):
    """Path of a harness binary with /repo's modules compiled in, or None if they do not fit it (the functions it
    calls are not there in this shape): the check then rests on the whole program alone."""
    target = os.path.join(BUILD, "repo")
    os.makedirs(target, exist_ok=True)
    for f in glob.glob(os.path.join(target, "debug/.fingerprint/harness-*")):
        shutil.rmtree(f, ignore_errors=True)
    try:
        _cargo(["build", "--offline", "--bin", name], os.path.join(VERIF, "harness"), target)
    except ToolError as e:
        print("note: harness %s does not build on this tree, using the whole program only\n%s" % (name, str(e)[-1500:]), flush=True)
        return None
    return os.path.join(target, "debug", name)


def tracker_urls():
    """The trackers hard-coded in the source: the addresses the environment has to answer on."""
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if f.endswith(".rs"):
                s = open(os.path.join(d, f), errors="replace").read()
                for m in re.finditer(r"\"udp://(\d+\.\d+\.\d+\.\d+):(\d+)", s):
                    a = (m.group(1), int(m.group(2)))
                    if a not in out:
                        out.append(a)
    return out
