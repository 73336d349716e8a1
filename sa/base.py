"""Shared machinery of the checks: dumping the crates, obligations, scenario helpers."""
import fcntl
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MSREPO", "/repo")
BUILD = os.environ.get("MSBUILD", os.path.join(VERIF, ".build"))
sys.path.insert(0, os.path.join(VERIF, "sa"))
sys.setrecursionlimit(20000)

from mir import Prog  # noqa
from ai import Interp, State, strip_ty, ty_head  # noqa
from terms import *  # noqa
import models  # noqa


class Infra(Exception):
    """the analysis could not be carried out"""


class NotBuilding(Exception):
    pass


def env0():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    return e


def sysroot():
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env0(), capture_output=True, text=True)
    return r.stdout.strip()


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(BUILD, "msdump")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    tmp = out + f".{os.getpid()}"
    r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", tmp], env=env0(), capture_output=True, text=True)
    if r.returncode:
        raise Infra("driver does not build: " + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


_dumps = {}


def dump(crate, features=None):
    """MIR of /repo/<crate>, from the current working tree"""
    key = (crate, features)
    if key in _dumps:
        return _dumps[key]
    dev = os.environ.get("MSDUMP_DEV")
    if dev:      # development aid only: a directory with ready-made dumps
        _dumps[key] = Prog(os.path.join(dev, crate + ".json"))
        return _dumps[key]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        drv = build_driver()
        tag = crate + ("-" + features if features else "")
        tdir = os.path.join(BUILD, "t_" + tag)
        # a fresh target would skip the wrapper: forget everything cargo knows about this repository's crates
        for d, ds, fs in os.walk(tdir):
            for x in list(ds):
                if "toollib" in x:
                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                    ds.remove(x)
            for x in fs:
                if "toollib" in x:
                    os.remove(os.path.join(d, x))
        out = os.path.join(BUILD, f"dump_{tag}_{os.getpid()}.json")
        if os.path.exists(out):
            os.remove(out)
        e = env0()
        e.update(LD_LIBRARY_PATH=sysroot() + "/lib", RUSTC_WORKSPACE_WRAPPER=drv, MSDUMP_CRATE="ms_toollib",
                 MSDUMP_DIR=os.path.join(REPO, crate), MSDUMP_OUT=out, CARGO_TARGET_DIR=tdir)
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib"]
        if features:
            cmd += ["--no-default-features", "--features", features]
        r = subprocess.run(cmd, cwd=os.path.join(REPO, crate), env=e, capture_output=True, text=True)
        if not os.path.exists(out):
            raise Infra(f"{crate}: no dump: " + r.stderr[-3000:])
        p = Prog(out)
        os.remove(out)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    _dumps[key] = p
    return p


class Ck:
    """collects the obligations of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.obs = []
        self.notes = []
        self.analysed = set()
        self.steps = 0
        self.paths = 0
        self.assumptions = []
        self.rule = ""
        self.unmodelled = {}

    def ob(self, key, ok, detail="", where=""):
        self.obs.append((key, bool(ok), detail if isinstance(detail, str) else str(detail), where))
        return ok

    def fail(self, key, detail="", where=""):
        return self.ob(key, False, detail, where)

    def use(self, I, exits=()):
        self.analysed |= I.fn_inlined
        self.steps += I.steps
        self.paths += len(exits)
        for k, v in I.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v

    def floor(self, what, n, least):
        """fail closed when fewer instances than counted by hand were found"""
        return self.ob(f"floor:{what}", n >= least, f"{what}: {n} instances found, at least {least} expected")


def fn_named(p, suffix, impl=None):
    """the function whose resolved path ends with suffix (a public entry point)"""
    c = [f for n, f in p.fns.items() if f.kind in ("Fn", "AssocFn") and (n == suffix or n.endswith("::" + suffix))]
    if impl is not None:
        c = [f for f in c if f.impl_self and re.search(impl, f.impl_self)]
    if not c:
        raise Infra(f"entry point {suffix} not found")
    return c[0]


def fld(I, st, *path, root=("P", "self")):
    return I.read(st, root, tuple(("F", x) for x in path))


def setfld(I, st, path, v, root=("P", "self")):
    I.write(st, root, tuple(("F", x) for x in path), v)


def enumv(ty, v):
    return S(ty, v, {})


def variant(I, st, v):
    return I.variant_of(st, v)


def same(I, st, a, b):
    if a is b:
        return True
    r = I.ev(st, teq(a, b))
    return r is True


def okv(v):
    """payload of Ok(..), None otherwise"""
    if v.op == "S" and v.args[1] == "Ok":
        return get_field(v, "Ok.0")
    return None


def is_err(v):
    return v.op == "S" and v.args[1] == "Err"


def loc(f, line=None):
    return f"{f.file}:{line or f.line} {f.name}"
