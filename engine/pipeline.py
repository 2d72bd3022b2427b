"""Builds the fact extractor and the regex helper, compiles witness crates against /repo's current tree and loads facts."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(ROOT, ".work")
REPO = os.environ.get("PD_REPO", "/repo")
TGT = os.path.join(WORK, "tgt")
NIGHTLY = "+nightly"


class Broken(Exception):
    """the tree (or the toolchain) does not build: no verdict"""


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = sh(["rustc", NIGHTLY, "--print", "sysroot"]).stdout.strip()
    return _sysroot


def stamp(path, out):
    h = hashlib.sha256(open(path, "rb").read()).hexdigest()
    s = out + ".stamp"
    return os.path.exists(out) and os.path.exists(s) and open(s).read() == h, h, s


def driver():
    os.makedirs(WORK, exist_ok=True)
    src, out = os.path.join(ROOT, "driver/main.rs"), os.path.join(WORK, "pdmir")
    ok, h, s = stamp(src, out)
    if not ok:
        r = sh(["rustc", NIGHTLY, "-O", "--edition", "2024", src, "-o", out], cwd=WORK)
        if r.returncode:
            raise Broken("driver: " + r.stderr[-2000:])
        open(s, "w").write(h)
    return out


def rx_exe():
    src, out = os.path.join(ROOT, "rx/src/main.rs"), os.path.join(WORK, "rxt/debug/rx")
    ok, h, s = stamp(src, out)
    if not ok:
        r = sh(["cargo", "build", "--offline", "--quiet", "--target-dir", os.path.join(WORK, "rxt")],
               cwd=os.path.join(ROOT, "rx"), env=dict(os.environ, CARGO_NET_OFFLINE="true"))
        if r.returncode:
            raise Broken("rx: " + r.stderr[-2000:])
        open(s, "w").write(h)
    return out


def env(dump, out):
    e = dict(os.environ)
    e.update(PD_SYSROOT=sysroot(), LD_LIBRARY_PATH=sysroot() + "/lib", RUSTC_WRAPPER=driver(), PD_OUT=out, PD_DUMP=",".join(dump),
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e.pop("RUSTFLAGS", None)
    return e


class RepoBroken(Broken):
    """an error inside the repository's own crates"""


PKGS = ("parse-display", "parse_display", "wit")


def forget(tgt=TGT):
    """cargo must look at the repository's crates afresh, whatever file times say"""
    for p in glob.glob(os.path.join(tgt, "debug/.fingerprint/*")) + glob.glob(os.path.join(tgt, "debug/build/*")):
        if os.path.basename(p).startswith(PKGS):
            shutil.rmtree(p, ignore_errors=True)


CARGO = '''[package]
name = "{name}"
version = "0.0.0"
edition = "{edition}"
[lib]
path = "src/lib.rs"
[dependencies]
{deps}
[profile.dev]
debug = 1
incremental = false
{extra}
[workspace]
'''


def deps(std=True, with_=True):
    f = "" if std else ", default-features = false"
    d = f'parse-display = {{ path = "{REPO}/parse-display"{f} }}\n'
    if with_:
        d += f'parse-display-with = {{ path = "{REPO}/parse-display-with"{"" if std else ", default-features = false"} }}\n'
    return d


def crate(name, src, dep=None, edition="2024", extra="", sub="wit"):
    d = os.path.join(WORK, sub, name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    open(os.path.join(d, "Cargo.toml"), "w").write(CARGO.format(name=name, deps=dep if dep is not None else deps(), edition=edition, extra=extra))
    open(os.path.join(d, "src/lib.rs"), "w").write(src)
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    return d


def check(d, name, dump=(), tgt=TGT, features=()):
    """-> (ok, [error dicts {line, msg, panic}], raw stderr)"""
    out = os.path.join(WORK, "out")
    os.makedirs(out, exist_ok=True)
    cmd = ["cargo", NIGHTLY, "check", "--offline", "--target-dir", tgt, "--message-format=json"]
    r = sh(cmd, cwd=d, env=env(dump, out))
    errs = []
    other = []
    for line in r.stdout.split("\n"):
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-message":
            msg = m["message"]
            if msg["level"].startswith("error"):
                if m["target"]["name"].replace("-", "_") == name.replace("-", "_"):
                    errs.append(msg)
                else:
                    other.append(msg)
    if other:
        raise RepoBroken("the repository does not compile: " + other[0].get("rendered", "")[:1500])
    if r.returncode and not errs:
        raise Broken("cargo: " + r.stderr[-2500:])
    return r.returncode == 0, errs, r.stderr


def err_lines(msg):
    """lines of src/lib.rs an error (or the macro call it comes from) points at"""
    ls = set()

    def sp(s):
        if s["file_name"].endswith("src/lib.rs") and "/repo/" not in s["file_name"]:
            ls.add((s["line_start"], s["line_end"]))
        if s.get("expansion"):
            sp(s["expansion"]["span"])
    for s in msg["spans"]:
        if s["is_primary"]:
            sp(s)
    for c in msg.get("children", []):
        pass
    return ls


def facts(name):
    return os.path.join(WORK, "out", name.replace("-", "_") + ".json")
