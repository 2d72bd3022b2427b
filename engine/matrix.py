"""Analyses pools of witness types against the reference semantics, in parallel."""
import multiprocessing
import os
import re
import resource
import signal

import check as C
import curated
import gen
import model as M
import pipeline as P
from absint import Prog, Unsupported

HEAD = "#![allow(warnings)]\nuse parse_display::{Display, FromStr};\n" + M.USR + "\n"


class Res:
    """what one impl of one witness came to"""
    __slots__ = ("w", "impl", "findings", "undecided", "stats", "src")

    def __init__(self, w, impl, findings=(), undecided=None, stats=None):
        self.w = w
        self.impl = impl
        self.findings = list(findings)
        self.undecided = undecided
        self.stats = stats or {}


class CompileFail:
    def __init__(self, w, text, sp):
        self.w = w
        self.text = text
        self.sp = sp


def layout(ws, head=HEAD, show=M.rust, tail=""):
    src, at = [head], []
    line = head.count("\n") + 1
    for w in ws:
        r = show(w) + "\n"
        n = r.count("\n")
        at.append((line, line + n - 1))
        line += n
        src.append(r)
    return "".join(src) + tail, at


CRASH = re.compile(r"has overflowed its stack|signal: (6|9|11)\b|SIGABRT|SIGSEGV")


def crashed(name, ws, head, fails, why, **k):
    """the compiler dies: look for the witnesses whose expansion does that, by halves and with a limit"""
    good, todo, left = [], [ws], 60
    while todo:
        part = todo.pop()
        if left <= 0:
            continue                                  # not looked at: neither good nor bad
        left -= 1
        try:
            src, _ = layout(part, head, k.get("show", M.rust), k.get("tail", ""))
            P.check(P.crate(name, src, dep=k.get("dep"), edition=k.get("edition", "2024"), extra=k.get("extra", "")), name)
            good += part
        except P.RepoBroken:
            raise
        except P.Broken as x:
            if not CRASH.search(str(x)):
                raise
            if len(part) == 1:
                fails.append(CompileFail(part[0], "the compiler crashes while it expands this type: " + CRASH.search(str(x)).group(0), None))
            else:
                todo += [part[len(part) // 2:], part[:len(part) // 2]]
    if not good:
        return [], fails
    g, f = compile(name, good, head, **k)
    return g, fails + f


def compile(name, ws, head=HEAD, depth=0, **k):
    """-> (witnesses that compile, [CompileFail]); leaves the facts of the compiling ones in place"""
    fails = []
    ws = list(ws)
    for _ in range(12):
        src, at = layout(ws, head, k.get("show", M.rust), k.get("tail", ""))
        d = P.crate(name, src, dep=k.get("dep"), edition=k.get("edition", "2024"), extra=k.get("extra", ""))
        try:
            ok, errs, raw = P.check(d, name, ["parse_display", "parse_display_derive", "parse_display_with", name])
        except P.RepoBroken:
            raise
        except P.Broken as x:
            if not CRASH.search(str(x)):
                raise
            return crashed(name, ws, head, fails, str(x), **k)
        if ok:
            return ws, fails
        bad = {}
        for e in errs:
            for a, b in P.err_lines(e):
                for i, (x, y) in enumerate(at):
                    if x <= a <= y:
                        bad.setdefault(i, e["rendered"])
        if not bad:
            break
        for i, t in bad.items():
            fails.append(CompileFail(ws[i], t, None))
        ws = [w for i, w in enumerate(ws) if i not in bad]
        if not ws:
            return ws, fails
    # errors that point at no witness: look for the ones to blame by halves
    if depth > 3 or len(ws) == 1:
        if len(ws) == 1:
            return [], fails + [CompileFail(ws[0], errs[0]["rendered"] if errs else raw[-1500:], None)]
        raise P.Broken("witnesses do not compile: " + (errs[0]["rendered"] if errs else raw)[-1500:])
    good = []
    for h in (ws[:len(ws) // 2], ws[len(ws) // 2:]):
        g, f = compile(name, h, head, depth + 1, **k)
        good += g
        fails += f
    if depth == 0:
        g, f = compile(name, good, head, 9, **k)
        return g, fails + f
    return good, fails


_g = {}


def one(w, impl, prog, name, rx):
    try:
        if impl == "Display":
            r = C.check_display(prog, w, name)
        elif impl == "FromStr":
            r = C.check_fromstr(prog, w, name, rx)
        else:
            r = C.check_fsregex(prog, w, name, rx)
        st = dict(r[1])
        st.pop("stats", None)
        if impl == "FromStr":
            st["once"] = list(r[2].once)
        return Res(w, impl, r[0], None, st)
    except C.BadRegex as x:
        return Res(w, impl, (C.Finding({"regex"}, w, f"a pattern is not a valid regular expression: {x}"[:300]),), None, {})
    except (C.Undecided, Unsupported, RecursionError) as x:
        return Res(w, impl, (), f"{type(x).__name__}: {x}"[:400])
    except (TypeError, KeyError, IndexError, AttributeError, ValueError, AssertionError) as x:
        if os.environ.get("PD_DEBUG"):
            raise
        return Res(w, impl, (), f"not understood: {type(x).__name__}: {x}"[:400])


def impls(w):
    return (["Display"] if "Display" in w.derive else []) + (["FromStr", "FromStrRegex"] if "FromStr" in w.derive else [])


# one impl may take this much; what takes more is left undecided
SECONDS, MEMORY = 240, 6 << 30


class TooLong(BaseException):
    pass


def _late(*a):
    raise TooLong


def _work(part):
    prog, name, ws = _g["prog"], _g["prefix"], _g["ws"]
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    signal.signal(signal.SIGALRM, _late)
    rx = C.RX(P.rx_exe())
    out = []
    for i, impl in part:
        signal.alarm(SECONDS)
        try:
            r = one(ws[i], impl, prog, name(ws[i]) if callable(name) else name, rx)
        except (TooLong, MemoryError) as x:
            r = Res(ws[i], impl, (), "more memory or time needed than there is for one impl")
            rx.p.kill()
            rx = C.RX(P.rx_exe())
        finally:
            signal.alarm(0)
        r.w = i
        for f in r.findings:
            f.w = None
        r.stats.pop("once", None) if False else None
        out.append(r)
    rx.p.stdin.close()
    rx.p.wait()
    return out


def analyse(name, ws, jobs=None, only=None, prefix=None):
    prog = Prog(P.facts(name))
    tasks = [(i, m) for i, w in enumerate(ws) for m in impls(w) if only is None or m in only]
    n = jobs or min(8, os.cpu_count() or 1)
    _g.update(prog=prog, prefix=prefix or name, ws=ws)
    parts = [tasks[k::n * 4] for k in range(n * 4)]
    ctx = multiprocessing.get_context("fork")
    res = []
    with ctx.Pool(n) as pool:
        for out in pool.imap_unordered(_work, [p for p in parts if p]):
            for r in out:
                r.w = ws[r.w]
                for f in r.findings:
                    f.w = r.w
                res.append(r)
    order = {id(w): i for i, w in enumerate(ws)}
    res.sort(key=lambda r: (order[id(r.w)], r.impl))
    return res, prog


# ---------------------------------------------------------------------------------------------- which properties a witness exercises
def feats(w):
    """properties a (random) witness that no longer compiles speaks for"""
    t = set()
    vs = w.body if w.enum else [w.body]
    lv = [w.attrs] + [v.attrs for v in vs] + [f.attrs for v in vs for f in v.fields]
    for at in lv:
        for kind, k in at:
            if "opt" in k:
                t.add("C11")
            if "with" in k:
                t.add("C10")
            if "new" in k:
                t.add("C09")
            if "regex" in k:
                t.add("C20")
            if "regex_infer" in k:
                t.add("C21")
            if "default" in k or "default_fields" in k:
                t.add("C08")
            if "style" in k:
                t.add("C12")
            if "ignore" in k:
                t.add("C07")
            if "fmt" in k and re.search(r"\{[^{}]*:[^{}]+\}", k["fmt"]):
                t.add("C13")
            if "fmt" in k and re.search(r"\{[^{}:]*\.[^{}]*\}", k["fmt"]):
                t.add("C05")
    return t or {"C01", "C02"}


def pools(tier, seed):
    """[(crate name, witnesses)]"""
    cur = curated.pool()
    n = 600 if tier == "quick" else 700
    rnd = gen.witnesses(seed, n)
    for i, w in enumerate(rnd):
        w.name = "R%d" % i
        w.tags = ()
    yield "witc", cur
    yield "witr", rnd
    if tier == "thorough":
        for k in range(1, 16):
            rnd = gen.witnesses(seed * 1000 + k, n)
            for i, w in enumerate(rnd):
                w.name = "R%d" % i
                w.tags = ()
            yield "witr", rnd
