"""Rules for the hand-written runtime crates (parse-display, parse-display-with), on their MIR."""
import json
import os
import re

import check as C
import pipeline as P
from absint import DEFSPEC, UNIT, Panic, Prog, St, Unsupported, V, leaves, mk, reset, show
from reng import Mon, REng, mentions

RT = ("parse_display", "parse_display_with", "parse_display_derive")


def load(std=True):
    """facts of the runtime crates as they are now"""
    P.forget()
    for c in RT:
        try:
            os.remove(P.facts(c))
        except FileNotFoundError:
            pass
    d = P.crate("rtm", "pub use parse_display::*;\npub use parse_display_with::*;\n")
    P.check(d, "rtm", dump=RT)
    return {c: Prog(P.facts(c)) for c in RT[:2]}


def fn(prog, pat, m=None):
    r = [prog.fns[i] for i in prog.roots if re.search(pat, prog.fns[i]["c"]) and (m is None or prog.fns[i].get("m") == m) and "prom" not in prog.fns[i]]
    return r


class Skip(Exception):
    """not understood: no verdict about this function"""


class Run:
    """one function, analysed"""

    def __init__(self, prog, f, mon=None, args=None):
        reset()
        self.f = f
        self.prog = prog
        self.eng = REng(prog, mon)
        self.args = []
        for i in range(f["n"]):
            ty = f["l"][i + 1]
            if args and i < len(args) and args[i] is not None:
                self.args.append(args[i])
            elif "std::fmt::Formatter" in prog.T[ty]["s"]:
                self.args.append(mk("fmtr", "caller"))
            else:
                self.args.append(mk("sym", "a%d" % i, ty=ty))
        if mon is not None:
            mon.setup(self)
        self.outs = self.eng.run(f, list(self.args), self.eng.start())
        self.name = f["c"]
        self.sp = f["sp"]

    def deref(self, i):
        return self.eng.deref(self.args[i])

    def fieldno(self, ty, name):
        for t in self.prog.T:
            if t.get("def") == ty:
                for v in t["v"]:
                    if name in v["f"]:
                        return v["f"].index(name)
        raise Skip(f"{ty} has no field {name}")


CLONE = ("::clone", "::to_owned", "::to_string", "::into", "::from", "::as_str", "::as_ref", "::borrow", "::deref", "::deref_mut", "::as_mut", "::into_string", "::as_bytes")


def bare(v):
    """without references, clones and conversions between string types"""
    while True:
        if v.op in ("rv", "deref", "take", "mstr"):
            v = v.a[0]
        elif v.op == "call" and len(v.a) == 2 and v.a[0].endswith(CLONE) and "Ast as std::string::ToString" not in v.a[0]:
            v = v.a[1]
        elif v.op == "call" and len(v.a) == 2 and v.a[0].endswith("must_use"):
            v = v.a[1]
        elif v.op == "call" and len(v.a) == 2 and v.a[0].startswith("std::boxed::Box::<") and v.a[0].endswith(">::new"):
            v = v.a[1]
        else:
            return v


def path(v):
    """(root, ((variant, field), ...)), seeing through references and boxes"""
    p = ()
    while True:
        # the pointer inside a box, which is all a box is
        v = bare1(v)
        if v.op == "deref":
            v = bare1(v.a[0].a[0])
            continue
        if v.op == "field":
            p = ((v.a[1], v.a[2]),) + p
            v = v.a[0]
        else:
            return v, p


def bare1(v):
    """bare, stopping where a box is looked into"""
    while not (v.op == "deref" and boxptr(v.a[0])):
        if v.op in ("rv", "deref", "take", "mstr"):
            v = v.a[0]
        elif bare(v) is not v and v.op == "call":
            v = v.a[1]
        else:
            break
    return v


def pointee(v):
    """path of what the reference v points at"""
    return path(mk("deref", v)) if v.op == "field" else path(v)


def boxptr(w):
    """w, which is dereferenced, is the pointer in a box that a node holds"""
    return w.op == "field" and w.a[1:] == (None, 0) and w.a[0].op == "field"


def nullcheck(k):
    return k.op == "bin" and k.a[0] in ("Eq", "Ne") and any(isinstance(x, V) and x.op == "int" and x.a[0] == 0 for x in k.a[1:]) and any(isinstance(x, V) and x.op == "field" and x.a[1:] == (None, 0) for x in k.a[1:])


class Mon0(Mon):
    """nothing is written after a failed write"""
    init = ("S", None)

    def __init__(self):
        self.bad = {}

    def setup(self, run):
        pass

    def b(self, m, why, eng):
        self.bad.setdefault(why, eng.sp)
        return ("B", m[1])

    def emit(self, m, e, st, eng):
        if m[0] == "F":
            return self.b(m, "something is written after a write failed", eng)
        return m

    def fail(self, m, e, st, eng):
        m = self.emit(m, e, st, eng)
        return m if m[0] == "B" else ("F", m[1])


class WriteMon(Mon0):
    """Join::write: ε | item (delim item)*"""
    init = ("S", None)

    def __init__(self):
        super().__init__()
        self.srcs = {}

    def setup(self, run):
        d = run.deref(0)
        ty = "parse_display_with::formats::Join"
        self.item = mk("field", d, None, run.fieldno(ty, "item_format"))
        self.delim = mk("field", d, None, run.fieldno(ty, "delimiter"))

    def emit(self, m, e, st, eng):
        k = self.kind(e, eng)
        s = m[0]
        if s == "B":
            return m
        if s == "F":
            return self.b(m, "something is written after a write failed", eng)
        if e == ("lit", "") or e[0] == "str" and eng.strip(e[1]) is mk("str", ""):
            return m
        if k is None:
            return self.b(m, "writes " + estr(e) + ", which is neither an item nor the delimiter", eng)
        if k == "wrongitem":
            return self.b(m, "an item other than the current one is written: " + estr(e), eng)
        if k == "item":
            if s in ("N1", "I"):
                return ("W", m[1])
            return self.b(m, {"W": "an item is written twice", "D": "an item is written without the delimiter before it"}.get(s, "an item is written in state " + s), eng)
        if s == "D":
            return ("I", m[1])
        if s == "W":
            return ("WD", m[1])
        return self.b(m, {"N1": "a delimiter is written before the first item", "WD": "two delimiters are written in a row", "I": "two delimiters are written in a row",
                          "S": "a delimiter is written before the first item"}[s], eng)

    def fail(self, m, e, st, eng):
        m = self.emit(m, e, st, eng)
        return m if m[0] == "B" else ("F", m[1])

    def next(self, m, src, more, st, eng):
        self.srcs.setdefault(src, eng.sp)
        s = m[0]
        if s in ("B", "F"):
            return m
        if more:
            n = {"S": "N1", "W": "D", "WD": "I"}.get(s)
            if n is None:
                return self.b(m, "an item is skipped", eng)
            return (n, m[1])
        if s in ("S", "W"):
            return ("E", m[1])
        return self.b(m, {"WD": "a delimiter is written after the last item"}.get(s, "the last item is not written"), eng)

    def kind(self, e, eng):
        if e[0] in ("str", "fmt", "lit"):
            v = e[1] if e[0] == "str" else e[3] if e[0] == "fmt" else None
            if v is not None and eng.strip(v) is self.delim:
                if e[0] == "fmt" and (e[1] != "Display" or e[2] != DEFSPEC):
                    return None
                return "delim"
            return None
        if e[0] == "callfmt" and e[1].endswith("DisplayFormat<I>>::write"):
            a = [eng.strip(x) for x in e[3]]
            if e[2] != "caller" or a[0] is not self.item:
                return None
            return "item" if a[1].op == "el" and a[1].a[1] == "cur" else "wrongitem"
        return None


def estr(e):
    return " ".join(show(x) if isinstance(x, (V, tuple)) else str(x) for x in e)[:200]


# ------------------------------------------------------------------------------------------------ rules
class Rules:
    def __init__(self, rep, pid, progs):
        self.rep, self.pid, self.progs = rep, pid, progs
        self.fns = 0
        self.states = 0
        self.paths = 0
        self.names = []

    def analyse(self, crate, pat, m=None, mon=None, args=None, must=True):
        """yields (Run, mon) for each function that matches"""
        fs = fn(self.progs[crate], pat, m)
        if not fs and must:
            self.skip(pat, "no such function")
        for f in fs:
            mo = mon() if mon else Mon0()
            try:
                r = Run(self.progs[crate], f, mo, args)
            except (Unsupported, Skip) as x:
                self.skip(f["c"], str(x))
                continue
            self.fns += 1
            self.states += r.eng.nstates
            self.paths += len(r.outs)
            self.names.append(f["c"])
            yield r, mo

    def skip(self, what, why):
        self.rep.undecided.append(f"runtime: {what}: {why}")

    def v(self, r, what, sp=None, more=""):
        name = r if isinstance(r, str) else r.name
        sp = sp or (r.sp if not isinstance(r, str) else "")
        self.rep.violation(f"{short(name)}: {what}", f"{name} at {sp}\n  {what}\n{more}")

    def panics(self, r):
        for s, v in r.outs:
            if isinstance(v, Panic):
                self.v(r, f"can panic ({v.msg})", v.sp)

    def same(self, r, want, what):
        """the function returns exactly this value on every path, and does nothing else"""
        for s, v in r.outs:
            if isinstance(v, Panic):
                self.v(r, f"can panic ({v.msg})", v.sp)
            elif bare0(v) is not bare0(want):
                self.v(r, f"returns something other than {what}", more="  returns " + show(v)[:300] + "\n  wanted " + show(want)[:300])


def bare0(v):
    return path_norm(v)


def path_norm(v):
    v = v if v.op not in ("rv", "deref") else bare(v)
    return v


def short(n):
    return re.sub(r"\b(?:parse_display_with::formats|parse_display::helpers(?:_std)?|parse_display|std|core)::", "", n)


def facts_on(s, pred):
    return {k: d for k, d in s.facts.items() if pred(k)}


def is_ok(v):
    return v.op == "adt" and v.a[0] == "std::result::Result" and v.a[1] == 0


def is_err(v):
    return v.op == "adt" and v.a[0] == "std::result::Result" and v.a[1] == 1


# ---- C23
def c23(R):
    for r, mon in R.analyse("parse_display_with", r"Join<.*DisplayFormat<T>>::write$", mon=WriteMon):
        if len(mon.srcs) > 1:
            R.skip(r.name, "the items are visited in several passes")
            continue
        for why, sp in mon.bad.items():
            if "after a write failed" not in why:
                R.v(r, why, sp)
        for src, sp in mon.srcs.items():
            b = bare(src)
            if b.op in ("rev", "skip", "take", "step_by"):
                R.v(r, f"the items are visited through {b.op}", sp)
            elif b is not r.args[2]:
                R.skip(r.name, "iterates over " + show(src)[:80])
        for s, v in r.outs:
            m = s.ev[0][0]
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
            elif m == "E" and not is_ok(v):
                R.v(r, "returns an error though everything was written")
            elif m not in ("E", "F", "B") and is_ok(v):
                R.v(r, "returns before the iterator is exhausted")
    for r, mon in R.analyse("parse_display_with", r"Join<.*FromStrFormat<T>>::parse$", mon=SplitMon):
        d = r.deref(0)
        ty = "parse_display_with::formats::Join"
        fmt_, delim = mk("field", d, None, r.fieldno(ty, "item_format")), mk("field", d, None, r.fieldno(ty, "delimiter"))
        want = None
        for src in r.eng.table.keys() | mon.srcs.keys():
            b = src
            if b.op in ("rev", "skip", "take", "step_by"):
                R.v(r, f"the pieces go through {b.op}", mon.srcs.get(src))
                continue
            if b.op in ("split_terminator", "split_inclusive", "rsplit", "rsplit_terminator", "splitn", "rsplitn", "lines", "split_whitespace", "split_ascii_whitespace"):
                R.v(r, f"the pieces are those of str::{b.op}, not one per gap between delimiters in order", mon.srcs.get(src))
                continue
            if b.op == "coll":
                continue
            if b.op != "split":
                R.skip(r.name, "pieces from " + show(src)[:80])
                continue
            if bare(b.a[0]) is not r.args[1]:
                R.v(r, "splits something other than the whole input: " + show(b.a[0])[:120], mon.srcs.get(src))
                continue
            if bare(b.a[1]) is not delim:
                R.v(r, "splits at something other than the delimiter: " + show(b.a[1])[:120], mon.srcs.get(src))
                continue
            want = src
        if want is None:
            if not mon.srcs:
                R.skip(r.name, "no split")
            continue
        cur = mk("el", want, "cur")
        colls = set()
        okp = None

        def parsed(x):
            """the Ok of parsing the current piece"""
            x = bare(x)
            if x.op == "field" and x.a[1:] == (0, 0):
                return isparse(x.a[0])
            return False

        def isparse(c):
            return c.op == "call" and c.a[0].endswith("FromStrFormat<I>>::parse") and bare(c.a[1]) is fmt_ and bare(c.a[2]) is cur
        for m, log, fs in r.eng.table.get(want, ()):
            puts = [e for e in log if e[0] == "put"]
            if any(e[0] == "ins" for e in log):
                R.v(r, "a piece is not added at the end of the result, so the order changes", mon.srcs.get(want))
                continue
            if not puts:
                R.v(r, "a piece is dropped: an iteration adds nothing to the result", mon.srcs.get(want), "  when " + ", ".join(f"{show(k)[:120]} = {d}" for k, d in fs))
            elif len(puts) > 1:
                R.v(r, "a piece is added more than once", mon.srcs.get(want))
            else:
                colls.add(puts[0][1])
                if not parsed(puts[0][2]):
                    R.v(r, "what is added is not the piece parsed by the item format: " + show(puts[0][2])[:160], mon.srcs.get(want))
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
                continue
            if is_ok(v):
                x = bare(v.a[2])
                if s.ev[0][0] == "S":
                    R.v(r, "returns Ok without splitting the input", None, "  when " + ", ".join(f"{show(k)[:120]} = {d}" for k, d in s.facts.items()))
                elif s.ev[0][0] != "E":
                    R.v(r, "returns Ok before all pieces were read")
                elif x not in colls and not (x.op == "coll" and not colls):
                    if x.op == "call":
                        R.skip(r.name, "result " + show(x)[:100])
                    else:
                        R.v(r, "the result is not the collection of the parsed pieces: " + show(v)[:120])
            elif is_err(v):
                x = bare(v.a[2])
                if not (x.op == "field" and x.a[1:] == (1, 0) and isparse(x.a[0])):
                    R.v(r, "the error is not the one the item format reported: " + show(v)[:160])
            elif v.op == "call" or not isparse(v):
                R.skip(r.name, "returns " + show(v)[:100])
    mkjoin(R)


class LoopMon(Mon0):
    """counts the loops that have ended"""

    def next(self, m, src, more, st, eng):
        return ("M" if more else "E", (m[1] or 0) + (not more)) if m[0] not in ("B", "F") else m


class SplitMon(Mon0):
    def __init__(self):
        super().__init__()
        self.srcs = {}

    def next(self, m, src, more, st, eng):
        if src.op == "coll":
            return m
        self.srcs.setdefault(src, eng.sp)
        return ("M" if more else "E", m[1])


def mkjoin(R):
    for r, mon in R.analyse("parse_display_with", r"^parse_display_with::formats::join::"):
        ty = "parse_display_with::formats::Join"
        i, d = r.fieldno(ty, "item_format"), r.fieldno(ty, "delimiter")
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
            elif v.op != "adt":
                R.skip(r.name, "returns " + show(v)[:80])
            elif bare(v.a[2 + i]) is not r.args[0] or bare(v.a[2 + d]) is not r.args[1]:
                R.v(r, "the format does not hold the given item format and delimiter", more="  returns " + show(v)[:300])
    for r, mon in R.analyse("parse_display_with", r"^parse_display_with::formats::delimiter::"):
        ty = "parse_display_with::formats::Join"
        i, d = r.fieldno(ty, "item_format"), r.fieldno(ty, "delimiter")
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
            elif v.op != "adt":
                R.skip(r.name, "returns " + show(v)[:80])
            elif bare(v.a[2 + i]).op != "adt" or bare(v.a[2 + i]).a[0] != "parse_display_with::formats::Fmt" or bare(v.a[2 + d]) is not r.args[0]:
                R.v(r, "the format does not hold the plain item format and the given delimiter", more="  returns " + show(v)[:300])
    plainfmt(R)


class OneWrite(Mon0):
    """records what is written"""

    def __init__(self):
        super().__init__()
        self.w = []

    def emit(self, m, e, st, eng):
        m = super().emit(m, e, st, eng)
        if m[0] == "B":
            return m
        if not any(x[0] == e for x in self.w):
            self.w.append((e, eng.sp))
        return (m[0], (m[1] or 0) + 1)

    def fail(self, m, e, st, eng):
        m2 = Mon0.fail(self, m, e, st, eng)
        return m2 if m2[0] == "B" else (m2[0], (m[1] or 0) + 1)


def writes(R, r, mon, okev, what):
    """every path writes exactly one thing, and it is what okev accepts"""
    for why, sp in mon.bad.items():
        R.v(r, why, sp)
    for e, sp in mon.w:
        if not okev(e):
            R.v(r, f"writes {estr(e)}, not {what}", sp)
    for s, v in r.outs:
        if isinstance(v, Panic):
            R.v(r, f"can panic ({v.msg})", v.sp)
            continue
        m, n = s.ev[0]
        if m == "S" and n != 1:
            R.v(r, f"writes {n or 0} pieces instead of {what} once")
        elif m == "S" and not is_ok(v) or m == "F" and not is_err(v):
            if v.op in ("adt",):
                R.v(r, "does not return the result of the write")


def plainfmt(R):
    for r, mon in R.analyse("parse_display_with", r"formats::Fmt as .*DisplayFormat<T>>::write$", mon=OneWrite):
        writes(R, r, mon, lambda e: e[0] == "fmt" and e[1] == "Display" and e[2] in (DEFSPEC, "caller") and bare(e[3]) is r.args[2]
               or e[0] == "callfmt" and e[1].endswith("std::fmt::Display>::fmt") and bare(e[3][0]) is r.args[2], "the value with Display")
    for r, mon in R.analyse("parse_display_with", r"formats::Fmt as .*FromStrFormat<T>>::parse$"):
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
            elif not (v.op == "call" and v.a[0].endswith("FromStr>::from_str") and bare(v.a[1]) is r.args[1]):
                wrong(R, r, v, "from_str of the whole text")


def wrong(R, r, v, what):
    """a definite disagreement, or something not understood"""
    if v.op in ("ite", "unk") or has_unk(v):
        R.skip(r.name, "returns " + show(v)[:100])
    else:
        R.v(r, f"does not return {what}", more="  returns " + show(v)[:300])


def has_unk(v):
    return v.op == "unk" or any(isinstance(x, V) and has_unk(x) for x in v.a)


# ---- C25
def c25(R):
    for r, mon in R.analyse("parse_display", r"^<T as .*IntoResult<T>>::into_result$"):
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
            elif not (is_ok(v) and bare(v.a[2]) is r.args[0]):
                wrong(R, r, v, "Ok of the value itself")
    err = None
    for r, mon in R.analyse("parse_display", r"ParseError::new$"):
        for s, v in r.outs:
            if isinstance(v, Panic) or v.op != "adt" or bare(v.a[2]).op != "str":
                R.v(r, "does not build a constant error")
            else:
                err = bare(v.a[2]).a[0]
                if not err:
                    R.v(r, "the generic error has an empty message")
    for r, mon in R.analyse("parse_display", r"ParseError as std::default::Default>::default$"):
        for s, v in r.outs:
            if isinstance(v, Panic) or v.op != "adt" or bare(v.a[2]).op != "str" or bare(v.a[2]).a[0] != err:
                R.v(r, "the default error is not the generic one", more="  " + (show(v)[:200] if isinstance(v, V) else ""))
    for r, mon in R.analyse("parse_display", r"ParseError::with_message$"):
        for s, v in r.outs:
            if isinstance(v, Panic) or v.op != "adt" or bare(v.a[2]) is not r.args[0]:
                R.v(r, "the error does not hold the given message")
    for r, mon in R.analyse("parse_display", r"^<std::option::Option<T> as .*IntoResult<T>>::into_result$"):
        seen = set()
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
                continue
            d = [x for k, x in s.facts.items() if k.op == "disc" and k.a[0] is r.args[0]]
            if is_ok(v):
                x = bare(v.a[2])
                if d != [1] or not (x.op == "field" and x.a[0] is r.args[0] and x.a[1:] == (1, 0)):
                    wrong(R, r, v, "Ok of the Some value, and only then")
                seen.add(1)
            elif is_err(v):
                x = bare(v.a[2])
                if d != [0] or x.op != "adt" or bare(x.a[2]).op != "str" or bare(x.a[2]).a[0] != err:
                    wrong(R, r, v, "the generic error for None, and only then")
                seen.add(0)
            else:
                wrong(R, r, v, "Ok or the generic error")
    for r, mon in R.analyse("parse_display", r"^<std::result::Result<T, E> as .*IntoResult<T>>::into_result$"):
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
            elif v is not r.args[0]:
                d = [x for k, x in s.facts.items() if k.op == "disc" and k.a[0] is r.args[0]]
                x = bare(v.a[2]) if v.op == "adt" and len(v.a) > 2 else None
                if not (len(d) == 1 and v.op == "adt" and v.a[1] == d[0] and x.op == "field" and x.a[0] is r.args[0] and x.a[1:] == (d[0], 0)):
                    wrong(R, r, v, "the result unchanged")
    for r, mon in R.analyse("parse_display", r"ParseError as std::fmt::Display>::fmt$", mon=OneWrite):
        d = mk("field", r.deref(0), None, 0)
        writes(R, r, mon, lambda e: e[0] == "str" and bare(e[1]) is d or e[0] == "fmt" and e[1] == "Display" and bare(e[3]) is d, "the stored message")
    for r, mon in R.analyse("parse_display", r"ParseError as std::error::Error>::description$", must=False):
        d = mk("field", r.deref(0), None, 0)
        for s, v in r.outs:
            if isinstance(v, Panic) or bare(v) is not d:
                R.v(r, "does not return the stored message")
    # function based formats
    for r, mon in R.analyse("parse_display_with", r"FnFmtDisplay<F> as .*DisplayFormat<T>>::write$"):
        oncall(R, r, (r.args[1], r.args[2]))
    for r, mon in R.analyse("parse_display_with", r"FnFmtFromStr<F> as .*FromStrFormat<T>>::parse$"):
        oncall(R, r, (r.args[1],))
    for nm in ("fmt_display", "fmt_from_str"):
        for r, mon in R.analyse("parse_display_with", r"^parse_display_with::formats::%s::<[^>]*impl" % nm):
            for s, v in r.outs:
                if isinstance(v, Panic) or v.op != "adt" or len(v.a) != 3 or bare(v.a[2]) is not r.args[0]:
                    R.v(r, "the format does not hold the given function")
    for r, mon in R.analyse("parse_display", r"^parse_display::helpers::parse_with::"):
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
            elif not (v.op == "call" and v.a[0].endswith("FromStrFormat<T>>::parse") and bare(v.a[1]) is r.args[0] and bare(v.a[2]) is r.args[1]):
                wrong(R, r, v, "the result of the format's parse on the whole text")
    formatted(R)
    plainfmt(R)


def formatted(R):
    for r, mon in R.analyse("parse_display", r"Formatted<.*> as std::fmt::Display>::fmt$", mon=OneWrite):
        ty = "parse_display::helpers::Formatted"
        fm, va = [mk("field", r.deref(0), None, r.fieldno(ty, x)) for x in ("format", "value")]
        writes(R, r, mon, lambda e: e[0] == "callfmt" and e[1].endswith("DisplayFormat<T>>::write") and e[2] == "caller" and bare(e[3][0]) is fm and bare(e[3][1]) is va,
               "the value through the format, with the caller's formatter")


def oncall(R, r, args):
    """exactly one call of the stored function with the given arguments, and its result returned"""
    d = mk("field", r.deref(0), None, 0)
    for s, v in r.outs:
        if isinstance(v, Panic):
            R.v(r, f"can panic ({v.msg})", v.sp)
            continue
        calls = [e[1] for e in s.ev[1] if e[0] == "ind"]
        good = len(calls) == 1 and bare(calls[0].a[1]) is d and tuple(bare(x) for x in calls[0].a[2:]) == tuple(bare(x) for x in args)
        if not good:
            R.v(r, f"calls {len(calls)} function(s), not exactly the given one with the given arguments", more="  " + "; ".join(show(c)[:200] for c in calls))
            continue
        c = calls[0]
        dd = [x for k, x in s.facts.items() if k.op == "disc" and k.a[0] is c]
        if v is c:
            continue
        x = bare(v.a[2]) if v.op == "adt" and len(v.a) > 2 else None
        if len(dd) == 1 and v.op == "adt" and v.a[1] == dd[0] and (x is UNIT or x.op == "field" and x.a[0] is c and x.a[1:] == (dd[0], 0)):
            continue
        wrong(R, r, v, "the function's result unchanged")


# ---- C28: write errors
def c28(R):
    for r, mon in R.analyse("parse_display_with", r"Join<.*DisplayFormat<T>>::write$", mon=WriteMon):
        errs(R, r, mon, {k: v for k, v in mon.bad.items() if "after a write failed" in k})
    pats = [("parse_display_with", r"(formats::Fmt|FnFmtDisplay).* as .*DisplayFormat<T>>::write$"), ("parse_display", r"RegexInfer as .*DisplayFormat<T>>::write$"),
            ("parse_display", r"(Formatted|OptionFormatHelper|ParseError|FmtPointer)\b.* as std::fmt::\w+>::fmt$")]
    for c, p in pats:
        for r, mon in R.analyse(c, p, mon=OneWrite):
            if r.f.get("tr", "").endswith("Debug") and "ParseError" in r.name:
                continue
            errs(R, r, mon, mon.bad)


def errs(R, r, mon, bad):
    for why, sp in bad.items():
        R.v(r, why, sp)
    for s, v in r.outs:
        if isinstance(v, Panic):
            R.v(r, f"can panic ({v.msg})", v.sp)
            continue
        m = s.ev[0][0]
        ind = [e[1] for e in s.ev[1] if e[0] == "ind"]
        if m == "F" and is_ok(v):
            R.v(r, "returns Ok although a write failed")
        elif m == "F" and not is_err(v):
            R.skip(r.name, "returns " + show(v)[:80])
        elif m not in ("F", "B") and is_err(v) and not ind:
            R.v(r, "returns an error although every write succeeded")
        for c in ind:
            # a writer given as a function: its result must come back
            d = [x for k, x in s.facts.items() if k.op == "disc" and k.a[0] is c]
            if v is c:
                if len(ind) > 1 or m == "F":
                    R.v(r, "more is written after a function that may have failed")
            elif not d:
                R.v(r, "the result of the writing function is dropped", more="  " + show(c)[:200])
            elif d[0] == 1 and (is_ok(v) or ind[-1] is not c):
                R.v(r, "goes on although the writing function failed", more="  " + show(c)[:200])
            elif d[0] == 0 and is_err(v) and m != "F" and len(ind) == 1:
                R.v(r, "returns an error although every write succeeded")


# ---- C11: optional fields
def c11(R):
    n = 0
    for r, mon in R.analyse("parse_display", r"OptionFormatHelper<.*> as std::fmt::\w+>::fmt$", mon=OneWrite):
        n += 1
        ty = "parse_display::helpers::OptionFormatHelper"
        d = r.deref(0)
        val, f, nv = [mk("field", d, None, r.fieldno(ty, x)) for x in ("value", "f", "none_value")]
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
                continue
            k = [x for t, x in s.facts.items() if t.op == "disc" and bare(t.a[0]) is val]
            ind = [e[1] for e in s.ev[1] if e[0] == "ind"]
            wr = s.ev[0][1] or 0
            if len(k) != 1:
                R.v(r, "does not depend on whether the value is present")
            elif k[0] == 1:
                c = ind[0] if len(ind) == 1 else None
                if c is None or wr or bare(c.a[1]) is not f or len(c.a) != 4:
                    R.v(r, f"a present value is written by {len(ind)} call(s) of a function and {wr} direct write(s), not by the given function once")
                elif not (bare(c.a[2]).op == "field" and bare(bare(c.a[2]).a[0]) is val and bare(c.a[2]).a[1:] == (1, 0)) or bare(c.a[3]) is not mk("fmtr", "caller"):
                    R.v(r, "the given function does not get the inner value and the caller's formatter", more="  " + show(c)[:300])
            elif ind or wr != 1:
                R.v(r, f"an absent value makes {len(ind)} function call(s) and {wr} write(s)")
        for e, sp in mon.w:
            if not (e[0] == "str" and bare(e[1]) is nv or e[0] == "fmt" and e[1] == "Display" and e[2] == DEFSPEC and bare(e[3]) is nv):
                R.v(r, f"writes {estr(e)} for an absent value, not the given text as it is", sp)
    if n and n != 9:
        R.skip("OptionFormatHelper", f"{n} formatting traits")


# ---- C06: the parsing helpers do not panic
def c06(R):
    for c, p in (("parse_display_with", r"FromStrFormat<T>>::parse$"), ("parse_display", r"FromStrFormat<T>>::parse$|helpers::parse_with::|IntoResult<T>>::into_result$|ParseError::(new|with_message)$|ParseError as std::default::Default")):
        for r, mon in R.analyse(c, p):
            R.panics(r)
    for p in R.progs.values():
        offsets(R, p)


def offsets(R, p):
    """a number of characters must not become a byte position of a string: dataflow over a function and its closures, whatever else it does"""
    units = {}
    for f in p.fns.values():
        units.setdefault(f.get("par") or f["def"], []).append(f)
    T = p.T

    def callee(t):
        fn = t[1][1].get("fn") if t[1][0] == "k" and isinstance(t[1][1], dict) else None
        return fn or {}

    def base(o):
        return str(o[1][0]) if isinstance(o, list) and len(o) == 2 and o[0] in ("c", "m") else None
    for un, fs in units.items():
        if any(callee(b["t"]).get("def", "").endswith("is_ascii") for f in fs for b in f["b"] if b["t"][0] == "call"):
            continue
        found = {}                          # (function, local) -> number of bytes of what was searched for, or None
        taint, names = {}, set()            # function -> locals; names of tainted variables (closures see them by name)
        cuts = []
        for _ in range(6):
            n0 = (sum(map(len, taint.values())), len(names))
            for f in fs:
                tt = taint.setdefault(f["id"], set())
                up = {json.dumps(pl[:-1] if len(pl) > 2 and pl[-1] == "*" else pl)[:-1] for pl, nm in f["nm"] if nm in names and f.get("cl")}
                for b in f["b"]:
                    for s in b["s"]:
                        if s[0] != "=":
                            continue
                        txt = json.dumps(s[2])
                        d = (f["id"], str(s[1][0]))
                        if s[2][0] in ("use", "cast", "bin"):
                            src = [base(o) for o in walk_ops(s[2])]
                            src = [x for x in src if (f["id"], x) in found]
                            if src and s[2][0] == "bin":
                                k = re.search(r'\["k", \{"i": "(-?\d+)"', txt)
                                if s[2][1].startswith(("Add", "Sub")) and k and k.group(1) != "0" and str(found[f["id"], src[0]]) != k.group(1):
                                    tt.add(d[1])
                            elif src:
                                found[d] = found[f["id"], src[0]]
                        if any(base(o) in tt for o in walk_ops(s[2])) or any(u in txt for u in up) or s[2][0] in ("ref", "raw") and str(s[2][-1][0]) in tt:
                            tt.add(str(s[1][0]))
                            if s[2][0] == "agg" and s[2][1] == "adt" and re.search(r"ops::(range::)?Range", T[int(s[2][3])]["s"]):
                                cuts.append((f, s[3], True))
                    t = b["t"]
                    if t[0] == "call":
                        c = callee(t)
                        a0 = T[int(t[9][0])]["s"] if t[9] else ""
                        if c.get("def", "").endswith("Iterator::count") and "str::Chars" in a0 and "CharIndices" not in a0:
                            tt.add(str(t[3][0]))
                        elif re.search(r"<impl str>::r?find$", c.get("def", "")):
                            pat = t[2][1][1] if t[2][1][0] == "k" else {}
                            found[f["id"], str(t[3][0])] = len(chr(int(pat["ch"])).encode()) if "ch" in pat else len(pat["str"].encode()) if "str" in pat else None
                        elif re.search(r"(ops|num|cmp|clone|convert)::", c.get("def", "")) and any(base(o) in tt for o in t[2]):
                            tt.add(str(t[3][0]))
                        elif re.search(r"str>?::(split_at|split_at_mut)$|String::(split_off|truncate|drain|insert|insert_str|remove)$", c.get("def", "")) and any(base(o) in tt for o in t[2][1:]):
                            cuts.append((f, t[5], False))
                for pl, nm in f["nm"]:
                    if str(pl[0]) in tt and not f.get("cl"):
                        names.add(nm)
            if n0 == (sum(map(len, taint.values())), len(names)):
                break
        if not cuts:
            continue
        sl = any(re.search(r"<(str|std::string::String) as .*ops::(index::)?Index", callee(b["t"]).get("c", "")) for f in fs for b in f["b"] if b["t"][0] == "call")
        for f, sp, rng in cuts:
            if sl or not rng:
                R.v(f["c"], "can panic (a byte position of a string is computed from a number of characters or an assumed length)", sp)


def walk_ops(rv):
    for o in rv[1:]:
        if isinstance(o, list):
            if len(o) == 2 and o[0] in ("c", "m") and isinstance(o[1], list):
                yield o
            else:
                yield from walk_ops([0] + o)


# ---- C26: no state
def c26(R):
    n = 0
    for c, p in R.progs.items():
        for s in p.statics:
            n += 1
            ty = p.T[s["ty"]]["s"]
            if s["mut"] or re.search(r"\b(\w*Cell|Mutex|RwLock|Atomic\w*|OnceLock|Once|Rc)\b", ty):
                R.v(s["p"], "the runtime keeps state that can change in a static", "", f"  static {s['p']}: {ty}")
        for f in p.fns.values():
            for b in f["b"]:
                t = b["t"]
                if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                    d = t[1][1]["fn"].get("rd") or t[1][1]["fn"]["def"]
                    if STATE.search(d):
                        R.v(f["c"], f"the runtime uses outside state: {d}", t[6] or t[5])
                for s in b["s"]:
                    n += 1
    R.rep.cov["runtime_statements_searched_for_state"] = n


STATE = re.compile(r"^std::(thread::local|env::|time::|fs::|io::(stdin|stdout|stderr)|process::|net::|sync::(atomic|Mutex|RwLock|OnceLock|LazyLock))|thread_local|^std::cell::|^std::sync::atomic|RandomState::|^std::hash::random")


# ---- C18: patterns of built-in types
def ints(signed, digits):
    """what Display writes, also when padded with zeros to a width"""
    return "0+|%s0*[1-9][0-9]{0,%d}" % ("-?" if signed else "", digits - 1)


UINT, SINT = r"\+?[0-9]+", r"[+-]?[0-9]+"
FLOAT = r"(?i:[+-]?(inf|infinity|nan|([0-9]+\.?[0-9]*|\.[0-9]+)(e[+-]?[0-9]+)?))"
ALL = r"(?s:.*)"
STD = {"bool": (r"true|false", r"true|false"), "char": (r"(?s:.)", r"(?s:.)"),
       "std::string::String": (ALL, ALL), "std::ffi::OsString": (ALL, ALL), "std::path::PathBuf": (ALL, ALL),
       "std::boxed::Box<str>": (ALL, ALL), "std::rc::Rc<str>": (ALL, ALL), "std::sync::Arc<str>": (ALL, ALL),
       "f32": (r"NaN|-?inf|-?(0|[1-9][0-9]{0,38})(\.[0-9]{1,46})?", FLOAT), "f64": (r"NaN|-?inf|-?(0|[1-9][0-9]{0,308})(\.[0-9]{1,326})?", FLOAT),
       "std::net::Ipv4Addr": (r"(25[0-5]|2[0-4][0-9]|1?[0-9]?[0-9])(\.(25[0-5]|2[0-4][0-9]|1?[0-9]?[0-9])){3}", r"[0-9]{1,3}(\.[0-9]{1,3}){3}")}
for _t, _d in (("8", 3), ("16", 5), ("32", 10), ("64", 20), ("128", 39), ("size", 20)):
    STD["u" + _t] = (ints(False, _d), UINT)
    STD["i" + _t] = (ints(True, 19 if _d == 20 else _d), SINT)
    STD["std::num::NonZero<u%s>" % _t] = ("[1-9][0-9]{0,%d}" % (_d - 1), UINT)
    STD["std::num::NonZero<i%s>" % _t] = ("-?[1-9][0-9]{0,%d}" % ((19 if _d == 20 else _d) - 1), SINT)
EXPECTED = [t for t in STD if "Box" not in t and "Rc" not in t and "Arc" not in t and "net" not in t]


def c18(R):
    rx = C.RX(P.rx_exe())
    done = {}
    incl = 0
    for r, mon in R.analyse("parse_display", r" as .*FromStrRegex>::from_str_regex$"):
        ty = r.f["self"]
        pats = set()
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
                continue
            try:
                ps = C.str_pieces(v)
                if any(not isinstance(x, str) for x in ps):
                    raise C.Undecided("pattern has a variable part")
                pats.add("".join(ps))
            except C.Undecided as x:
                R.skip(r.name, str(x))
        if ty not in STD:
            R.skip(r.name, "no table entry for what Display writes")
            continue
        for pat in pats:
            done[ty] = pat
            try:
                h = rx.ask("hir", pat)
                if "err" in h:
                    R.v(r, f"the pattern {pat!r} is not a valid regular expression")
                    continue
                if names(h["hir"]):
                    R.v(r, f"the pattern {pat!r} has named captures")
                low, high = STD[ty]
                # it is used as a whole: anchored, and as a group inside larger patterns
                w = rx.incl(low, f"(?:{pat})")
                incl += 2
                if w is not None:
                    R.v(r, f"the pattern does not match {w!r}, which Display writes", more=f"  pattern {pat!r}")
                w = rx.incl(f"(?:{pat})", high)
                if w is not None:
                    R.v(r, f"the pattern admits {w!r}, which is not in the syntax of the type's FromStr", more=f"  pattern {pat!r}")
            except C.Undecided as x:
                R.skip(r.name, str(x))
    for t in EXPECTED:
        if t not in done and not any(f"<{t} as" in u for u in R.rep.undecided):
            R.v("FromStrRegex for " + t, "the standard type has no pattern any more")
    R.rep.cov.update(patterns=len(done), language_inclusions=incl, samples=[dict(type=k, pattern=v, display=STD[k][0], from_str=STD[k][1]) for k, v in list(done.items())[:40]])


def names(h):
    if isinstance(h, list):
        if h and h[0] == "cap" and len(h) > 2 and h[2]:
            return True
        return any(names(x) for x in h)
    if isinstance(h, dict):
        return any(names(x) for x in h.values())
    return False


# ------------------------------------------------------------------------------------------------ patterns of fields
AST = "regex_syntax::ast::"
ANYPAT = "(?s:.*?)"


def ok_of(v):
    """x if v is the Ok value of call x"""
    v = bare(v)
    if v.op == "field" and v.a[1:] == (0, 0) and bare(v.a[0]).op in ("call", "rec"):
        return bare(v.a[0])
    return None


def parsed_of(v):
    """s if v is regex_syntax's parse of s"""
    c = ok_of(v)
    if c is not None and c.op == "call" and "regex_syntax::ast::parse::Parser" in c.a[0] and c.a[0].endswith("parse"):
        return bare(c.a[-1])
    return None


def walked(v):
    """(tree, closure, call) if v is a tree after a walk"""
    v = bare(v)
    if v.op == "out" and v.a[0].op == "rec":
        c = v.a[0]
        return bare(c.a[1]), bare(c.a[2]) if len(c.a) > 2 else None, c
    return None


def pattern_call(v, arg):
    v = bare(v)
    return v.op == "call" and v.a[0].endswith("::regex_pattern") and bare(v.a[1]) is arg


class Walks:
    """what the closures given to the tree walk do"""

    def __init__(self, R):
        self.R = R
        self.p = R.progs["parse_display"]
        self.tys = {}
        for t in self.p.T:
            if t.get("def", "").startswith(AST) and t.get("v"):
                self.tys[t["def"][len(AST):]] = t

    def variant(self, ty, d):
        return self.tys[ty]["v"][d]["n"]

    def fieldix(self, ty, name):
        return self.tys[ty]["v"][0]["f"].index(name)

    def fnbody(self, v):
        i = v.a[0].rsplit("|", 1)[-1]
        return self.p.fns.get(int(i)) if i.isdigit() else None

    def outcomes(self, clo):
        """[(node kind, group kind, stores, result, facts)] of a closure on a symbolic tree; the tree is $tree"""
        p = self.p
        body = None
        if clo.op == "fn":
            body = self.fnbody(clo)
            if body is None or body["n"] != 1:
                raise Skip("function body")
            eng = REng(p)
            tree = mk("sym", "tree", ty=body["l"][1])
            outs = eng.run(body, [tree], eng.start())
        else:
            for f in p.fns.values():
                if f.get("cl") and f["def"] == clo.a[0]:
                    body = f
            if body is None:
                raise Skip("closure body")
            eng = REng(p)
            tree = mk("sym", "tree", ty=body["l"][2])
            outs = eng.run(body, [mk("rv", clo), tree], eng.start())
        r = []
        dt = mk("deref", tree)
        gi = [i for i, v in enumerate(self.tys["Ast"]["v"]) if v["n"] == "Group"][0]
        for s, v in outs:
            node = kind = None
            rest = []
            for k, d in s.facts.items():
                if k.op == "disc":
                    root, pa = path(k.a[0])
                    if root is tree and pa == ():
                        node = d
                        continue
                    if root is tree and pa == ((gi, 0), (None, self.fieldix("Group", "kind"))):
                        kind = d
                        continue
                rest.append((k, d))
            node = self.variant("Ast", node) if isinstance(node, int) else None
            kind = self.variant("GroupKind", kind) if isinstance(kind, int) else None
            stores = []
            other = []
            for e in s.ev[1]:
                if e[0] == "store":
                    root, pa = path(e[1])
                    new = root.op == "call" and root.a[0].startswith("std::boxed::Box::<") and "new" in root.a[0]
                    stores.append((None if new else root is tree, pa, e[2]))
                else:
                    other.append(e)
            r.append((node, kind, stores, v, rest, other))
        return r, gi

    def res(self, v):
        """what a closure tells the walk: True (go on inside), False, 'err' or None"""
        if isinstance(v, Panic):
            return "err"
        if is_err(v):
            return "err"
        if is_ok(v) and bare(v.a[2]).op == "bool":
            return bare(v.a[2]).a[0]
        return None

    def judge(self, clo, role, nm, caps=None):
        """compare a closure with the role it plays"""
        R = self.R
        try:
            outs, gi = self.outcomes(clo)
        except (Unsupported, Skip) as x:
            R.skip(clo.a[0], str(x))
            return
        R.fns += 1
        R.paths += len(outs)
        R.names.append(clo.a[0])
        kx, ax = self.fieldix("Group", "kind"), self.fieldix("Group", "ast")
        KP, AP = ((gi, 0), (None, kx)), ((gi, 0), (None, ax))
        for node, kind, stores, v, rest, other in outs:
            res = self.res(v)
            where = f"{nm}: "
            grp = node == "Group"
            rest = [(k, d) for k, d in rest if not nullcheck(k)]
            known = [f"{show(k)[:140]} = {d}" for k, d in rest]
            ctx = f"  for {node or 'any node'}{' ' + kind if kind else ''}; " + "; ".join(known)
            fresh = [x for mine, _, x in stores if mine is None]
            stores = [x for x in stores if x[0] is not None]
            if any(not mine or pa not in (KP, AP) for mine, pa, _ in stores) or any(o[0] == "effect" for o in other):
                R.skip(clo.a[0], "stores " + "; ".join(str(pa) for _, pa, _ in stores))
                continue
            # a guard that was not understood: only definite statements below
            unsure = bool(rest) and role != "subst"
            if role in ("sanitise", "strip"):
                ks = [x for _, pa, x in stores if pa == KP]
                asx = [x for _, pa, x in stores if pa == AP]
                made = None
                if ks:
                    x = bare(ks[-1])
                    made = self.variant("GroupKind", x.a[1]) if x.op == "adt" else "?"
                if made == "?" or asx:
                    R.skip(clo.a[0], "stores " + "; ".join(show(x)[:80] for x in ks + asx))
                    continue
                final = made or kind
                if kind is None and unsure and grp and res is not False:
                    R.skip(clo.a[0], "condition " + known[0])
                    continue
                if res == "err":
                    if role == "sanitise" and grp and kind == "CaptureName":
                        continue
                    R.v(nm, "a pattern without named groups is refused" if role == "sanitise" else "building the type's own pattern is refused", "", ctx)
                    continue
                if not grp:
                    # may be a joined path: nothing is known about the node
                    if made:
                        R.v(nm, "changes a node that is not a group", "", ctx)
                    if res is False:
                        R.v(nm, "does not look inside a node that is not a group, so groups inside it keep their kind", "", ctx)
                    elif res is None:
                        R.skip(clo.a[0], "returns " + show(v)[:80])
                    continue
                if role == "sanitise" and kind == "CaptureName" and made is None or role == "sanitise" and kind == "CaptureName":
                    R.v(nm, "a named group inside a field's pattern is accepted" + (" as a capture" if made is None else ""), "", ctx)
                    continue
                if role == "sanitise" and final != "NonCapturing":
                    R.v(nm, f"a group of kind {kind or 'unknown'} inside a field's pattern still captures", "", ctx)
                if role == "strip" and (final == "CaptureName" or final is None and not kind):
                    R.v(nm, "the type's own pattern keeps a named capture", "", ctx)
                if made == "NonCapturing":
                    fl = bare(bare(ks[-1]).a[2])
                    it = fl.a[2 + self.fieldix("Flags", "items")] if fl.op == "adt" and "Flags" in self.tys else None
                    if it is not None and not empty_vec(it):
                        fk = [f for y in [it] + fresh for f in flags_in(y, self)]
                        if fk:
                            R.v(nm, f"a group gets flags it did not have ({', '.join(fk)})", "", ctx)
                        else:
                            R.skip(clo.a[0], "group with flags " + show(it)[:80])
                    if kind == "NonCapturing":
                        R.v(nm, "a group with flags loses them", "", ctx)
                if res is False:
                    R.v(nm, "does not look inside a group, so groups nested in it keep their kind", "", ctx)
                elif res is None:
                    R.skip(clo.a[0], "returns " + show(v)[:80])
            else:
                asx = [x for _, pa, x in stores if pa == AP]
                ks = [x for _, pa, x in stores if pa == KP]
                if ks:
                    x = bare(ks[-1])
                    if x.op == "adt" and grp and kind == "CaptureName" and self.variant("GroupKind", x.a[1]) != "CaptureName" and not isinstance(v, Panic):
                        R.v(nm, "a placeholder loses its name while the patterns are filled in, so its field receives nothing", "", ctx)
                    else:
                        R.skip(clo.a[0], "stores a group kind")
                    continue
                hit = [(k, d) for k, d in rest if k.op == "disc" and bare(k.a[0]).op == "mapget"]
                namep = ((gi, 0), (None, kx), (self.vix("GroupKind", "CaptureName"), self.tys["GroupKind"]["v"][self.vix("GroupKind", "CaptureName")]["f"].index("name")),
                         (None, self.fieldix("CaptureName", "name")))
                if asx:
                    x = bare(asx[-1])
                    if not (grp and kind == "CaptureName"):
                        R.v(nm, "replaces the content of a group that has no name", "", ctx)
                        continue
                    got = x.a[0] if x.op == "field" and x.a[1:] == (1, 0) else None
                    if got is not None and bare(got).op == "mapget":
                        g = bare(got)
                        root, pa = path(g.a[1])
                        if pa != namep:
                            R.v(nm, "the pattern is looked up under something other than the group's own name", "", "  " + show(g)[:300])
                        if res is not False:
                            R.skip(clo.a[0], "walks into the replaced content") if res is True else R.v(nm, "fails after replacing", "", ctx)
                        continue
                    # chosen in another way: the names must be compared for equality
                    eqs = [k for k, d in rest if k.op == "streq" and d == 1 and any(path(y)[1] == namep for y in k.a)]
                    oth = [k for k, d in rest if d in (1, True) and k.op in ("call",) and any(isinstance(y, V) and path(y)[1] == namep for y in k.a[1:])]
                    if not eqs and oth:
                        R.v(nm, "a placeholder takes the pattern of a field chosen by " + oth[0].a[0].rsplit("::", 1)[-1] + ", not by equality of names", "", ctx)
                    elif not eqs:
                        R.skip(clo.a[0], "how the pattern is chosen")
                else:
                    if res == "err" or res is False:
                        if grp and kind == "CaptureName" and hit and hit[0][1] == 0 or not grp or kind not in (None, "CaptureName"):
                            R.v(nm, "stops at a node it does not replace, so placeholders inside it keep the any-text pattern", "", ctx)
                        else:
                            R.skip(clo.a[0], "returns " + show(v)[:60])
                    elif grp and kind == "CaptureName" and any(d == 1 for k, d in hit):
                        R.v(nm, "a placeholder whose field has a pattern is left as it is", "", ctx)

    def vix(self, ty, name):
        return [v["n"] for v in self.tys[ty]["v"]].index(name)


def flags_in(v, W):
    """names of the flags built into a value"""
    if v.op == "adt" and v.a[0] == AST + "Flag" and "Flag" in W.tys:
        yield W.variant("Flag", v.a[1])
    for x in v.a:
        if isinstance(x, V):
            yield from flags_in(x, W)


def empty_vec(v):
    v = bare(v)
    return v.op == "coll" or v.op == "call" and v.a[0].endswith("::new") and len(v.a) == 1 or v.op == "adt" and v.a[0].endswith("Vec")


def to_ast_rules(R, want):
    """to_ast / to_regex: None only for exactly the any-text pattern; the tree is the pattern's, without captures"""
    W = Walks(R)
    todo = []
    for nm in ("to_ast", "to_regex"):
        for r, mon in R.analyse("parse_display", r"helpers_std::%s::<" % nm):
            fmt_ = r.args[0]
            for s, v in r.outs:
                if isinstance(v, Panic):
                    continue
                if v.op != "adt" or not v.a[0].endswith("Option"):
                    R.skip(r.name, "returns " + show(v)[:80])
                    continue
                if v.a[1] == 0 and "none" in want:
                    eq = [k for k, d in s.facts.items() if k.op == "streq" and d == 1 and any(pattern_call(x, fmt_) for x in k.a)]
                    oth = [(k, d) for k, d in s.facts.items() if k.op != "streq" and mentions_pattern(k, fmt_)]
                    c = [bare(x).a[0] for k in eq for x in k.a if bare(x).op == "str"]
                    if c and any(samepat(x) for x in c):
                        continue
                    if c:
                        R.v(r, f"a format whose pattern is {c[0]!r} counts as having none", None)
                    elif oth:
                        R.v(r, "a format counts as having no pattern under another condition than having the any-text pattern", None,
                            "  " + "; ".join(f"{show(k)[:200]} = {d}" for k, d in oth))
                    else:
                        R.v(r, "a format's pattern is ignored", None, "  " + "; ".join(f"{show(k)[:200]} = {d}" for k, d in s.facts.items()))
                elif v.a[1] == 1:
                    x = bare(v.a[2])
                    if nm == "to_regex":
                        if "none" in want and not pattern_call(x, fmt_):
                            wrongv(R, r, x, "the format's own pattern")
                        continue
                    if x.op != "tup" or len(x.a) != 2:
                        R.skip(r.name, "returns " + show(v)[:80])
                        continue
                    if "none" in want and not pattern_call(x.a[0], fmt_):
                        wrongv(R, r, x.a[0], "the format's own pattern")
                    t, n = x.a[1], 0
                    clos = []
                    while walked(t):
                        t, c, call = walked(t)
                        clos.append((c, call))
                    src = parsed_of(t)
                    if src is None:
                        R.skip(r.name, "tree " + show(t)[:80])
                        continue
                    if not pattern_call(src, fmt_):
                        wrongv(R, r, src, "the tree of the format's own pattern")
                    if "walk" in want:
                        if not clos:
                            R.v(r, "the groups of a field's pattern keep capturing: no pass removes them")
                        for c, call in clos:
                            f = [d for k, d in s.facts.items() if k.op == "disc" and bare(k.a[0]) is call]
                            if f == [1] or not f:
                                R.v(r, "a named group in a field's pattern is not refused: the walk's error is dropped")
                            if c is not None and c.op in ("clo", "fn"):
                                todo.append((c, r.name))
                            else:
                                R.skip(r.name, "walk without a closure")
    for c, nm in todo[:1]:
        W.judge(c, "sanitise", nm)
    return W


def mentions_pattern(k, fmt_):
    if isinstance(k, V):
        if pattern_call(k, fmt_):
            return True
        return any(mentions_pattern(x, fmt_) for x in k.a)
    return False


def wrongv(R, r, v, what):
    R.v(r, f"uses something other than {what}: {show(v)[:160]}")


def samepat(x):
    try:
        return C.RX(P.rx_exe()).hir(x) == C.RX(P.rx_exe()).hir(ANYPAT)
    except C.Undecided:
        return False


def c10(R):
    to_ast_rules(R, ("none",))
    for r, mon in R.analyse("parse_display", r"^<Self as .*FromStrFormat<T>>::regex_pattern$"):
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
                continue
            x = bare(v)
            d = [y for k, y in s.facts.items() if k.op == "disc" and bare(k.a[0]).op == "call" and bare(k.a[0]).a[0].endswith("::regex")]
            if x.op == "str":
                if not samepat(x.a[0]):
                    R.v(r, f"a format without a pattern gets {x.a[0]!r}, not the any-text pattern")
                elif d != [0]:
                    R.v(r, "a format's deprecated `regex` is ignored")
            elif not (x.op == "field" and x.a[1:] == (1, 0) and bare(x.a[0]).op == "call" and bare(x.a[0]).a[0].endswith("::regex")):
                R.skip(r.name, "returns " + show(v)[:100])
    for r, mon in R.analyse("parse_display", r"^parse_display::helpers::parse_with::"):
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
            elif not (v.op == "call" and v.a[0].endswith("FromStrFormat<T>>::parse") and bare(v.a[1]) is r.args[0] and bare(v.a[2]) is r.args[1]):
                wrong(R, r, v, "the result of the format's parse on the whole text")
    formatted(R)


def infer(R):
    for r, mon in R.analyse("parse_display", r"RegexInfer as .*FromStrFormat<T>>::(regex|regex_pattern)$"):
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
                continue
            x = bare(v.a[2]) if v.op == "adt" and v.a[1] == 1 else bare(v)
            if not (x.op == "call" and x.a[0].endswith("FromStrRegex>::from_str_regex")):
                wrong(R, r, v, "the type's own pattern")
    for r, mon in R.analyse("parse_display", r"RegexInfer as .*FromStrFormat<T>>::parse$"):
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
            elif not (v.op == "call" and v.a[0].endswith("FromStr>::from_str") and bare(v.a[1]) is r.args[0 + 1]):
                wrong(R, r, v, "from_str of the whole text")


def parser_rules(R, want):
    """Parser::new: which pattern goes into which placeholder"""
    W = Walks(R)
    todo = []
    for r, mon in R.analyse("parse_display", r"helpers_std::Parser::new$", mon=LoopMon):
        ty = "parse_display::helpers_std::Parser"
        ix = {n: r.fieldno(ty, n) for n in ("re", "re_str", "ss")}
        withs = r.args[1]
        src = None
        for k in r.eng.table:
            if bare(k) is withs:
                src = k
        if src is None:
            R.skip(r.name, "no loop over the patterns")
            continue
        el = mk("el", src, "cur")
        maps, seqs = set(), set()
        item = ((None, 1),)

        def isentry(x):
            x = bare(x)
            return x.op == "tup" and len(x.a) == 2 and path(x.a[0]) == (el, ((None, 0),))
        loops = {}          # loop -> is there a pattern -> what the iterations record
        for m, log, fs in r.eng.table[src]:
            d = [x for k, x in fs if k.op == "disc" and path(k.a[0]) == (el, item)]
            rest = [(k, x) for k, x in fs if not (k.op == "disc" and path(k.a[0]) == (el, item))]
            puts = [e for e in log if e[0] == "put"]
            if rest or len(d) != 1 and puts:
                R.skip(r.name, "iteration under " + "; ".join(show(k)[:80] for k, _ in rest))
                loops = None
                break
            if "ss" in want and any(e[0] == "ins" for e in log):
                R.v(r, "a field's pattern is not stored at the end of the list, so the patterns are not in the order of the fields")
                continue
            for x in d or (0, 1):
                loops.setdefault(m[1] or 0, {}).setdefault(x, set()).add(tuple(e[1:] for e in puts))
        for has in (0, 1):
            if loops is None:
                break
            ways = [()]
            for q in loops.values():
                ways = [w + x for w in ways for x in q.get(has, {()})]
            for puts in ways:
                mp = [e for e in puts if e[0].a[1] == "map" or isentry(e[1])]
                sq = [e for e in puts if e not in mp]
                maps |= {e[0] for e in mp}
                seqs |= {e[0] for e in sq}
                if "subst" in want:
                    if has:
                        if not mp:
                            R.v(r, "the pattern of a field is not recorded under its name")
                        for e in mp:
                            x = bare(e[1])
                            if x.op != "tup" or path(x.a[0]) != (el, ((None, 0),)) or path(x.a[1]) != (el, ((None, 1), (1, 0), (None, 1))):
                                wrongv(R, r, x, "the field's name and its own pattern")
                    elif mp:
                        R.v(r, "a field without a pattern is recorded with one")
                if "ss" in want:
                    if len(sq) != 1:
                        R.v(r, f"{len(sq)} entries are stored for one field")
                        continue
                    x = bare(sq[0][1])
                    if not has and not (x.op == "adt" and x.a[1] == 0):
                        wrongv(R, r, x, "None for a field without a pattern")
                    if has and not (x.op == "adt" and x.a[1] == 1 and path(x.a[2]) == (el, ((None, 1), (1, 0), (None, 0)))):
                        wrongv(R, r, x, "the field's own pattern")
        for s, v in r.outs:
            if isinstance(v, Panic):
                continue
            if v.op != "adt":
                R.skip(r.name, "returns " + show(v)[:80])
                continue
            re_, rs, ss = [v.a[2 + ix[n]] for n in ("re", "re_str", "ss")]
            if "ss" in want and seqs and bare(ss) not in seqs:
                R.skip(r.name, "ss is " + show(ss)[:80])

            def chain(x):
                x = bare(x)
                if x.op == "call" and x.a[0].endswith("ToString>::to_string"):
                    x = bare(x.a[1])
                clos = []
                while walked(x):
                    x, c, call = walked(x)
                    clos.append(c)
                    f = [d for k, d in s.facts.items() if k.op == "disc" and bare(k.a[0]) is call]
                return x, clos[::-1]
            rc = ok_of(re_)
            if rc is None or not rc.a[0].endswith("Regex::new"):
                R.skip(r.name, "re is " + show(re_)[:80])
                continue
            t1, c1 = chain(rc.a[1])
            t2, c2 = chain(rs)
            for t, what in ((t1, "matcher"), (t2, "own pattern")):
                q = parsed_of(t)
                if q is None and t is r.args[0]:
                    q = t
                if q is None:
                    R.skip(r.name, what + " from " + show(t)[:80])
                elif q is not r.args[0]:
                    R.v(r, f"the {what} is built from something other than the given expression: {show(q)[:120]}")
            if not c1:
                R.v(r, "the matcher is compiled without the patterns of the fields")
            elif len(c1) > 1:
                # a matcher whose names were stripped cannot be read by name
                todo.append((c1[0], "subst", r.name))
                R.skip(r.name, "the matcher's tree is walked more than once")
            else:
                todo.append((c1[0], "subst", r.name))
                if c2[:1] != c1:
                    R.v(r, "the type's own pattern is not the matcher's: the patterns of the fields are missing in one of them")
                elif len(c2) == 1:
                    R.v(r, "the type's own pattern keeps the named captures of the matcher")
                for c in c2[1:]:
                    todo.append((c, "strip", r.name))
            if maps and c1 and c1[0] is not None and c1[0].op == "clo":
                held = {bare(x) for x in c1[0].a[2:] if isinstance(x, V)}
                if not (held & maps):
                    R.skip(r.name, "substitution does not hold the map")
    done = set()
    for c, role, nm in todo:
        if c is None or c.op not in ("clo", "fn"):
            R.skip(nm, "walk without a closure")
        elif (c.a[0], role) not in done and role in want:
            done.add((c.a[0], role))
            W.judge(c, role, nm)


def c21(R):
    parser_rules(R, ("subst",))
    walk_rules(R)
    infer(R)
    to_ast_rules(R, ("none",))


def c19(R):
    parser_rules(R, ("ss", "strip", "subst"))
    walk_rules(R)


def c29(R):
    to_ast_rules(R, ("walk",))
    walk_rules(R)


def walk_rules(R):
    """the walk reaches every node, in any syntax, unless told not to"""
    p = R.progs["parse_display"]
    W = Walks(R)
    rec = [d for d in recursive_fns(p)]
    if not rec:
        R.skip("tree walk", "no recursive function")
    kids = {"Repetition": ("Repetition", "ast", False), "Group": ("Group", "ast", False), "Alternation": ("Alternation", "asts", True), "Concat": ("Concat", "asts", True)}
    lists = set()
    nodes = set()
    for d in rec:
        f = next((p.fns[i] for i in p.roots if p.fns[i]["def"] == d), None) or p.bydef[d]
        t0 = p.T[f["l"][1]]["s"]
        (nodes if t0.endswith("ast::Ast") and "Vec" not in t0 and "[" not in t0 else lists).add(f["c"] and d)
    for d in sorted(nodes):
        f = next((p.fns[i] for i in p.roots if p.fns[i]["def"] == d), None) or p.bydef[d]
        try:
            r = Run(p, f, SplitMon())
        except (Unsupported, Skip) as x:
            R.skip(f["c"], str(x))
            continue
        R.fns += 1
        R.paths += len(r.outs)
        R.states += r.eng.nstates
        R.names.append(f["c"])
        tree = r.args[0]
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
                continue
            node = None
            asked = told = None
            visit = []
            for e in s.ev[1]:
                if e[0] == "ind":
                    if visit:
                        asked = "late"
                    elif bare(e[1].a[2]) is tree:
                        asked = e[1]
                elif e[0] == "rec":
                    visit.append(e)
            # events of loops are in the table
            for k, x in s.facts.items():
                if k.op == "disc" and path(k.a[0]) == (tree, ()):
                    node = x
                if k.op == "disc" and bare(k.a[0]) is asked and x == 1:
                    told = "err"
                if k.op == "field" and bare(k.a[0]) is asked and k.a[1:] == (0, 0):
                    told = bool(x)
            loop = [q for q in r.eng.table if path(q)[0] is tree]
            node = W.variant("Ast", node) if isinstance(node, int) else None
            if asked is None:
                if loop:
                    continue
                R.v(r, f"a node ({node or 'any'}) is not handed to the function")
                continue
            if asked == "late":
                R.skip(r.name, "order of visits")
                continue
            if told == "err":
                if visit:
                    R.v(r, "goes on after the function refused a node")
                if is_ok(v):
                    R.v(r, "a refusal by the function is dropped")
                continue
            if told is False:
                if visit:
                    R.v(r, "goes inside a node although told not to")
                elif is_err(v):
                    R.v(r, "fails although the function did not refuse")
                continue
            if told is None:
                R.skip(r.name, "answer of the function not understood")
                continue
            if node not in kids:
                if node is not None and is_err(v):
                    R.v(r, f"fails at {node}")
                continue
            ty, fld, many = kids[node]
            try:
                want = ((W.vix("Ast", node), 0), (None, W.fieldix(ty, fld)))
            except KeyError:
                want = None         # the code never names that type
            mine = [e for e in visit if pointee(e[2][0]) == (tree, want)]
            if loop and many:
                continue
            if not mine:
                R.v(r, f"does not look inside {node}", None, "  visits " + "; ".join(show(e[2][0])[:120] for e in visit))
                continue
            if many and mine[0][1] not in lists or not many and mine[0][1] not in nodes:
                R.skip(r.name, "visits through " + mine[0][1])
            if bare(mine[0][2][1]) is not bare(r.args[1]) if len(mine[0][2]) > 1 else True:
                R.v(r, f"visits the inside of {node} with another function", mine[0][3])
            k = [x for q, x in s.facts.items() if q.op == "disc" and bare(q.a[0]).op == "rec" and pointee(bare(q.a[0]).a[1]) == (tree, want)]
            if not (v.op == "rec" or k == [1] and is_err(v) or k == [0] and is_ok(v)):
                R.v(r, f"the result of visiting the inside of {node} is dropped", mine[0][3])
        for src in r.eng.table:
            each(R, r, src, nodes)
    for d in sorted(lists):
        f = next((p.fns[i] for i in p.roots if p.fns[i]["def"] == d), None) or p.bydef[d]
        try:
            r = Run(p, f, SplitMon())
        except (Unsupported, Skip) as x:
            R.skip(f["c"], str(x))
            continue
        R.fns += 1
        R.paths += len(r.outs)
        R.states += r.eng.nstates
        R.names.append(f["c"])
        srcs = [q for q in r.eng.table if bare(q) is r.args[0] or q.op == "range0" and bare(q.a[0]) is r.args[0]]
        if not srcs:
            for q in r.eng.table:
                if bare(q).op in ("rev", "skip", "take", "step_by") and bare(bare(q).a[0]) is r.args[0]:
                    if bare(q).op != "rev":
                        R.v(r, f"some nodes of a list are not visited ({bare(q).op})")
                    srcs.append(q)
        if not srcs:
            one = [e for s, v in r.outs for e in s.ev[1] if e[0] == "rec" and e[1] in nodes and picks(e[2][0])]
            if one and not r.eng.table and not any(e[0] == "rec" and e[1] in lists for s, v in r.outs for e in s.ev[1]):
                R.v(r, "only one node of a list is visited: " + picks(one[0][2][0]), one[0][3])
            else:
                R.skip(r.name, "no loop over the list")
            continue
        each(R, r, srcs[0], nodes)
        for s, v in r.outs:
            if isinstance(v, Panic):
                R.v(r, f"can panic ({v.msg})", v.sp)
            elif is_ok(v) and s.ev[0][0] == "M":
                R.v(r, "stops before the end of a list")
            elif is_ok(v) and s.ev[0][0] == "S":
                R.v(r, "returns without visiting the list", None, "  when " + "; ".join(show(k)[:100] for k in s.facts))


def picks(v):
    """the method that takes a single element out of a list, if v is one"""
    m = re.sub(r"::<[^<>]*>$", "", v.a[0]).rsplit("::", 1)[-1] if v.op == "call" else ""
    if m in ("first", "first_mut", "last", "last_mut", "get", "get_mut"):
        return m
    return next((p for p in (picks(x) for x in v.a if isinstance(x, V)) if p), None)


def each(R, r, src, nodes):
    el = mk("el", src, "cur")
    if src.op == "range0":
        el = mk("at", src.a[0], el)
    for m, log, fs in r.eng.table[src]:
        vis = [e for e in log if e[0] == "rec" and e[1] in nodes and pointee(e[2][0]) == (el, ())]
        if len(vis) != 1:
            R.v(r, "a node of a list is skipped" if not vis else "a node of a list is visited twice", None, "  when " + "; ".join(f"{show(k)[:120]} = {d}" for k, d in fs))
            continue
        if len(vis[0][2]) > 1 and bare(vis[0][2][1]) is not bare(r.args[1]):
            R.v(r, "visits with another function", vis[0][3])
        k = [x for q, x in fs if q.op == "disc" and bare(q.a[0]).op == "rec"]
        if k == [1] or not k:
            R.v(r, "goes on after a node was refused", vis[0][3])


def recursive_fns(p):
    from reng import recursive
    return recursive(p)


# ------------------------------------------------------------------------------------------------ entry
RULES = dict(C06=c06, C10=c10, C11=c11, C18=c18, C19=c19, C21=c21, C23=c23, C25=c25, C26=c26, C28=c28, C29=c29)
WHAT = "the runtime's own functions are reduced, over all paths and loops (states compared until none is new), to what they write, call, store and return"


EXPLAIN = dict(
    C18="Rule: each FromStrRegex::from_str_regex of a standard type returns a constant; as automata, the language the type's Display writes is included in the whole pattern, and the pattern in the syntax its FromStr reads.",
    C23="Rule: Join::write is, over every sequence of items and every write outcome, the language item (delimiter item)* and nothing after a failure; Join::parse hands each piece of str::split(input, delimiter), in order, to the item format, collects every Ok and returns the first Err.",
    C25="Rule: IntoResult and ParseError conversions keep the variant and the value; each function-based format calls the supplied function exactly once with the caller's arguments and returns its result.",
    C29="Rule: every node kind of the syntax tree hands its children to the same function; a pattern's captures become unnamed groups, a named group is refused, a parse error is returned.")


def run(rep, pid, tier, seed):
    progs = load()
    R = Rules(rep, pid, progs)
    try:
        RULES[pid](R)
    except Exception as x:      # a shape of code the rules were not written for: no verdict
        if os.environ.get("PD_DEBUG"):
            raise
        rep.undecided.append(f"runtime: {type(x).__name__}: {x}")
    rep.cov.update(runtime_functions=R.fns, runtime_paths=R.paths, runtime_states=R.states, runtime_analysed=sorted({short(x) for x in R.names})[:60])
    if rep.level == "other":
        rep.cov["explanation"] = (f"{WHAT}: {R.fns} functions, {R.paths} paths, {R.states} abstract states. " + " ".join((EXPLAIN.get(pid) or RULES[pid].__doc__ or "").split()))
    else:
        rep.cov["rule"] = (rep.cov["rule"] + "; and " + WHAT) if rep.cov.get("rule") else WHAT
    rep.assume += [x for x in ("rustc's MIR is the program that runs", "std, regex and regex-syntax behave as documented (summarised, not analysed)",
                               "a construct the abstract domain does not know gives no verdict on that function (listed as undecided)") if x not in rep.assume]
