"""Compares the abstract meaning of generated code (absint.py, over MIR) with the reference meaning of the attributes
(model.py).  Every disagreement is a Finding with a set of kinds; checks pick the kinds that belong to their property."""
import itertools
import json
import os
import re as _re
import subprocess

from absint import (DEFSPEC, UNINIT, Eng, Panic, St, Unsupported, V, leaves, mk, mkite, reset, show)
import model


class Finding:
    def __init__(self, kinds, w, what, sp=None, fn=None):
        self.kinds = set(kinds)
        self.w = w
        self.what = what
        self.sp = sp
        self.fn = fn

    def __repr__(self):
        return f"{self.w.name if self.w else '-'}[{','.join(sorted(self.kinds))}] {self.what}"


class Undecided(Exception):
    pass


class BadRegex(Undecided):
    """a pattern of the generated code that is no regular expression"""


# ---------------------------------------------------------------------------------------------- regular expressions
class RX:
    def __init__(self, exe):
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.cache = {}

    def ask(self, *a):
        line = " ".join([a[0]] + [x.encode().hex() for x in a[1:]])
        if line not in self.cache:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
            self.cache[line] = json.loads(self.p.stdout.readline())
        return self.cache[line]

    def hir(self, s, ref=False):
        r = self.ask("hir", s)
        if "err" in r:
            x = "regex does not parse: %r: %s" % (s, r["err"])
            raise Undecided(x) if ref or "limit" in r["err"] or "exceed" in r["err"] else BadRegex(x)
        return r["hir"]

    def incl(self, a, b):
        """None if L(a) is within L(b), else a string in the difference"""
        r = self.ask("incl", a, b)
        if "err" in r:
            raise Undecided("inclusion: " + r["err"])
        return None if r["ok"] else r["w"]


def canon(h, lab):
    """canonical tree; lab(idx, name) -> label or None (group is not read)"""
    k = h[0]
    if k == "empty":
        return ("cat",)
    if k == "lit":
        return ("lit", bytes.fromhex(h[1]).decode("utf8", "replace"))
    if k in ("class", "bclass"):
        if len(h) == 2 and h[1][0] == h[1][1]:
            return ("lit", chr(h[1][0]))
        return ("class",) + tuple((a, b) for a, b in h[1:])
    if k == "look":
        return ("look", h[1])
    if k == "rep":
        sub = canon(h[4], lab)
        if h[1] == 1 and h[2] == 1:
            return sub
        return ("rep", h[1], h[2], h[3], sub)
    if k == "cap":
        l = lab(h[1], h[2])
        sub = canon(h[3], lab)
        return sub if l is None else ("cap", l, sub)
    if k == "alt":
        out = []
        for x in h[1:]:
            c = canon(x, lab)
            out += list(c[1:]) if c[0] == "alt" else [c]
        return ("alt",) + tuple(out)
    if k == "cat":
        return cat([canon(x, lab) for x in h[1:]])
    raise Undecided("hir " + k)


def cat(xs):
    out = []
    for c in xs:
        for y in (c[1:] if c[0] == "cat" else [c]):
            if out and y[0] == "lit" and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + y[1])
            else:
                out.append(y)
    return out[0] if len(out) == 1 else ("cat",) + tuple(out)


def caps_in(h, acc=None):
    acc = [] if acc is None else acc
    if h[0] == "cap":
        acc.append((h[1], h[2]))
    for x in h[1:]:
        if isinstance(x, list) and x and isinstance(x[0], str):
            caps_in(x, acc)
    return acc


def mandatory(h, acc=None, ok=True):
    """indices of groups that take part in every match"""
    acc = set() if acc is None else acc
    k = h[0]
    if k == "cap":
        if ok:
            acc.add(h[1])
        mandatory(h[3], acc, ok)
    elif k == "rep":
        mandatory(h[4], acc, ok and h[1] > 0)
    elif k == "cat":
        for x in h[1:]:
            mandatory(x, acc, ok)
    elif k == "alt":
        for x in h[1:]:
            mandatory(x, acc, False)
    return acc


def to_re(c, mark=None):
    """canonical tree -> regex text; mark(label) -> (open, close) literal markers"""
    k = c[0]
    if k == "lit":
        return model.lit_re(c[1])
    if k == "class":
        if len(c) == 1:
            return r"[^\x{0}-\x{10FFFF}]"
        return "[" + "".join("\\x{%X}-\\x{%X}" % r for r in c[1:]) + "]"
    if k == "look":
        return {"Start": r"\A", "End": r"\z", "StartLF": "(?m:^)", "EndLF": "(?m:$)", "WordUnicode": r"\b",
                "WordUnicodeNegate": r"\B", "StartCRLF": "(?mR:^)", "EndCRLF": "(?mR:$)", "WordAscii": r"(?-u:\b)",
                "WordStartUnicode": r"\b{start}", "WordEndUnicode": r"\b{end}"}[c[1]]
    if k == "rep":
        mx = "" if c[2] < 0 else str(c[2])
        return "(?:%s){%d,%s}%s" % (to_re(c[4], mark), c[1], mx, "" if c[3] else "?")
    if k == "cap":
        o, e = mark(c[1]) if mark else ("", "")
        return "(?:" + o + to_re(c[2], mark) + e + ")"
    if k == "cat":
        return "".join("(?:%s)" % to_re(x, mark) if x[0] == "alt" else to_re(x, mark) for x in c[1:])
    if k == "alt":
        return "(?:" + "|".join(to_re(x, mark) for x in c[1:]) + ")"
    raise Undecided(k)


def greed(c, acc):
    if c[0] == "rep":
        acc.append((c[1], c[2], c[3]))
    for x in c[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            greed(x, acc)
    return acc


def relabel(c, f):
    if c[0] == "cap":
        return ("cap", f(c[1]), relabel(c[2], f))
    return tuple(relabel(x, f) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in c)


def labels_of(c, acc):
    if c[0] == "cap":
        acc.append(c[1])
    for x in c[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            labels_of(x, acc)
    return acc


def same_regex(rx, a, b):
    """None if both canonical trees mean the same, else (kind, text)"""
    if a == b:
        return None
    la, lb = sorted(map(str, labels_of(a, []))), sorted(map(str, labels_of(b, [])))
    if la != lb:
        return ("capture", f"groups read by fields {la}, expected {lb}")
    idx = {l: i for i, l in enumerate(dict.fromkeys(la))}

    def mark(l):
        return chr(0xF0000 + 2 * idx[str(l)]), chr(0xF0001 + 2 * idx[str(l)])
    ra, rb = to_re(a, mark), to_re(b, mark)
    w = rx.incl(ra, rb)
    if w is not None:
        return (diffkind(a, b), "accepts %r, which the format does not describe" % clean(w))
    w = rx.incl(rb, ra)
    if w is not None:
        return (diffkind(a, b), "rejects %r, which the format describes" % clean(w))
    if sorted(greed(a, [])) != sorted(greed(b, [])):
        ga = sorted(g for g in greed(a, []) if not g[2]) != sorted(g for g in greed(b, []) if not g[2])
        if ga:
            return ("greedy", "prefers other matches than the format describes")
    return None


def clean(w):
    return "".join("⟨" if 0xF0000 <= ord(c) < 0xF1000 and ord(c) % 2 == 0 else "⟩" if 0xF0000 <= ord(c) < 0xF1000 else c
                   for c in w)


def diffkind(a, b):
    fa, fb = list(a[1:]) if a[0] == "cat" else [a], list(b[1:]) if b[0] == "cat" else [b]
    la, lb = [x for x in fa if x[0] == "look"], [x for x in fb if x[0] == "look"]
    if la != lb:
        return "anchor"
    for x, y in itertools.zip_longest(fa, fb):
        if x != y:
            if x is None or y is None:
                return "body"
            if x[0] == "lit" or y[0] == "lit":
                return "literal"
            return "body"
    return "body"


# ---------------------------------------------------------------------------------------------- terms
_norm = {}


def fresh():
    reset()
    _norm.clear()


def norm(v):
    """drop borrow/deref wrappers everywhere (values are compared by identity of what they denote)"""
    r = _norm.get(v)
    if r is not None:
        return r
    if v.op in ("rv", "deref") and isinstance(v.a[0], V):
        r = norm(v.a[0])
    elif v.op == "ite":
        r = mkite(norm(v.a[0]), [(o, norm(x)) for o, x in v.a[1]])
    elif v.op == "upd":
        r = mk("upd", norm(v.a[0]), tuple((k, norm(x)) for k, x in v.a[1]), ty=v.ty)
    elif v.op in ("args", "part"):
        r = v
    else:
        r = mk(v.op, *[norm(x) if isinstance(x, V) else x for x in v.a], ty=v.ty)
    # text of a group, empty when it did not take part
    if r.op == "ite" and r.a[0].op == "disc" and r.a[0].a[0].op in ("capget", "capname") and len(r.a[1]) == 2:
        g = r.a[0].a[0]
        d = dict(r.a[1])
        if d.get(0) is mk("str", "") and d.get(1) is mk("mstr", mk("field", g, 1, 0)):
            r = mk("text", g)
    _norm[v] = r
    return r


def pnorm(v):
    """for addresses: only the dereference of the receiver itself is transparent"""
    if v.op == "field":
        b = pnorm(v.a[0])
        return v if b is v.a[0] else mk("field", b, *v.a[1:], ty=v.ty)
    if v.op == "deref" and v.a[0].op == "sym":
        return v.a[0]
    return v


def subst(v, facts):
    """resolve conditionals decided by facts"""
    if v.op == "ite":
        k = facts.get(v.a[0])
        if k is not None:
            for o, x in v.a[1]:
                if o == k:
                    return subst(x, facts)
        return mkite(v.a[0], [(o, subst(x, facts)) for o, x in v.a[1]])
    if v.op == "upd":
        return mk("upd", subst(v.a[0], facts), tuple((k, subst(x, facts)) for k, x in v.a[1]), ty=v.ty)
    if v.op in ("args", "part", "str", "sym"):
        return v
    if any(isinstance(x, V) for x in v.a):
        return mk(v.op, *[subst(x, facts) if isinstance(x, V) else x for x in v.a], ty=v.ty)
    return v


def first_ite(v):
    if v.op == "ite":
        return v
    if v.op == "upd":
        for x in (v.a[0],) + tuple(y for _, y in v.a[1]):
            r = first_ite(x)
            if r is not None:
                return r
        return None
    if v.op in ("args", "part"):
        return None
    for x in v.a:
        if isinstance(x, V):
            r = first_ite(x)
            if r is not None:
                return r
    return None


def contains(v, pred, memo=None):
    memo = {} if memo is None else memo
    if v in memo:
        return memo[v]
    memo[v] = False
    r = pred(v)
    if not r:
        if v.op == "ite":
            r = contains(v.a[0], pred, memo) or any(contains(x, pred, memo) for _, x in v.a[1])
        elif v.op == "upd":
            r = contains(v.a[0], pred, memo) or any(contains(x, pred, memo) for _, x in v.a[1])
        elif v.op == "args":
            r = any(p[0] == "ph" and contains(p[2], pred, memo) for p in v.a[0])
        else:
            r = any(isinstance(x, V) and contains(x, pred, memo) for x in v.a)
    memo[v] = r
    return r


LIMIT = 6000


def alternatives(pairs):
    """[(term, outcome)] -> list of {atom: outcome}, in disjunctive normal form"""
    alts = [{}]
    for k, d in pairs:
        nxt = []
        opts = atomise(k, d)
        for a in alts:
            for o in opts:
                b = dict(a)
                for x, y in o.items():
                    if b.get(x, y) != y:
                        break
                    b[x] = y
                else:
                    nxt.append(b)
        alts = nxt
        if len(alts) > LIMIT:
            raise Undecided("too many alternatives")
    out = []
    seen = set()
    for a in alts:
        key = frozenset(a.items())
        if key not in seen:
            seen.add(key)
            out.append(a)
    return out


def atomise(k, d):
    if k.op == "not":
        return atomise(k.a[0], d ^ 1 if d in (0, 1) else d)
    if k.op in ("int", "bool", "ch"):
        return [{}] if int(k.a[0]) == d or d == "else" else []
    if k.op == "ite":
        out = []
        for x, path in leaves(k):
            if x.op == "infeasible":
                continue
            if x.op in ("int", "bool", "ch") and int(x.a[0]) != d:
                continue
            pairs = list(path)
            if x.op not in ("int", "bool", "ch"):
                pairs.append((x, d))
            out += alternatives(pairs)
            if len(out) > LIMIT:
                raise Undecided("too many alternatives")
        return out
    if k.op == "bin" and k.a[0] in ("Eq", "Ne") and d in (0, 1):
        a, b = k.a[1], k.a[2]
        if a.op in ("int", "bool"):
            a, b = b, a
        if b.op in ("int", "bool"):
            want = d ^ (k.a[0] == "Ne")
            if want:
                return atomise(a, int(b.a[0]))
    if _infallible[0] and d == 1 and k.op == "disc" and k.a[0].op == "call" and k.a[0].a[0] == "<std::string::String as std::str::FromStr>::from_str":
        return []
    return [{k: d}]


# whether the error of String::from_str (Infallible, without values) is left out: only where the alternatives are too many otherwise
_infallible = [False]


def ground(alt, val):
    """split an alternative further until neither its atoms nor the value contain an undecided conditional"""
    work = [(alt, val)]
    out = []
    n = 0
    while work:
        a, v = work.pop()
        n += 1
        if n > LIMIT:
            raise Undecided("too many alternatives")
        f = dict(a)
        pairs = []
        ch = False
        for k, d in a.items():
            k2 = subst(k, {x: y for x, y in a.items() if x is not k}) if first_ite(k) is not None else k
            ch = ch or k2 is not k
            pairs.append((k2, d))
        if ch:
            for a2 in alternatives(pairs):
                work.append((a2, v))
            continue
        v2 = subst(v, f) if v is not None else None
        it = None
        for k in a:
            it = first_ite(k)
            if it is not None:
                break
        if it is None and v2 is not None:
            it = first_ite(v2)
        if it is None:
            out.append((a, v2))
            continue
        sc = it.a[0]
        for o, _ in it.a[1]:
            for a2 in alternatives(list(a.items()) + [(sc, o)]):
                a2 = dict(a2)
                if sc.op == "ite":
                    # a composite condition: make its outcome itself known too
                    v3 = replace_ite(v2, it, o) if v2 is not None else None
                    work.append((a2, v3))
                else:
                    work.append((a2, v2))
    return out


def replace_ite(v, it, o):
    if v is it:
        return dict(it.a[1])[o]
    if v.op == "ite":
        return mkite(v.a[0], [(k, replace_ite(x, it, o)) for k, x in v.a[1]])
    if v.op == "upd":
        return mk("upd", replace_ite(v.a[0], it, o), tuple((k, replace_ite(x, it, o)) for k, x in v.a[1]), ty=v.ty)
    if v.op in ("args", "part"):
        return v
    return mk(v.op, *[replace_ite(x, it, o) if isinstance(x, V) else x for x in v.a], ty=v.ty)


# ---------------------------------------------------------------------------------------------- program access
def opaque(fn):
    tr = fn.get("tr", "")
    c = fn["c"]
    if tr in ("std::str::FromStr", "std::default::Default"):
        return True
    if fn.get("kr") not in ("parse_display", "parse_display_derive"):
        return "usr::" in (fn.get("rd") or fn["def"])
    d = fn.get("rd") or fn["def"]
    return d.endswith(("helpers::Parser::new", "::to_ast", "::to_regex", "::ast_from_str", "::build_regex", "::replace_ast",
                       "::Parser::new")) or fn.get("m") in ("regex", "regex_pattern", "from_str_regex")


def find_impl(prog, crate, tyname, trait, m):
    for i in prog.roots:
        f = prog.fns[i]
        if f.get("tr") == trait and f.get("m") == m:
            s = f.get("self", "")
            if _re.sub(r"<.*", "", s) == f"{crate}::{tyname}":
                return f
    return None


def opt_elem(ty):
    m = _re.match(r"^(?:(?:::)?(?:core|std)::option::)?Option\s*<(.*)>$", ty.strip())
    return m.group(1).strip() if m else None


class Paths:
    """terms for the values a path denotes"""

    def __init__(self, eng, w, v, vi):
        self.eng = eng
        self.w = w
        self.v = v
        self.vi = vi

    def term(self, base, path, exact=False):
        i, f = model.find_field(self.v, path[0])
        t = self.eng.field(base, self.vi if self.w.enum else None, i)
        ty = f.ty
        for k in path[1:]:
            if k == "!":
                t = mk("field", t, 1, 0)
                ty = opt_elem(ty)
            else:
                st = model.usrstruct(ty)
                if st is None:
                    raise Undecided("path into " + ty)
                j = st[0].index(k)
                t = mk("field", t, None, j)
                ty = st[1][j]
        return t, ty


def variants(w):
    return list(enumerate(w.body)) if w.enum else [(0, w.body)]


# ---------------------------------------------------------------------------------------------- Display
def toks(events):
    out = []
    for i, e in enumerate(events):
        if e[0] == "lit":
            out += [("c", c) for c in e[1]]
        elif e[0] == "fmt":
            v = pnorm(e[3]) if e[1] == "Pointer" else norm(e[3])
            if e[1] == "Display" and v.op == "str":
                if e[2] == DEFSPEC:
                    out += [("c", c) for c in v.a[0]]
                else:
                    out.append(("fmt", "Display", e[2], v))
            else:
                out.append(("fmt", e[1], e[2], v))
        elif e[0] == "str" and norm(e[1]).op == "str":
            out += [("c", c) for c in norm(e[1]).a[0]]
        elif e[0] == "callfmt":
            out.append(("call", e[1], e[2], tuple(norm(x) for x in e[3])))
        else:
            out.append(tuple(e))
    return out


def ev_is_output(e):
    return e[0] in ("lit", "fmt", "str", "char", "callfmt", "argsopaque")


def with_matches(name, args, wt, trait, method, last):
    return bool(_re.match(r"<(\w+::)?%s as [\w:]*%s\b" % (_re.escape(wt.ty), trait), name)) and name.rsplit("::", 1)[-1] == method


def expected_toks(P, items, base, facts, spec_self, kinds):
    """(tokens, kinds per token) for the choice of present options in facts"""
    out = []
    for it in items:
        if it[0] == "lit":
            out += [(("c", c), kinds | {"text"}) for c in it[1]]
        elif it[0] == "name":
            out.append((("fmt", "Display", it[1], mk("str", it[2])), kinds | {"name", "spec"}))
        elif it[0] == "fmt":
            t, ty = P.term(base, it[3])
            tt = pnorm(t) if it[1] == "Pointer" else norm(t)
            ks = set(kinds)
            out.append((("fmt", it[1], it[2], tt), ks))
        elif it[0] == "self":
            out.append((("fmt", it[1], it[2], norm(base)), kinds))
        elif it[0] == "with":
            t, ty = P.term(base, it[2])
            out.append((("with", it[1], norm(t)), kinds | {"with"}))
        elif it[0] == "opt":
            t, ty = P.term(base, it[1])
            o = facts.get(mk("disc", norm(t)))
            if o is None:
                return None, mk("disc", norm(t))
            if o == 1:
                r, need = expected_toks(P, it[2], base, facts, spec_self, kinds | {"opt"})
                if r is None:
                    return None, need
                out += r
            else:
                out.append((("none",), kinds | {"opt"}))
    return out, None


def tok_eq(e, a):
    if e[0] == "with":
        return a[0] == "call" and with_matches(a[1], a[3], e[1], "DisplayFormat", "write", None) and a[3][-1] is e[2]
    return e == a


def mismatch_kind(e, a):
    if a is None:
        return {"missing"} | ({"value"} if e and e[0] != "c" else {"text"})
    if e is None:
        return {"extra"} | ({"text"} if a[0] == "c" else {"value"})
    if e[0] == "with" or a[0] == "call":
        return {"with"}
    if e[0] == "fmt" and a[0] == "fmt":
        if e[3] is not a[3]:
            # another placeholder's value, or another view of the same value
            return {"value"} if e[1] != "Pointer" else {"value", "spec"}
        return {"spec"}
    if e[0] == "c" and a[0] == "c":
        return {"text"}
    return {"text", "value"}


def check_display(prog, w, crate, spans=True):
    f = find_impl(prog, crate, w.name, "std::fmt::Display", "fmt")
    if f is None:
        return [Finding({"missing-impl"}, w, "no Display impl is generated")], {}
    fresh()
    eng = Eng(prog, opaque=opaque)
    st = St()
    sym = mk("sym", "self", ty=f["l"][1])
    res = eng.run(f, [sym, mk("fmtr", "caller")], st)
    base = mk("deref", sym)
    nbase = norm(base)
    out = []
    covered = set()
    paths = 0

    def add(kinds, what, sp=None):
        x = Finding(kinds, w, what, sp or f["sp"], f["c"])
        if not any(y.what == what for y in out):
            out.append(x)
    vdisc = mk("disc", nbase)
    for s, v in res:
        if isinstance(v, Panic):
            paths += 1
            add({"dpanic"}, f"can panic: {v.msg}", v.sp)
            continue
        for leaf, path in leaves(v, s.facts):
            if leaf.op == "infeasible":
                continue
            facts0 = {}
            for a in alternatives([(norm(k), d) for k, d in list(s.facts.items()) + list(path)]):
                facts0 = a
                paths += 1
                _display_path(prog, eng, w, f, s, leaf, facts0, nbase, vdisc, add, covered)
    for vi, v in variants(w):
        n = 1
        if vi not in covered:
            add({"variant", "missing"}, f"no path displays {v.name}")
    return out, {"fn": f["c"], "paths": paths, "stats": eng.stats}


def _display_path(prog, eng, w, f, s, leaf, facts, base, vdisc, add, covered):
    evs = [e for e in s.ev]
    for e in evs:
        if not ev_is_output(e):
            add({"effect"}, f"does something besides writing: {show(e[1]) if len(e) > 1 and isinstance(e[1], V) else e}")
    outs = evs
    emits = {k.a[0]: d for k, d in facts.items() if k.op == "emit"}
    n = len(outs)
    failed = [k for k, d in emits.items() if d == 1]
    unknown = [k for k in range(n) if k not in emits and ev_is_output(outs[k])]
    if leaf.op == "adt" and leaf.a[0].endswith("Result"):
        isok = leaf.a[1] == 0
    else:
        raise Undecided("result " + show(leaf)[:200])
    if failed and min(failed) != n - 1:
        add({"werr"}, f"writes {outs[min(failed) + 1]!r:.80} after the destination reported an error")
        return
    for k in unknown:
        add({"werr"}, f"the result of writing {str(outs[k])[:80]} is ignored")
        return
    if failed and isok:
        add({"werr"}, "returns Ok although the destination reported an error")
        return
    if not failed and not isok:
        add({"werr", "spurious-fmt-err"}, "returns an error although every write succeeded")
        return
    vis = [facts[vdisc]] if vdisc in facts and w.enum else None
    for vi, v in variants(w):
        if vis is not None and vi not in vis:
            continue
        P = Paths(eng, w, v, vi)
        items = model.display_ref(w, v)
        # all choices of options this path may stand for
        pend = [dict(facts)]
        while pend:
            fc = pend.pop()
            exp, need = expected_toks(P, items, base, fc, None, set())
            if exp is None:
                for o in (0, 1):
                    d = dict(fc)
                    d[need] = o
                    pend.append(d)
                continue
            kinds_all = [k for _, k in exp]
            exp = [(t, k) for t, k in exp if t != ("none",)]
            act = toks(outs)
            if failed:
                # the failing piece counts as attempted: what was written is a prefix
                m = None
                for i, a in enumerate(act):
                    if i >= len(exp) or not tok_eq(exp[i][0], a):
                        m = i
                        break
            else:
                m = None
                for i in range(max(len(exp), len(act))):
                    if i >= len(exp) or i >= len(act) or not tok_eq(exp[i][0], act[i]):
                        m = i
                        break
                if m is None and not failed:
                    covered.add(vi)
            if m is not None:
                e, ks = exp[m] if m < len(exp) else (None, set().union(*kinds_all) if kinds_all else set())
                a = act[m] if m < len(act) else None
                covered.add(vi)
                add(mismatch_kind(e, a) | (ks - {"text"}) | ({"variant"} if w.enum else set()),
                    f"{v.name if w.enum else w.name}: piece {m}: expected {tokstr(e)}, generated code writes {tokstr(a)}")


def tokstr(t):
    if t is None:
        return "nothing"
    if t[0] == "c":
        return "character %r" % t[1]
    if t[0] == "with":
        return f"{t[1].expr} on {show(t[2])}"
    if t[0] == "fmt":
        return f"{t[1]} of {show(t[3])} with options {t[2]}"
    return str(t)[:200]


# ---------------------------------------------------------------------------------------------- FromStr
def is_sym_s(v):
    return v.op == "sym" and v.a[0] == "s"


def group_of(t):
    """capture group a text term reads: (captures term, index or name) or None"""
    if t.op == "text":
        g = t.a[0]
    elif t.op == "mstr" and t.a[0].op == "field":
        g = t.a[0].a[0]
    else:
        return None
    if g.op not in ("capget", "capname"):
        return None
    c = g.a[0]
    ix = g.a[1]
    return c, (ix.a[0] if ix.op in ("int", "str") else None), g


class Bad(Exception):
    def __init__(self, kinds, what):
        self.kinds = set(kinds)
        self.what = what


class FS:
    """check of one from_str"""

    def __init__(self, prog, w, crate, rx):
        self.prog = prog
        self.w = w
        self.crate = crate
        self.rx = rx
        self.out = []
        self.f = find_impl(prog, crate, w.name, "std::str::FromStr", "from_str")
        self.gates = {}       # variant -> set of atoms with the outcome that means "this variant's text"
        self.evid = {}        # variant -> set of (atom, failing outcome)
        self.paths = 0
        self.eng = None
        self.refs = {}
        self.once = []

    def add(self, kinds, what, sp=None):
        for y in self.out:
            if y.what == what:
                y.kinds = set(y.kinds) | set(kinds)
                return
        self.out.append(Finding(kinds, self.w, what, sp or (self.f["sp"] if self.f else None), self.f["c"] if self.f else None))

    def gate_info(self, cterm):
        """field(captures(re, s),1,0) -> (regex text, withs)"""
        if cterm.op == "field" and cterm.a[0].op == "captures":
            cterm = cterm.a[0]
        if cterm.op != "captures":
            raise Undecided("captures of " + show(cterm)[:100])
        re, s = cterm.a
        if not is_sym_s(norm(s)):
            raise Bad({"route", "anchor"}, f"the pattern is matched against {show(s)[:80]}, not the whole input")
        return self.re_info(re)

    def re_info(self, re):
        re = norm(re)
        if re.op == "field":
            re = re.a[0]
        if re.op == "call" and re.a[0].endswith("Parser::new"):
            args = re.a[1:]
            if args[0].op != "str":
                raise Undecided("pattern is not a constant")
            withs = []
            arr = args[1]
            if arr.op != "arr":
                raise Undecided("patterns of fields")
            for x in arr.a:
                withs.append((x.a[0].a[0], x.a[1]))
            return args[0].a[0], withs
        if re.op == "field" and re.a[0].op == "call":
            return self.re_info(re.a[0])
        raise Undecided("regex term " + show(re)[:120])

    def run(self):
        f = self.f
        w = self.w
        if f is None:
            self.add({"missing-impl"}, "no FromStr impl is generated")
            return self
        eng = self.eng = Eng(self.prog, opaque=opaque)
        res = eng.run(f, [mk("sym", "s", ty=f["l"][1])], St())
        self.once = eng.once
        items = []
        for s, v in res:
            if isinstance(v, Panic):
                self.panic(s, v)
                continue
            for e in s.ev:
                self.add({"effect", "state"}, f"parsing has a side effect: {str(e)[:120]}")
            for leaf, path in leaves(v, s.facts):
                if leaf.op == "infeasible":
                    continue
                items.append(([(norm(k), d) for k, d in list(s.facts.items()) + list(path)], norm(leaf)))
        for vi, v in variants(w):
            if w.enum and model.fromstr_attrs(v.attrs).get("ignore"):
                continue
            self.refs[vi] = model.fromstr_ref(w, v)
        errs = []
        oks = []
        for pairs, leaf in items:
            for a in alternatives(pairs):
                if leaf.op == "adt" and leaf.a[0].endswith("Result") and leaf.a[1] == 1:
                    errs.append((a, leaf))
                elif leaf.op == "adt" and leaf.a[0].endswith("Result"):
                    for a2, v2 in ground(a, leaf.a[2]):
                        if self.feasible(a2):
                            oks.append((a2, v2))
                else:
                    # a result passed on unchanged: Ok(x) exactly when it is Ok
                    d = mk("disc", leaf)
                    for a2, v2 in ground(a, leaf):
                        b = dict(a2)
                        if b.get(d, 0) == 0:
                            b[d] = 0
                            oks.append((b, mk("field", v2, 0, 0)))
                        b = dict(a2)
                        if b.get(d, 1) == 1:
                            b[d] = 1
                            errs.append((b, leaf))
        self.paths = len(oks) + len(errs)
        for a, v in oks:
            self.ok(a, v)
        for vi, v in variants(w):
            if vi in self.refs and vi not in self.gates and not any("variant-try" in x.kinds for x in self.out):
                if not any(x.kinds & {"route", "new", "default", "conv", "opt", "with", "variant"} for x in self.out) and not self.covered(vi):
                    self.add({"variant", "new-missing" if self.refs[vi].new else "missing"}, f"no input can yield {v.name}")
        if not self.out:
            for a, leaf in errs:
                for a2, _ in ground(a, None):
                    if self.feasible(a2):
                        self.err(a2)
        return self

    def covered(self, vi):
        """no text is left for this variant: the ones that come first (fixed texts do) take all of its own"""
        R = self.refs[vi]
        rest = [r for j, r in self.refs.items() if j != vi and (j < vi or r.literal is not None)]
        if not rest or R.withs or any(r.withs for r in rest):
            return False
        plain = lambda x: "(?:%s)" % _re.sub(r"\(\?P?<g\d+>", "(?:", x)
        try:
            return self.rx.incl(plain(R.re), "|".join(plain(r.re) for r in rest)) is None
        except Undecided:
            return False

    def feasible(self, a):
        for k, d in a.items():
            g = None
            if k.op == "disc" and k.a[0].op in ("capget", "capname") and d == 0:
                g = k.a[0]
            if k.op == "capsome" and d == 0:
                g = k.a[0]
            if g is not None:
                try:
                    re, _ = self.gate_info(g.a[0])
                except (Undecided, Bad):
                    continue
                h = self.rx.hir(re)
                ix = self.index_of(h, g.a[1])
                if ix == 0 or ix in mandatory(h):
                    return False
        return True

    def index_of(self, h, ix):
        if ix.op == "int":
            return ix.a[0]
        for i, n in caps_in(h):
            if n == ix.a[0]:
                return i
        return None

    def panic(self, s, p):
        alts = []
        for a in alternatives([(norm(k), d) for k, d in s.facts.items()]):
            for a2, _ in ground(a, None):
                if self.feasible(a2):
                    alts.append(a2)
        # a condition on the input, beyond merely having got here
        for a in alts:
            last = [k for k, d in a.items() if contains(k, is_sym_s)]
            pc_last = s.pc[-1][0] if s.pc else None
            dep = pc_last is None or contains(norm(pc_last), is_sym_s)
            if dep:
                cond = ", ".join(f"{show(k)[-60:]}={d}" for k, d in a.items() if contains(k, is_sym_s))
                self.add({"panic"}, f"can panic ({p.msg}) depending on the input: {cond[:200]}", p.sp)
                return

    # ---- Ok outcomes
    def ok(self, a, val):
        w = self.w
        cands = []
        for vi, R in self.refs.items():
            v = w.body[vi] if w.enum else w.body
            if val.op in ("adt", "upd") or R.new is not None or R.use_default:
                if val.op == "adt" and R.new is None and val.a[0].endswith("::" + w.name) and w.enum and val.a[1] != vi:
                    continue
                cands.append((vi, v, R))
        if w.enum and val.op == "adt" and val.a[0].endswith("::" + w.name):
            v = w.body[val.a[1]]
            if val.a[1] not in self.refs:
                self.add({"ignore", "variant"}, f"ignored variant {v.name} can be produced")
                return
            if self.refs[val.a[1]].new is not None:
                self.add({"new", "variant"}, f"{v.name} is built without its #[from_str(new = ..)] expression")
                return
        if not cands:
            self.add({"variant", "route"}, f"Ok with unexpected value {show(val)[:160]}")
            return
        bads = []
        for vi, v, R in cands:
            try:
                self.ok_variant(a, val, vi, v, R)
                return
            except Bad as b:
                bads.append((vi, v, b))
        # the candidate that got furthest describes the problem; prefer the variant the value belongs to
        bads.sort(key=lambda b: ("gate" in b[2].kinds, "ctor" in b[2].kinds))
        vi, v, b = bads[0]
        kinds = set(b.kinds)
        if any(d == 1 and k.op == "disc" and k.a[0].op == "call" and _re.search(r"(std::str::FromStr>::from_str|FromStrFormat<.*>::parse)$", k.a[0].a[0]) for k, d in a.items()):
            kinds.add("conv")           # and yet the result is Ok
        self.add(kinds, f"{v.name if w.enum else w.name}: {b.what}")

    def ok_variant(self, a, val, vi, v, R):
        w = self.w
        # constructor
        ev = set()
        if R.new is not None:
            call = val
            while call.op == "field":
                call = call.a[0]
            if not (call.op == "call" and _re.search(r"\b" + _re.escape(R.new.fn) + r"\b", call.a[0])):
                raise Bad({"new", "ctor"}, f"the value is not what `{R.new.expr}` yields: {show(val)[:120]}")
            if R.new.kind == "plain":
                good = val is call
            elif R.new.kind == "option":
                good = val is mk("field", call, 1, 0) and a.get(mk("disc", call)) == 1
                ev.add((mk("disc", call), 0))
            else:
                good = val is mk("field", call, 0, 0) and a.get(mk("disc", call)) == 0
                ev.add((mk("disc", call), 1))
            if not good:
                raise Bad({"new"}, f"success is not exactly the success of `{R.new.expr}`")
            fv = dict(zip(R.new.args, call.a[1:]))
            if len(call.a) - 1 != len(R.new.args):
                raise Bad({"new"}, "constructor arguments")
            getf = lambda k: fv.get(k)
        else:
            if val.op == "call" and not R.use_default:
                raise Bad({"ctor", "variant"}, "unexpected constructor " + show(val)[:100])
            if w.enum and not (val.op == "adt" and val.a[1] == vi):
                raise Bad({"ctor", "variant"}, "another variant is built: " + show(val)[:100])

            def getf(k):
                i, _ = model.find_field(v, k)
                return self.eng.field(val, vi if w.enum else None, i)
        # fields
        labels = {}
        ctx = dict(c=None)

        def text(t, path, F):
            g = group_of(t)
            if g is None:
                raise Bad({"route"}, f"field {'.'.join(path)} is parsed from {show(t)[:100]}, not from its own piece of the input")
            c, ix, gt = g
            if ctx["c"] is None:
                ctx["c"] = c
            elif ctx["c"] is not c:
                raise Bad({"route"}, f"field {'.'.join(path)} reads another match")
            h = self.rx.hir(self.gate_info(c)[0])
            i = self.index_of(h, gt.a[1])
            if labels.setdefault(tuple(path), i) != i:
                raise Bad({"route"}, f"field {'.'.join(path)} reads several groups")
            return gt

        def parsed(val, path, conv, F):
            """val must be the successful conversion of the path's text"""
            what = ".".join(path)
            if not (val.op == "field" and val.a[1:] == (0, 0) and val.a[0].op == "call"):
                raise Bad({"conv", "route"}, f"field {what} is not the result of parsing its text: {show(val)[:120]}")
            call = val.a[0]
            name = call.a[0]
            if conv[0] == "with":
                if not with_matches(name, None, conv[2], "FromStrFormat", "parse", None):
                    raise Bad({"with"}, f"field {what} is parsed by {name}, not by {conv[2].expr}")
                t = call.a[-1]
            else:
                if not name.endswith("std::str::FromStr>::from_str"):
                    raise Bad({"with" if "FromStrFormat" in name else "conv", "infer"}, f"field {what} is parsed by {name}")
                t = call.a[1]
            if F.get(mk("disc", call)) != 0:
                raise Bad({"conv"}, f"Ok although the conversion of field {what} may have failed")
            ev.add((mk("disc", call), 1))
            text(t, path, F)

        for k, (conv, deep) in R.fields.items():
            if R.new is not None and k not in R.new.args:
                # the expression does not use it; the conversion must still have succeeded
                hit = None
                if conv[0] in ("parse", "with"):
                    for at, d in a.items():
                        if at.op == "disc" and at.a[0].op == "call" and d == 0 and group_of(at.a[0].a[-1]):
                            hit = True
                continue
            x = getf(k)
            if x is None or x is UNINIT:
                raise Bad({"route"}, f"field {k} is not set")
            self.fieldval(x, (k,), conv, deep, v, vi, parsed, text, a, labels, val)
        # gate
        if R.literal is not None:
            lit = [(at, d) for at, d in a.items() if at.op == "streq" and d == 1]
            ok = [at for at, d in lit if is_sym_s(at.a[0]) and at.a[1].op == "str" and at.a[1].a[0] == R.literal]
            if ok:
                g = ok[0]
                self.gates.setdefault(vi, set()).add(g)
                self.evid.setdefault(vi, set()).update({(g, 0)} | ev)
                return
            caps = [at for at, d in a.items() if at.op == "disc" and at.a[0].op == "captures" and d == 1]
            if not caps:
                if lit:
                    raise Bad({"gate", "literal", "regex"}, f"accepts {lit[0][0].a[1].a[0]!r}, expected exactly {R.literal!r}")
                raise Bad({"gate", "anchor"}, f"accepted without comparing the input with {R.literal!r}")
            err = None
            for at in caps:
                try:
                    re, withs = self.gate_info(at.a[0])
                    self.compare(re, withs, R, {}, vi, v, anchored=True)
                    self.gates.setdefault(vi, set()).add(at)
                    self.evid.setdefault(vi, set()).update({(at, 0)} | ev)
                    return
                except Bad as b:
                    err = b
            raise err
        cands = [at for at, d in a.items() if at.op == "disc" and at.a[0].op == "captures" and d == 1]
        if ctx["c"] is not None:
            cc = ctx["c"].a[0] if ctx["c"].op == "field" else ctx["c"]
            cands = [at for at in cands if at.a[0] is cc]
        if not cands:
            raise Bad({"gate", "anchor"}, "accepted without a match of the pattern")
        err = None
        for at in cands:
            try:
                re, withs = self.gate_info(at.a[0])
                self.compare(re, withs, R, labels, vi, v, anchored=True)
                self.gates.setdefault(vi, set()).add(at)
                self.evid.setdefault(vi, set()).update({(at, 0)} | ev)
                return
            except Bad as b:
                err = b
        raise err

    def fieldval(self, x, path, conv, deep, v, vi, parsed, text, F, labels, whole):
        what = ".".join(path)
        k = conv[0]
        # nested placeholders
        if deep:
            i, f = model.find_field(v, path[0])
            seen = []
            self.nested(x, path, f.ty, deep, parsed, F, path, f.ty,
                        lambda r: (seen.append(1), self.plainval(r, path, conv, v, vi, parsed, text, F, labels, whole)))
            if not seen and k in ("parse", "with", "opt"):
                raise Undecided(f"every component of {what} is replaced")
            return
        self.plainval(x, path, conv, v, vi, parsed, text, F, labels, whole)

    def plainval(self, x, path, conv, v, vi, parsed, text, F, labels, whole):
        what = ".".join(path)
        k = conv[0]
        if k in ("parse", "with"):
            parsed(x, path, conv, F)
        elif k == "opt":
            if x.op == "adt" and x.a[0].endswith("Option"):
                if x.a[1] == 0:
                    none = [at for at, d in F.items() if at.op == "disc" and at.a[0].op in ("capget", "capname") and d == 0]
                    if not none:
                        raise Bad({"opt", "conv"}, f"optional field {what} can be None although its piece is present")
                    # the group must be this field's: remember it when unambiguous
                    if tuple(path) in labels:
                        pass
                    elif len(none) == 1:
                        g = none[0].a[0]
                        re, _ = self.gate_info(g.a[0])
                        labels[tuple(path)] = self.index_of(self.rx.hir(re), g.a[1])
                    else:
                        labels.setdefault(("?",) + tuple(path), tuple(sorted(
                            self.index_of(self.rx.hir(self.gate_info(n.a[0].a[0])[0]), n.a[0].a[1]) for n in none)))
                else:
                    try:
                        parsed(x.a[2], path, conv[2], F)
                    except Bad as b:
                        b.kinds.add("opt")
                        raise
                    call = x.a[2].a[0]
                    gt = group_of(call.a[-1])[2]
                    if call.a[-1].op == "text":
                        if F.get(mk("disc", gt)) != 1:
                            raise Bad({"opt"}, f"optional field {what} can be Some although its piece is absent")
                    elif F.get(mk("disc", gt), 1) != 1:
                        raise Bad({"opt"}, f"optional field {what} can be Some although its piece is absent")
            else:
                raise Bad({"opt"}, f"optional field {what}: {show(x)[:100]}")
        elif k == "default":
            if not is_default(x):
                raise Bad({"default"}, f"field {what} should be its type's default, is {show(x)[:120]}")
        elif k == "sdefault":
            i = conv[1]
            if not (x.op == "field" and x.a[1:] == (None, i) and x.a[0].op == "call" and x.a[0].a[0].endswith("std::default::Default>::default")):
                raise Bad({"default"}, f"field {what} should keep the value of the struct's Default, is {show(x)[:120]}")

    def nested(self, x, path, ty, deep, parsed, F, bpath, bty, bcheck):
        """a value whose nested components may be overwritten by nested placeholders.  The others are those of the value
        at `bpath`, which `bcheck` examines."""
        st = model.usrstruct(ty)
        if st is None:
            raise Undecided("nested path into " + ty)
        for j, (nm, t) in enumerate(zip(*st)):
            sub = path + (nm,)
            d = {p[1:]: g for p, g in deep.items() if p[0] == nm and len(p) > 1}
            y = self.eng.field(x, None, j)

            def piece(r, sub=sub, t=t):
                try:
                    parsed(r, sub, ("parse", None, t), F)
                except Bad as b:
                    b.kinds.add("nested")
                    raise
            if (nm,) in deep:
                if d:
                    seen = []
                    self.nested(y, sub, t, d, parsed, F, sub, t, lambda r: (seen.append(1), piece(r)))
                    if not seen:
                        raise Undecided(f"every component of {'.'.join(sub)} is replaced")
                else:
                    piece(y)
            elif d:
                self.nested(y, sub, t, d, parsed, F, bpath, bty, bcheck)
            else:
                # the component of the value there would have been
                root = y
                idx = []
                while root.op == "field" and len(idx) < len(sub) - len(bpath):
                    idx.append(root.a[2])
                    root = root.a[0]
                want = []
                tt = bty
                for key in sub[len(bpath):]:
                    s2 = model.usrstruct(tt)
                    want.append(s2[0].index(key))
                    tt = s2[1][want[-1]]
                if list(reversed(idx)) != want:
                    raise Bad({"default", "nested", "route"}, f"component {'.'.join(sub)} is {show(y)[:100]}")
                bcheck(root)

    # ---- regex comparison
    def compare(self, re, withs, R, labels, vi, v, anchored):
        wd = dict(withs)
        h = self.rx.hir(re)
        names = {i: n for i, n in caps_in(h)}
        pats = {}
        amb = {p: ix for p, ix in labels.items() if p and p[0] == "?"}
        byidx = {}
        for p, i in labels.items():
            if p and p[0] == "?":
                continue
            byidx.setdefault(i, []).append(p)
        for i, ps in byidx.items():
            if len(ps) > 1:
                raise Bad({"route"}, f"one group feeds several fields: {ps}")
        want = self.rx.hir(("\\A(?:%s)\\z" if anchored else "(?:%s)") % R.re, True)
        rev = {g: p for p, g in R.labels.items()}
        # groups of absent options are known by position only
        unread = [p for p in R.labels if p not in labels]
        exp = canon(want, lambda i, n: rev.get(n))
        act = canon(h, lambda i, n: byidx[i][0] if i in byidx else None)
        if amb or unread:
            exp = drop(exp, set(unread))
        # which groups are replaced by patterns of field types
        for g, (wt, path) in R.withs.items():
            if path in labels or not labels:
                pass
        d = same_regex(self.rx, act, exp)
        if d is not None:
            kind, txt = d
            kinds = {"regex", kind}
            if kind == "capture":
                kinds.add("route")
            raise Bad(kinds, f"pattern {short(re)}: {txt}")
        # substitutions
        exps = {path: wt for g, (wt, path) in R.withs.items()}
        acts = {}
        for n, term in withs:
            i = next((i for i, m in names.items() if m == n), None)
            p = byidx.get(i, [None])[0]
            acts[n] = (p, term)
        got = {p: t for p, t in acts.values() if p is not None}
        for p, wt in exps.items():
            if p not in labels:
                continue
            t = got.get(p)
            if t is None:
                raise Bad({"subst", "regex", "with"}, f"the pattern of {p} is not restricted by its format {wt if wt == 'infer' else wt.expr}")
            if not subst_ok(t, wt):
                raise Bad({"subst", "regex", "with"}, f"the pattern of {p} comes from {show(t)[:120]}")
        for p in got:
            if p not in exps:
                raise Bad({"subst", "regex", "with"}, f"the pattern of {p} is replaced by {show(got[p])[:120]}")

    # ---- Err outcomes
    def err(self, a):
        for vi, ev in self.evid.items():
            if not any(a.get(k) == d for k, d in ev if k in a) and not self.text_fail(a, ev) and not self.known_text(a, vi):
                v = self.w.body[vi] if self.w.enum else self.w.body
                g = self.gates[vi]
                tried = any(x in a for x in g)
                if tried:
                    self.add({"spurious", "conv"}, f"{v.name if self.w.enum else self.w.name}: an error is returned although the input matches and every conversion succeeded: {factstr(a)}")
                else:
                    self.add({"variant", "variant-try", "spurious"}, f"{v.name}: an error is returned without trying this variant: {factstr(a)}")
                return

    def known_text(self, a, vi):
        """the input is known to be a constant that is not one of this variant's texts"""
        for k, d in a.items():
            if k.op == "streq" and d == 1 and is_sym_s(k.a[0]) and k.a[1].op == "str":
                L, R = k.a[1].a[0], self.refs[vi]
                if R.literal is not None:
                    return R.literal != L
                if not R.withs:
                    return self.rx.incl("(?:" + model.lit_re(L) + ")", "(?:%s)" % R.re) is not None
        return False

    def text_fail(self, a, ev):
        """the same conversion, seen under a known presence of its group (text(g) vs mstr/\"\")"""
        def key(k):
            if k.op == "disc" and k.a[0].op == "call" and len(k.a[0].a) > 1:
                c = k.a[0]
                g = group_of(c.a[-1])
                if g:
                    return (c.a[0], g[2])
            return None
        ks = {}
        for k, d in ev:
            kk = key(k)
            if kk:
                ks[kk] = d
        for k, d in a.items():
            kk = key(k)
            if kk and ks.get(kk) == d:
                return True
            # an absent group is the empty text
            if k.op == "disc" and k.a[0].op == "call" and d == 1 and len(k.a[0].a) > 1 and k.a[0].a[-1] is mk("str", ""):
                if any(n == k.a[0].a[0] and a.get(mk("disc", g)) == 0 for (n, g) in ks):
                    return True
        return False


def subst_ok(t, wt):
    """t: term of the Option<(String, Ast)> given for a group"""
    t = norm(t)
    if not (t.op == "call" and "to_ast" in t.a[0]):
        return False
    x = t.a[1]
    if wt == "infer":
        return x.op == "adt" and x.a[0].endswith("helpers_std::RegexInfer") or x.op == "adt" and x.a[0].endswith("RegexInfer")
    return x.op == "adt" and x.a[0].endswith(wt.ty)


def drop(c, labels):
    if c[0] == "cap" and c[1] in labels:
        return drop(c[2], labels)
    if c[0] == "cat":
        return cat([drop(x, labels) for x in c[1:]])
    if c[0] == "cap":
        return ("cap", c[1], drop(c[2], labels))
    if c[0] == "rep":
        return c[:4] + (drop(c[4], labels),)
    if c[0] == "alt":
        return ("alt",) + tuple(drop(x, labels) for x in c[1:])
    return c


def is_default(x):
    return x.op == "call" and x.a[0].endswith("std::default::Default>::default") or \
        x.op == "adt" and x.a[0].endswith("Option") and x.a[1] == 0


def factstr(a):
    return "; ".join(f"{show(k)[-50:]}={d}" for k, d in a.items())[:300]


def short(re):
    re = re.replace("[\0-\U0010ffff]", "<any>")
    return json.dumps(re if len(re) < 160 else re[:160] + "…", ensure_ascii=False)


def check_fromstr(prog, w, crate, rx):
    _infallible[0] = False
    try:
        return _check_fromstr(prog, w, crate, rx)
    except Undecided as x:
        if str(x) != "too many alternatives":
            raise
        _infallible[0] = True
        return _check_fromstr(prog, w, crate, rx)
    finally:
        _infallible[0] = False


def _check_fromstr(prog, w, crate, rx):
    fresh()
    fs = FS(prog, w, crate, rx)
    try:
        fs.run()
    except Bad as b:
        fs.add(b.kinds, b.what)
    return fs.out, {"fn": fs.f["c"] if fs.f else None, "paths": fs.paths, "stats": fs.eng.stats if fs.eng else {}}, fs


# ---------------------------------------------------------------------------------------------- FromStrRegex
CONV = ("into", "from", "to_string", "to_owned", "to_str", "as_str", "clone", "as_ref", "borrow", "deref", "must_use")


def str_pieces(v):
    """constant text and holes a String term is made of"""
    v = norm(v)
    if v.op == "str":
        return [v.a[0]]
    if v.op == "call":
        n = v.a[0]
        m = n.rsplit("::", 1)[-1]
        if n.endswith("fmt::format") or n.endswith("fmt::format::format_inner"):
            a = v.a[1]
            while a.op in ("rv", "deref"):
                a = a.a[0]
            return args_pieces(a)
        if m in CONV and len(v.a) == 2:
            return str_pieces(v.a[1])
    if v.op == "field" and v.a[1:] == (None, 1) and v.a[0].op == "call" and v.a[0].a[0].endswith("Parser::new"):
        return [("hole", v.a[0])]
    raise Undecided("string " + show(v)[:120])


def args_pieces(a):
    if a.op != "args":
        raise Undecided("format " + show(a)[:100])
    out = []
    for p in a.a[0]:
        if p[0] == "lit":
            out.append(p[1])
        else:
            if p[1] != DEFSPEC:
                raise Undecided("format options in a pattern")
            out += str_pieces(p[2].a[1])
    return out


def check_fsregex(prog, w, crate, rx):
    """from_str_regex() describes the same language (with the same substitutions) as the alternatives of from_str"""
    f = find_impl(prog, crate, w.name, "parse_display::FromStrRegex", "from_str_regex")
    if f is None:
        return [Finding({"missing-impl"}, w, "no FromStrRegex impl is generated")], {}
    fresh()
    eng = Eng(prog, opaque=opaque)
    out = []

    def add(kinds, what):
        out.append(Finding(kinds, w, what, f["sp"], f["c"]))
    res = eng.run(f, [], St())
    rets = []
    for s, v in res:
        if isinstance(v, Panic):
            continue
        for leaf, _ in leaves(v, s.facts):
            rets.append(leaf)
    if len(rets) != 1:
        raise Undecided("from_str_regex has several results")
    fs = FS(prog, w, crate, rx)
    re = ""
    groups = 0
    holes = []
    for p in str_pieces(rets[0]):
        if isinstance(p, str):
            re += p
        else:
            t, withs = fs.re_info(p[1])
            # names get unique suffixes so that several holes can be told apart
            wd = dict(withs)
            n = len(holes)
            holes.append((t, withs))
            re += _re.sub(r"\(\?P?<([A-Za-z_0-9]+)>", lambda m: f"(?P<h{n}_{m.group(1)}>", t)
    h = rx.hir(re)
    for i, n in caps_in(h):
        if n and not n.startswith("h"):
            add({"named"}, f"the reported pattern has a named group {n}")
    want = []
    exp_with = []
    for vi, v in variants(w):
        if w.enum and model.fromstr_attrs(v.attrs).get("ignore"):
            continue
        R = model.fromstr_ref(w, v)
        want.append(R)

    # groups with a substituted pattern must be substituted in both: mark them
    actmark = {}
    for n, (t, withs) in enumerate(holes):
        for name, term in withs:
            actmark[f"h{n}_{name}"] = term
    act = canon(h, lambda i, n: wkey(actmark[n]) if n in actmark else None)
    alts = []
    for R in want:
        hh = rx.hir("(?:" + R.re + ")", True)
        alts.append(canon(hh, lambda i, n: refkey(R.withs[n]) if n in R.withs else None))
    exp = alts[0] if len(alts) == 1 else ("alt",) + tuple(alts) if alts else ("cat",)
    la = sorted(set(map(str, labels_of(act, []))))
    lb = sorted(set(map(str, labels_of(exp, []))))
    if la != lb:
        add({"subst", "regex"}, f"patterns of field types used: {la}, expected {lb}")
        return out, {"fn": f["c"]}
    idx = {l: i for i, l in enumerate(la)}

    def mark(l):
        return chr(0xF0000 + 2 * idx[str(l)]), chr(0xF0001 + 2 * idx[str(l)])
    if not alts:
        x = rx.incl(to_re(act, mark), r"[^\s\S]")
        if x is not None:
            add({"regex"}, f"reported pattern {short(re)} matches {clean(x)!r}, but no input is accepted")
    elif lazyless(act) != lazyless(exp):
        ra, rb = to_re(act, mark), to_re(exp, mark)
        x = rx.incl(ra, rb)
        if x is not None:
            add({"regex"}, f"reported pattern {short(re)} matches {clean(x)!r}, which from_str's formats do not describe")
        else:
            x = rx.incl(rb, ra)
            if x is not None:
                add({"regex"}, f"reported pattern {short(re)} does not match {clean(x)!r}, which from_str's formats describe")
    return out, {"fn": f["c"], "pattern": re[:200]}


def lazyless(c):
    """the tree without preferences between matches"""
    return tuple(lazyless(x) if isinstance(x, tuple) else x for x in (c[:3] + (True,) + c[4:] if c[0] == "rep" else c))


def wkey(term):
    t = norm(term)
    if t.op == "call" and "to_ast" in t.a[0] and len(t.a) > 1:
        x = t.a[1]
        if x.op == "adt":
            return x.a[0].rsplit("::", 1)[-1]
    return show(t)[:80]


def refkey(wp):
    wt = wp[0]
    return "RegexInfer" if wt == "infer" else wt.ty.rsplit("::", 1)[-1]
