"""Fixpoint over loops for the hand-written runtime code (no witness, no bound on the number of items).

REng extends the path-sensitive interpreter of absint.py with
  * states that are compared at block entry, so that loops are explored until no new state appears;
  * sequences: an iterator is a term with a position; the element under it is `cur`, every earlier one `old`;
    each call of next forks on "exhausted"/"one more" and renames the element;
  * output calls that fork at once into written/failed and step a monitor automaton (typestate);
  * collections whose operations are logged per iteration instead of being built.
Nothing here knows the functions it analyses; runtime.py holds the rules."""
from absint import (UNINIT, UNIT, Eng, Frame, Panic, St, Unsupported, V, has_ref, mk)

OK = "std::result::Result"
OPT = "std::option::Option"


def some(v):
    return mk("adt", OPT, 1, v)


NONE = ("adt", OPT, 0)


def none():
    return mk("adt", OPT, 0)


def ok(v):
    return mk("adt", OK, 0, v)


def err(v):
    return mk("adt", OK, 1, v)


def subst(x, m, memo=None):
    """replace terms"""
    if memo is None:
        memo = {}
    if isinstance(x, V):
        r = memo.get(x)
        if r is None:
            if x in m:
                r = m[x]
            else:
                a = tuple(subst(y, m, memo) for y in x.a)
                r = x if all(p is q for p, q in zip(a, x.a)) else mk(x.op, *a, ty=x.ty)
            memo[x] = r
        return r
    if isinstance(x, tuple):
        a = tuple(subst(y, m, memo) for y in x)
        return x if all(p is q for p, q in zip(a, x)) else a
    return x


def mentions(x, t, memo=None):
    if memo is None:
        memo = {}
    if isinstance(x, V):
        if x is t:
            return True
        r = memo.get(x)
        if r is None:
            memo[x] = False
            r = any(mentions(y, t, memo) for y in x.a)
            memo[x] = r
        return r
    if isinstance(x, tuple):
        return any(mentions(y, t, memo) for y in x)
    return False


class Mon:
    """monitor that accepts everything"""
    init = None

    def emit(self, m, e, st, eng):
        return m

    def fail(self, m, e, st, eng):
        return m

    def next(self, m, src, more, st, eng):
        return m


class REng(Eng):
    LIMIT = 6000

    def __init__(self, prog, mon=None, opaque=None):
        super().__init__(prog, opaque)
        self.mon = mon or Mon()
        self.table = {}          # source -> {(log, facts about the element)}
        self.stack = []
        self.nstates = 0
        self.sp = None
        self.rec = recursive(prog)
        self.calls_seen = []

    def start(self):
        st = St()
        st.ev = (self.mon.init, ())
        return st

    def log(self, st, e):
        st.ev = (st.ev[0], st.ev[1] + (e,))
        if len(st.ev[1]) > 40:
            raise Unsupported("log")

    # ------------------------------------------------------------------ control
    def _run(self, f, args, st):
        uid = self.depth
        fr = Frame(f, uid)
        self.stack.append(f["def"])
        try:
            for i, a in enumerate(args):
                st.mem[(uid, i + 1)] = self.typed(a, f["l"][i + 1]) if i + 1 < len(f["l"]) else a
            outs = []
            seen = set()
            outk = set()
            work = [(st, 0)]
            while work:
                st, bi = work.pop()
                k = self.key(st, bi)
                if k in seen:
                    continue
                seen.add(k)
                self.nstates += 1
                if self.nstates > self.LIMIT:
                    raise Unsupported("too many states in " + f["c"])
                for s2, b2 in self.block(f, fr, st, bi, outs, outk):
                    work.append((s2, b2))
            fin = []
            done = set()
            for s2, v in outs:
                if not isinstance(v, Panic):
                    v = self.close(v, s2, uid)
                for c in [c for c in s2.mem if c[0] == uid]:
                    del s2.mem[c]
                k = (self.key(s2, -1), v if isinstance(v, V) else id(v))
                if k not in done:
                    done.add(k)
                    fin.append((s2, v))
            return fin
        finally:
            self.stack.pop()

    def key(self, st, bi):
        return bi, frozenset(st.mem.items()), frozenset(st.facts.items()), st.ev

    def block(self, f, fr, st, bi, outs, outk):
        self.stats["blocks"] += 1
        b = f["b"][bi]
        for s in b["s"]:
            if s[0] == "=":
                v = self.rvalue(s[2], fr, st, s[1])
                if len(s[1]) == 1:
                    self.typed(v, f["l"][s[1][0]])
                self.write(self.place(s[1], fr, st), v, st)
            elif s[0] == "sd":
                raise Unsupported("set discriminant")
        t = b["t"]
        k = t[0]
        self.site = (f["c"], bi)
        if k == "goto":
            return [(st, t[1])]
        if k == "drop":
            return [(st, t[2])]
        if k == "ret":
            outs.append((st, self.resolve(st.mem.get((fr.uid, 0), UNIT), st)))
            return []
        if k in ("unr", "resume", "term"):
            return []
        if k == "sw":
            v = self.operand(t[1], fr, st)
            if v.op == "infeasible":
                return []
            tg = {int(x[0]): x[1] for x in t[3]}
            return [(s2, tg.get(o, t[4])) for s2, o in self.branches(v, list(tg), t[2], st)]
        if k == "assert":
            v = self.operand(t[1], fr, st)
            exp = int(t[2])
            if t[4].startswith(("MisalignedPointer", "NullPointer")):
                return [(st, t[3])]
            r = []
            for s2, o in (self.branches(v, [0], None, st) if v.op != "bool" else [(st, int(v.a[0]))]):
                if (1 if o == "else" else o) == exp:
                    r.append((s2, t[3]))
                else:
                    outs.append((s2, Panic("assert: " + t[4], t[5])))
            return r
        if k == "call":
            sp0, self.sp = self.sp, t[6] or t[5]
            res = self.call(t, fr, st)
            self.sp = sp0
            r = []
            for s2, v in res:
                if isinstance(v, Panic):
                    outs.append((s2, v))
                elif t[4] >= 0:
                    self.typed(v, t[7])
                    self.write(self.place(t[3], fr, s2), v, s2)
                    r.append((s2, t[4]))
            return r
        raise Unsupported("terminator " + k)

    def branches(self, v, vals, tyi, st):
        r = super().branches(v, vals, tyi, st)
        if vals == [0, 1] and tyi is None and any(o in (0, 1) for _, o in r):
            r = [x for x in r if x[1] != "else"]
        for s2, _ in r:
            s2.pc = ()
        return r

    def merge(self, outs, uid=None):
        return outs

    def typed(self, v, ty):
        if v.ty is None and v.op in ("el", "take", "nxt", "mapget"):
            v.ty = ty
            return v
        return super().typed(v, ty)

    def binop(self, op, a, b):
        MANY = mk("many")
        if op in ("Add", "AddUnchecked", "AddWithOverflow", "Sub", "SubWithOverflow"):
            x = None
            if a is MANY or b is MANY:
                x = MANY if op.startswith("Add") else None
                if x is None:
                    raise Unsupported("counter")
            elif a.op == "int" and b.op == "int" and op.startswith("Add") and a.a[0] + b.a[0] > 2:
                x = MANY
            if x is not None:
                return mk("tup", x, mk("bool", False)) if "Overflow" in op else x
        for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op))):
            if x is MANY and y.op == "int" and y.a[0] <= 2 and o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                if y.a[0] == 2 and o in ("Gt", "Le"):
                    continue
                return mk("bool", o in ("Ne", "Gt", "Ge"))
        if MANY in (a, b):
            raise Unsupported("counter")
        return super().binop(op, a, b)

    # ------------------------------------------------------------------ effects
    def write(self, pl, v, st):
        if pl[0] == "val":
            self.log(st, ("store", pl[1], self.snap(v, st)))
            return
        super().write(pl, v, st)

    def opaque_call(self, name, args, st, t, argtys=None, ty=None):
        self.stats["opaque"] += 1
        sn = [self.snap(a, st) for a in args]
        v = mk("call", name, *sn, ty=ty if ty is not None else (t[7] if t else None))
        if name in ("indirect", "closure"):
            self.log(st, ("ind", v))
        if argtys:
            for i, (a, aty) in enumerate(zip(args, argtys)):
                tt = self.T[aty]
                if tt.get("k") == "ref" and tt.get("mut"):
                    if a.op == "ref":
                        self.write((a.a[0], a.a[1]), mk("out", v, i), st)
                    elif sn[i].op not in ("str", "bytes", "arr"):
                        self.log(st, ("effect", v))
        return v

    def emit(self, f, e, st):
        good, bad = st.copy(), st
        good.ev = (self.mon.emit(good.ev[0], e, good, self),) + good.ev[1:]
        bad.ev = (self.mon.fail(bad.ev[0], e, bad, self),) + bad.ev[1:]
        return [(good, ok(UNIT)), (bad, err(mk("adt", "std::fmt::Error", 0)))]

    def apply_closure(self, v, args, st, t, sp, body=None):
        return [(s, r) for s, r, _ in self.clo(v, args, st, t, sp, body)]

    def clo(self, v, args, st, t, sp, body=None):
        """call a callable value; also returns the callable afterwards (captured state may have changed)"""
        while v.op in ("rv", "ref"):
            v = self.resolve(self.read((v.a[0], v.a[1]), st) if v.op == "ref" else v.a[0], st)
        if v.op != "clo":
            return [(s, r, v) for s, r in self.apply_value(v, args, st, t, sp)]
        body = body or self.closure_body(v)
        if body is None:
            return [(st, self.opaque_call("closure", [v] + args, st, t), v)]
        if self.T[body["l"][1]].get("k") == "ref":
            cell = (("c", self.depth), 0)
            while cell in st.mem:
                cell = (("c", self.depth), cell[1] + 1)
            st.mem[cell] = v
            r = []
            for s, x in self.run(body, [mk("ref", cell, ())] + args, st):
                if not isinstance(x, Panic):
                    x = self.resolve(x, s)
                r.append((s, x, s.mem.pop(cell, v)))
            return r
        return [(s, x, v) for s, x in self.run(body, [v] + args, st)]

    # ------------------------------------------------------------------ sequences
    def base(self, v):
        while v.op in ("imap", "ifilter", "ifmap", "ienum", "ipeek", "iskip", "itake", "imapw", "itakew"):
            v = v.a[0]
        return v.a[0] if v.op == "it" else None

    def advance(self, src, st):
        """the element under the iterator becomes an old one"""
        cur, old, nxt = mk("el", src, "cur"), mk("el", src, "old"), mk("el", src, "nxt")
        old.ty = cur.ty = cur.ty or nxt.ty
        self.flush(src, st)
        m = {cur: old, nxt: cur}
        memo = {}
        for c, v in list(st.mem.items()):
            w = subst(v, m, memo)
            if w is not v:
                st.mem[c] = w
        nf = {}
        for k, d in st.facts.items():
            if mentions(k, cur) or mentions(k, old):
                continue
            nf[subst(k, m, memo)] = d
        st.facts = nf
        return lambda v: subst(v, m, memo)

    def flush(self, src, st, key=None):
        cur = mk("el", src, "cur")
        fs = frozenset((k, d) for k, d in st.facts.items() if mentions(k, cur))
        self.table.setdefault(src, set()).add((st.ev[0], st.ev[1], fs))
        st.ev = (st.ev[0], ())

    def inext(self, v, st, t, sp):
        """-> [(state, iterator afterwards, value or None or Panic)]"""
        k = v.op
        if k == "it":
            src, pos = v.a
            if pos == "e":
                return [(st, v, None)]
            out = []
            if pos in ("s", "m", "x"):
                if pos != "x" and not (pos == "s" and src.op == "split"):
                    e = st.copy()
                    if pos == "m":
                        self.flush(src, e)
                    e.ev = (self.mon.next(e.ev[0], src, False, e, self),) + e.ev[1:]
                    out.append((e, mk("it", src, "e"), None))
                if pos != "s":
                    self.advance(src, st)
                st.ev = (self.mon.next(st.ev[0], src, True, st, self),) + st.ev[1:]
                out.append((st, mk("it", src, "m"), mk("el", src, "cur")))
            return out
        if k in ("imap", "ifilter", "ifmap"):
            inner, clo = v.a
            out = []
            work = [(st, inner, clo)]
            seen = set()
            while work:
                st, inner, clo = work.pop()
                kk = self.key(st, 0) + (inner, clo)
                if kk in seen:
                    continue
                seen.add(kk)
                src = self.base(inner)
                cur0 = mk("el", src, "cur") if src is not None else None
                for s2, in2, x in self.inext(inner, st, t, sp):
                    if x is None or isinstance(x, Panic):
                        out.append((s2, mk(k, in2, clo), x))
                        continue
                    c2 = subst(clo, {cur0: mk("el", src, "old")}) if src is not None else clo
                    arg = self.ref(x) if k == "ifilter" else x
                    for s3, r, c3 in self.clo(c2, [arg], s2, t, sp):
                        if isinstance(r, Panic):
                            out.append((s3, mk(k, in2, c3), r))
                        elif k == "imap":
                            out.append((s3, mk(k, in2, c3), r))
                        elif k == "ifilter":
                            for s4, o in self.branches(r, [0, 1], None, s3):
                                if o in (0,):
                                    work.append((s4, in2, c3))
                                else:
                                    out.append((s4, mk(k, in2, c3), x))
                        else:
                            for s4, o in self.branches(self.disc(r, None), [0, 1], None, s3):
                                if o == 0:
                                    work.append((s4, in2, c3))
                                else:
                                    out.append((s4, mk(k, in2, c3), self.field(self.resolve(r, s4), 1, 0)))
            return out
        if k in ("imapw", "itakew"):
            inner, clo = v.a
            out = []
            src = self.base(inner)
            cur0 = mk("el", src, "cur") if src is not None else None
            for s2, in2, x in self.inext(inner, st, t, sp):
                if x is None or isinstance(x, Panic):
                    out.append((s2, mk(k, in2, clo), x))
                    continue
                c2 = subst(clo, {cur0: mk("el", src, "old")}) if src is not None else clo
                for s3, r, c3 in self.clo(c2, [self.ref(x) if k == "itakew" else x], s2, t, sp):
                    if isinstance(r, Panic):
                        out.append((s3, mk(k, in2, c3), r))
                    elif k == "itakew":
                        for s4, o in self.branches(r, [0, 1], None, s3):
                            out.append((s4, mk(k, in2, c3), None if o == 0 else x))
                    else:
                        for s4, o in self.branches(self.disc(r, None), [0, 1], None, s3):
                            out.append((s4, mk(k, in2, c3), None if o == 0 else self.field(self.resolve(r, s4), 1, 0)))
            return out
        if k == "itake":
            return [(st.copy(), v, None)] + [(s2, mk(k, in2), x) for s2, in2, x in self.inext(v.a[0], st, t, sp)]
        if k == "ienum":
            out = []
            for s2, in2, x in self.inext(v.a[0], st, t, sp):
                if x is None or isinstance(x, Panic):
                    out.append((s2, mk(k, in2, v.a[1]), x))
                else:
                    n = v.a[1]
                    out.append((s2, mk(k, in2, self.binop("Add", n, mk("int", 1))), mk("tup", n, x)))
            return out
        if k == "ipeek":
            inner, p = v.a
            if p == "?":
                return [(s2, mk(k, in2, "?"), x) for s2, in2, x in self.inext(inner, st, t, sp)]
            if p == "end":
                src = inner.a[0]
                if inner.a[1] == "m":
                    self.flush(src, st)
                st.ev = (self.mon.next(st.ev[0], src, False, st, self),) + st.ev[1:]
                return [(st, mk(k, mk("it", src, "e"), "?"), None)]
            src = inner.a[0]
            if inner.a[1] == "s":
                m = {mk("el", src, "nxt"): mk("el", src, "cur")}
                for c, x in list(st.mem.items()):
                    st.mem[c] = subst(x, m)
            else:
                self.advance(src, st)
            st.ev = (self.mon.next(st.ev[0], src, True, st, self),) + st.ev[1:]
            return [(st, mk(k, mk("it", src, "m"), "?"), mk("el", src, "cur"))]
        if k in ("iskip",):
            raise Unsupported("skip")
        raise Unsupported("iterator " + k)

    def peek(self, pl, st):
        v = self.resolve(self.read(pl, st), st)
        if v.op != "ipeek" or v.a[0].op != "it":
            raise Unsupported("peek")
        inner, p = v.a
        src = inner.a[0]
        if inner.a[1] == "e":
            return [(st, none())]
        out = []
        for q in ("more", "end"):
            if p not in ("?", q) or (q == "end" and inner.a[1] == "s" and src.op == "split"):
                continue
            s2 = st.copy()
            self.write(pl, mk("ipeek", inner, q), s2)
            out.append((s2, some(self.ref(mk("el", src, "nxt"))) if q == "more" else none()))
        return out

    def aloop(self, itv, st, t, sp, body, acc=UNIT):
        """run body(state, acc, item) for every item; body yields (state, 'c'|'b', value)"""
        d = ("l", self.depth)
        i = 0
        while (d, i) in st.mem:
            i += 2
        ci, ca = (d, i), (d, i + 1)
        st.mem[ci], st.mem[ca] = itv, acc
        out, seen, work = [], set(), [st]
        while work:
            st = work.pop()
            k = self.key(st, 0)
            if k in seen:
                continue
            seen.add(k)
            self.nstates += 1
            if self.nstates > self.LIMIT:
                raise Unsupported("too many states")
            for s2, in2, x in self.inext(st.mem[ci], st, t, sp):
                s2.mem[ci] = in2
                a = s2.mem[ca]
                if isinstance(x, Panic):
                    out.append((s2, "p", x))
                elif x is None:
                    out.append((s2, "d", a))
                else:
                    for s3, kind, r in body(s2, a, x):
                        if kind == "c":
                            s3.mem[ca] = r
                            work.append(s3)
                        else:
                            out.append((s3, kind, r))
        for s, _, _ in out:
            s.mem.pop(ci, None)
            s.mem.pop(ca, None)
        return out

    # ------------------------------------------------------------------ models
    def itval(self, v, st):
        """the iterator behind a value (by value, or by reference)"""
        v = self.resolve(v, st)
        if v.op == "ref":
            return self.resolve(self.read((v.a[0], v.a[1]), st), st), (v.a[0], v.a[1])
        return v, None

    ITOPS = ("it", "imap", "ifilter", "ifmap", "ienum", "ipeek", "iskip", "imapw", "itakew", "itake")

    def asiter(self, v, st):
        v = self.resolve(v, st)
        if v.op in self.ITOPS:
            return v
        s = self.snap(v, st)
        s = self.strip(s)
        if s.op in self.ITOPS:
            return s
        if s.op == "adt" and s.a[0] == "std::ops::Range" and s.a[2].op == "int" and s.a[2].a[0] == 0 and s.a[3].op == "call" and s.a[3].a[0].endswith("::len"):
            return mk("it", mk("range0", self.strip(self.snap(s.a[3].a[1], st))), "s")
        if s.op == "arr" or s.op == "adt":
            raise Unsupported("iteration over " + s.op)
        return mk("it", s, "s")

    def trykind(self, t):
        s = self.tys(t[7]) if t else ""
        if s.startswith("std::option::Option<"):
            return 1, OPT
        if s.startswith("std::result::Result<"):
            return 0, OK
        if s.startswith("std::ops::ControlFlow<"):
            return 0, "std::ops::ControlFlow"
        raise Unsupported("try type " + s)

    def model(self, fn, args, st, t, sp, d, rd, kr, m, tr, argtys):
        r = self.model2(fn, args, st, t, sp, d, rd, kr, m, tr, argtys)
        if r is not None:
            return r
        return super().model(fn, args, st, t, sp, d, rd, kr, m, tr, argtys)

    def model2(self, fn, args, st, t, sp, d, rd, kr, m, tr, argtys):
        if tr == "std::iter::IntoIterator" and m == "into_iter":
            return [(st, self.asiter(args[0], st))]
        if d.startswith("core::slice::<impl [T]>::") and m in ("iter", "iter_mut"):
            return [(st, self.asiter(args[0], st))]
        if d.startswith("core::str::<impl str>::") and m in ("split", "split_terminator", "split_inclusive", "rsplit", "splitn", "rsplitn", "lines",
                                                            "split_whitespace", "split_ascii_whitespace", "rsplit_terminator"):
            a = [self.strip(self.snap(x, st)) for x in args]
            return [(st, mk("it", mk(m, *a), "s"))]
        if d.startswith("std::collections::") and m in ("iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values"):
            return [(st, mk("it", mk("mapiter", self.strip(self.snap(args[0], st)), m), "s"))]
        if tr == "std::iter::DoubleEndedIterator" or tr == "std::iter::ExactSizeIterator":
            raise Unsupported("iterator method " + m)
        if tr == "std::iter::FromIterator" and m == "from_iter" and self.resolve(args[0], st).op in self.ITOPS:
            tr = "std::iter::Iterator"
        if tr in ("std::ops::Index", "std::ops::IndexMut") and "Vec<" in fn["c"] and len(args) == 2:
            i = self.resolve(args[1], st)
            x = self.strip(self.snap(args[0], st))
            if i.op == "el" and i.a[0].op == "range0" and i.a[0].a[0] is x:
                return [(st, self.ref(mk("at", x, i)))]
        if tr == "std::iter::Iterator":
            if m == "by_ref":
                return [(st, args[0])]
            v, pl = self.itval(args[0], st)
            if v.op not in self.ITOPS:
                if pl is None and m != "next":
                    v = self.asiter(v, st)
                if v.op not in self.ITOPS:
                    raise Unsupported(m + " on " + v.op)
            if m == "next":
                if pl is None:
                    raise Unsupported("next on a temporary")
                out = []
                for s2, in2, x in self.inext(v, st, t, sp):
                    self.write(pl, in2, s2)
                    out.append((s2, x if isinstance(x, Panic) else none() if x is None else some(x)))
                return out
            if m == "rev":
                if v.op == "it" and v.a[1] == "s":
                    return [(st, mk("it", mk("rev", v.a[0]), "s"))]
                raise Unsupported("rev")
            if m in ("skip", "take", "step_by"):
                if v.op == "it" and v.a[1] == "s":
                    return [(st, mk("it", mk(m, v.a[0], self.snap(args[1], st)), "s"))]
                if m == "take":
                    return [(st, mk("itake", v))]
                raise Unsupported(m)
            if m in ("map", "filter", "filter_map", "map_while", "take_while"):
                return [(st, mk({"map": "imap", "filter": "ifilter", "filter_map": "ifmap", "map_while": "imapw", "take_while": "itakew"}[m], v, self.resolve(args[1], st)))]
            if m == "enumerate":
                return [(st, mk("ienum", v, mk("int", 0)))]
            if m == "peekable":
                return [(st, mk("ipeek", v, "?"))]
            if m in ("fuse",):
                return [(st, v)]
            if m in ("for_each", "try_for_each", "fold", "try_fold"):
                isf = "fold" in m
                clo = self.resolve(args[2 if isf else 1], st)
                acc = args[1] if isf else UNIT
                cc = (("f", self.depth), 0)
                while cc in st.mem:
                    cc = (("f", self.depth), cc[1] + 1)
                st.mem[cc] = clo
                good = self.trykind(t)[0] if m.startswith("try") else None

                def body(s, a, x):
                    r = []
                    for s2, v2, c2 in self.clo(s.mem[cc], ([a] if isf else []) + [x], s, t, sp):
                        s2.mem[cc] = c2
                        if isinstance(v2, Panic):
                            r.append((s2, "p", v2))
                        elif good is None:
                            r.append((s2, "c", v2))
                        else:
                            for s3, o in self.branches(self.disc(v2, None), [0, 1], None, s2):
                                if o == good:
                                    r.append((s3, "c", self.field(self.resolve(v2, s3), good, 0)))
                                else:
                                    r.append((s3, "b", self.resolve(v2, s3)))
                    return r
                out = []
                for s2, k, r in self.aloop(v, st, t, sp, body, acc):
                    s2.mem.pop(cc, None)
                    if pl is not None:
                        # after an early exit the iterator goes on from here; what was left is not tracked
                        if k == "d":
                            self.write(pl, mk("it", mk("done"), "e"), s2)
                        elif m.startswith("try") and k == "b":
                            self.write(pl, mk("lost", "iterator"), s2)
                    if k == "d" and good is not None:
                        r = mk("adt", self.trykind(t)[1], good, r)
                    out.append((s2, r))
                return out
            if m in ("any", "all", "find", "find_map", "position"):
                clo = self.resolve(args[1], st)

                def body(s, a, x):
                    r = []
                    for s2, v2, c2 in self.clo(clo, [self.ref(x) if m == "find" else x], s, t, sp):
                        if isinstance(v2, Panic):
                            r.append((s2, "p", v2))
                        else:
                            v3 = self.disc(v2, None) if m == "find_map" else v2
                            for s3, o in self.branches(v3, [0, 1], None, s2):
                                o = 1 if o == "else" else o
                                if o == (0 if m == "all" else 1):
                                    r.append((s3, "b", some(x) if m == "find" else v2 if m == "find_map" else mk("bool", m == "any")))
                                else:
                                    r.append((s3, "c", a))
                    return r
                if m == "position":
                    raise Unsupported(m)
                out = []
                for s2, k, r in self.aloop(v, st, t, sp, body):
                    if k == "d":
                        r = mk("bool", m == "all") if m in ("any", "all") else none()
                    out.append((s2, r))
                return out
            if m == "collect" or m == "from_iter":
                ty = self.tys(t[7])
                coll = mk("coll", self.site, "map" if "HashMap<" in ty or "BTreeMap<" in ty else "seq")
                tk = self.trykind(t) if ty.startswith((OPT + "<", OK + "<")) else None
                b = v.a[0] if v.op == "it" else None
                if tk is None and b is not None and b.op == "coll" and v.a[1] == "s":
                    return [(st, b)]

                def body(s, a, x):
                    if tk is None:
                        self.put(coll, x, s)
                        return [(s, "c", a)]
                    r = []
                    for s2, o in self.branches(self.disc(x, None), [0, 1], None, s):
                        x2 = self.resolve(x, s2)
                        if o == tk[0]:
                            self.put(coll, self.field(x2, tk[0], 0), s2)
                            r.append((s2, "c", a))
                        else:
                            r.append((s2, "b", x2 if tk[1] == OPT else err(self.field(x2, 1, 0))))
                    return r
                out = []
                for s2, k, r in self.aloop(v, st, t, sp, body):
                    if k == "d":
                        r = coll if tk is None else mk("adt", tk[1], tk[0], coll)
                    out.append((s2, r))
                return out
            raise Unsupported("iterator method " + m)
        if "Peekable" in d and m == "peek":
            v, pl = self.itval(args[0], st)
            if pl is None:
                raise Unsupported("peek")
            return self.peek(pl, st)
        # collections
        c = fn["c"]
        if ("HashMap" in c or "BTreeMap" in c or "Vec::<" in c or "VecDeque" in c) and m in ("new", "with_capacity", "default") and not tr.endswith("Fn"):
            return [(st, mk("coll", self.site, "map" if "Map" in c else "seq"))]
        if m in ("push", "push_back", "insert") and ("Map::<" in c or "Vec::<" in c or "VecDeque" in c):
            v = self.strip(self.snap(args[0], st))
            if v.op == "coll":
                xs = [self.snap(a, st) for a in args[1:]]
                if m == "insert" and v.a[1] == "map":
                    self.put(v, mk("tup", *xs), st)
                    return [(st, self.opaque_call("map insert", [v] + xs, st, t))]
                if m != "insert":
                    self.put(v, xs[0], st)
                    return [(st, UNIT)]
                if xs[0].op == "int":
                    self.log(st, ("ins", v, xs[0], xs[1]))
                    return [(st, UNIT)]
                raise Unsupported("insert")
        if m == "push_front" and "VecDeque" in c:
            v = self.strip(self.snap(args[0], st))
            if v.op == "coll":
                self.log(st, ("ins", v, mk("int", 0), self.snap(args[1], st)))
                return [(st, UNIT)]
        if m in ("get", "contains_key") and "Map::<" in c or tr == "std::ops::Index" and "Map<" in c:
            v = self.strip(self.snap(args[0], st))
            k = self.strip(self.snap(args[1], st))
            if m == "get":
                return [(st, mk("mapget", v, k, ty=t[7]))]
            g = mk("mapget", v, k)
            out = []
            for s2, o in self.branches(mk("disc", g), [0, 1], None, st):
                if m == "contains_key":
                    out.append((s2, mk("bool", bool(o))))
                else:
                    out.append((s2, mk("field", g, 1, 0) if o else Panic("no such key", sp)))
            return out
        if "std::mem::take" in d or "std::mem::replace" in d:
            a = self.resolve(args[0], st)
            if a.op != "ref":
                return [(st, mk("take", self.strip(self.snap(a, st))))]
        # unwrapping
        if m in ("unwrap", "expect") and d.startswith(("std::option::Option", "std::result::Result")):
            v = self.resolve(args[0], st)
            good = 1 if "option" in d else 0
            out = []
            for s2, o in self.branches(self.disc(v, argtys[0] if argtys else None), [0, 1], None, st):
                x = self.resolve(v, s2)
                out.append((s2, self.field(x, good, 0) if o == good else Panic(m, sp)))
            return out
        # recursion
        df = fn.get("rd", d)
        body = self.p.fns.get(fn.get("id"))
        if body is not None and (body["def"] in self.stack or body["def"] in self.rec) and self.stack:
            self.calls_seen.append((body["def"], st, args))
            sn = [self.snap(a, st) for a in args]
            v = mk("rec", body["def"], *sn, ty=t[7])
            self.log(st, ("rec", body["def"], tuple(self.strip(a) for a in sn), self.sp))
            for i, a in enumerate(args):
                tt = self.T[argtys[i]] if argtys else {}
                if tt.get("k") == "ref" and tt.get("mut") and a.op == "ref":
                    self.write((a.a[0], a.a[1]), mk("out", v, i), st)
            return [(st, v)]
        return None

    def put(self, coll, x, st):
        self.log(st, ("put", coll, x))


def recursive(prog):
    """definitions that can reach themselves"""
    g = {}
    for f in prog.fns.values():
        s = g.setdefault(f["def"], set())
        for b in f["b"]:
            t = b["t"]
            if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                s.add(t[1][1]["fn"].get("rd") or t[1][1]["fn"]["def"])
    out = set()
    for d in g:
        seen, work = set(), list(g[d])
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work += g.get(x, ())
        if d in seen and "parse_display" in d:
            out.add(d)
    return out
