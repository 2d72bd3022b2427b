"""Path-sensitive abstract interpreter over the MIR facts written by driver/main.rs.

The domain is symbolic (Herbrand) values: inputs, opaque call results and projections of them are terms; control flow
forks on discriminants of terms and is merged again at function returns into gated values (`ite`).  Nothing of the
analysed program is executed and no solver is used: two values are equal iff they are the same term.
"""
import json
import re

INTERN = {}


class V:
    __slots__ = ("op", "a", "ty")

    def __repr__(self):
        return show(self)


def mk(op, *a, ty=None):
    k = (op, a)
    v = INTERN.get(k)
    if v is None:
        v = V()
        v.op = op
        v.a = a
        v.ty = ty
        INTERN[k] = v
    elif v.ty is None and ty is not None:
        v.ty = ty
    return v


def show(v, d=0):
    if not isinstance(v, V):
        return repr(v) if not isinstance(v, tuple) else "(" + ",".join(show(x, d) for x in v) + ")"
    if d > 12:
        return "…"
    if v.op in ("str",):
        return json.dumps(v.a[0], ensure_ascii=False)
    if v.op in ("int", "bool"):
        return str(v.a[0])
    if v.op == "rv":
        return "&" + show(v.a[0], d + 1)
    if v.op == "adt":
        return f"{v.a[0]}#{v.a[1]}(" + ",".join(show(x, d + 1) for x in v.a[2:]) + ")"
    if v.op == "field":
        return f"{show(v.a[0], d + 1)}.{v.a[1]}:{v.a[2]}"
    if v.op == "sym":
        return "$" + v.a[0]
    if v.op == "call":
        return f"{v.a[0]}(" + ",".join(show(x, d + 1) for x in v.a[1:]) + ")"
    return v.op + "(" + ",".join(show(x, d + 1) for x in v.a) + ")"


UNIT = mk("tup")
UNINIT = mk("uninit")


def reset():
    """forget all terms (types of terms belong to one analysed function)"""
    INTERN.clear()
    _hr.clear()
    INTERN[("tup", ())] = UNIT
    INTERN[("uninit", ())] = UNINIT


class Unsupported(Exception):
    pass


class St:
    __slots__ = ("mem", "pc", "facts", "ev")

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.facts = {}
        self.ev = ()

    def copy(self):
        n = St()
        n.mem = dict(self.mem)
        n.pc = self.pc
        n.facts = dict(self.facts)
        n.ev = self.ev
        return n


class Panic:
    def __init__(self, msg, sp):
        self.msg = msg
        self.sp = sp


def leaves(v, facts=None, path=()):
    """all leaves of an ite tree with the facts leading to them"""
    if v.op == "ite":
        sc = v.a[0]
        k = dict(path).get(sc)
        if k is None and facts is not None:
            k = facts.get(sc)
        for o, x in v.a[1]:
            if k is None or k == o:
                yield from leaves(x, facts, path + ((sc, o),))
    else:
        yield v, path


def mkite(sc, brs):
    brs = tuple(sorted(brs, key=lambda b: str(b[0])))
    f = brs[0][1]
    if all(b[1] is f for b in brs):
        return f
    if all(b[1].op in ("int", "bool") and isinstance(b[0], int) and int(b[1].a[0]) == b[0] for b in brs):
        return sc
    if len(brs) == 2 and all(b[1].op in ("int", "bool") and b[0] in (0, 1) and int(b[1].a[0]) == 1 - b[0] for b in brs):
        return sc.a[0] if sc.op == "not" else mk("not", sc)
    return mk("ite", sc, brs)


PANIC_MARK = ("core::panicking::", "std::rt::begin_panic", "std::panicking::", "core::option::unwrap_failed",
              "core::option::expect_failed", "core::result::unwrap_failed", "core::str::slice_error_fail",
              "std::option::unwrap_failed", "std::option::expect_failed", "std::result::unwrap_failed",
              "std::process::abort", "std::process::exit", "core::slice::index::", "alloc::alloc::handle_alloc_error")

FMT_TRAITS = {"std::fmt::Display": "Display", "std::fmt::Debug": "Debug", "std::fmt::Octal": "Octal",
              "std::fmt::LowerHex": "LowerHex", "std::fmt::UpperHex": "UpperHex", "std::fmt::Pointer": "Pointer",
              "std::fmt::Binary": "Binary", "std::fmt::LowerExp": "LowerExp", "std::fmt::UpperExp": "UpperExp"}
DEFSPEC = (0x20 | (3 << 29), 0, 0)


class Prog:
    def __init__(self, path):
        # (an `extern crate parse_display;` item makes rustc print paths through the crate that has it)
        t = open(path).read()
        b = path.rsplit("/", 1)[-1]
        if b.startswith("hyg"):
            t = re.sub(r"\bhyg\w*::parse_display::", "parse_display::", t)
        if b.startswith("nst"):
            t = re.sub(r"(?<![\w:])core::", "std::", t)
        d = json.loads(t)
        self.crates = d.get("crates", [])
        self.crate = d["crate"]
        self.T = d["types"]
        self.fns = {f["id"]: f for f in d["fns"]}
        self.roots = d["roots"]
        self.impls = d["impls"]
        self.adts = d["adts"]
        self.statics = d["statics"]
        self.bydef = {}
        for f in d["fns"]:
            self.bydef.setdefault(f["def"], f)
        self.fnconst = {}
        self._cleanup()

    def _cleanup(self):
        pass

    def root(self, canon):
        for i in self.roots:
            if self.fns[i]["c"] == canon:
                return self.fns[i]
        return None


def decode_template(hx):
    b = bytes.fromhex(hx)
    i = 0
    out = []
    argi = 0
    while True:
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(("lit", b[i:i + n].decode()))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(("lit", b[i:i + ln].decode()))
            i += ln
        else:
            fl, w, p = DEFSPEC
            if n & 1:
                fl = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if n & 2:
                w = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 4:
                p = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 8:
                argi = int.from_bytes(b[i:i + 2], "little")
                i += 2
            out.append(("ph", (fl, w, p), argi, bool(n & 16), bool(n & 32)))
            argi += 1
    return out


class Eng:
    """one analysis of one program; `inline(fnref)` decides which bodies are entered."""

    MAXVISIT = 2
    MAXSTATES = 4000

    def __init__(self, prog, opaque=None):
        self.p = prog
        self.T = prog.T
        self.uid = 0
        self.once = []          # (static term, closure value, result)
        self.opaque = opaque or (lambda fr: False)
        self.stats = {"calls": 0, "inlined": 0, "opaque": 0, "blocks": 0, "forks": 0}
        self.fnref = {}
        self.depth = 0
        self.called = set()

    # ------------------------------------------------------------------ types
    def tys(self, i):
        return self.T[i]["s"]

    def uninhabited(self, i):
        t = self.T[i]
        return t.get("k") == "never" or t.get("def", "").endswith("convert::Infallible")

    def domain(self, v):
        """possible discriminants of an adt-typed term"""
        t = self.T[v.ty] if v.ty is not None else None
        if t and t.get("enum"):
            return [int(x["d"]) for x in t["v"]]
        return None

    def deref_ty(self, i):
        return self.T[i].get("to") if i is not None else None

    # ------------------------------------------------------------------ values
    def const(self, c, st, f):
        if "str" in c:
            return mk("str", c["str"])
        if "bytes" in c:
            return mk("bytes", c["bytes"])
        if "i" in c:
            return mk("int", int(c["i"]))
        if "b" in c:
            return mk("bool", c["b"])
        if "ch" in c:
            return mk("ch", c["ch"])
        if "ref" in c:
            r = self.const(c["ref"], st, f)
            if r.op == "str":
                r = r
            return mk("rv", r)
        if "arr" in c:
            return mk("arr", *[self.const(x, st, f) for x in c["arr"]])
        if "tup" in c:
            return mk("tup", *[self.const(x, st, f) for x in c["tup"]])
        if "adt" in c:
            return mk("adt", self.T[c["adt"]].get("def", "?"), c["v"], *[self.const(x, st, f) for x in c["f"]], ty=c["adt"])
        if "zst" in c:
            t = self.T[c["zst"]]
            if t.get("k") == "tuple":
                return UNIT
            if t.get("k") == "closure":
                return mk("clo", t["def"], c["zst"])
            if t.get("k") == "adt":
                return mk("adt", t["def"], 0, ty=c["zst"])
            return mk("zst", t["s"], ty=c["zst"])
        if "fn" in c:
            return self.fnval(c["fn"])
        if "fnp" in c:
            return self.fnval(c["fnp"])
        if "static" in c:
            return mk("static", c["static"], c["sid"])
        if "prom" in c:
            body = self.p.fns.get(c["prom"])
            if body is None:
                return mk("unk", "prom%s" % c["prom"])
            r = self.run(body, [], st.copy())
            r = [(s, x) for s, x in r if not isinstance(x, Panic)]
            if len(r) != 1:
                raise Unsupported("promoted")
            s2, x = r[0]
            return self.snap(x, s2)
        if "uneval" in c:
            return mk("uneval", c["uneval"])
        if "fl" in c:
            return mk("fl", c["fl"])
        return mk("const", json.dumps(c, sort_keys=True))

    def fnval(self, fn):
        k = fn["c"] + "|" + str(fn.get("id"))
        self.fnref[k] = fn
        return mk("fn", k)

    def snap(self, v, st, d=0):
        """replace references to cells by references to immutable values"""
        if v.op == "ref":
            return mk("rv", self.snap(self.read((v.a[0], v.a[1]), st), st, d + 1), ty=v.ty)
        if v.op in ("adt", "tup", "arr", "clo", "args", "farg", "rv", "call", "field", "ite", "upd", "dynargs"):
            if not has_ref(v):
                return v
            if v.op == "ite":
                return mk("ite", v.a[0], tuple((o, self.snap(x, st, d + 1)) for o, x in v.a[1]))
            if v.op == "upd":
                return mk("upd", self.snap(v.a[0], st), tuple((o, self.snap(x, st, d + 1)) for o, x in v.a[1]), ty=v.ty)
            if v.op == "args":
                return mk("args", tuple(p if p[0] == "lit" else p[:2] + (self.snap(p[2], st, d + 1),) + p[3:] for p in v.a[0]))
            return mk(v.op, *[self.snap(x, st, d + 1) if isinstance(x, V) else x for x in v.a], ty=v.ty)
        return v

    def field(self, v, vi, i, ty=None):
        op = v.op
        if op == "adt":
            if vi is not None and v.a[1] != vi:
                return None          # infeasible
            if 2 + i >= len(v.a):
                return UNINIT
            return v.a[2 + i]
        if op in ("tup", "arr"):
            return v.a[i] if i < len(v.a) else UNINIT
        if op == "clo":
            return v.a[2 + i] if 2 + i < len(v.a) else UNINIT
        if op == "part":
            return dict(v.a[0]).get((vi or 0, i), UNINIT)
        if op == "upd":
            for k, x in v.a[1]:
                if k == (vi, i):
                    return x
            return self.field(v.a[0], vi, i, ty)
        if op == "ite":
            brs = []
            for o, x in v.a[1]:
                y = self.field(x, vi, i, ty)
                if y is not None:
                    brs.append((o, y))
            if not brs:
                return None
            if len(brs) == 1:
                return brs[0][1]
            return mkite(v.a[0], brs)
        if op == "uninit":
            return UNINIT
        if op == "box":
            return v.a[0]
        return mk("field", v, vi, i, ty=ty)

    def setfield(self, v, vi, i, x, rest):
        """functional update of v.(vi,i).rest = x"""
        if rest:
            x = self.setproj(self.field(v, vi, i) or UNINIT, rest, x)
        op = v.op
        if op == "adt" and (vi is None or v.a[1] == vi):
            a = list(v.a)
            while len(a) <= 2 + i:
                a.append(UNINIT)
            a[2 + i] = x
            return mk("adt", *a, ty=v.ty)
        if op == "tup" and i < len(v.a):
            a = list(v.a)
            a[i] = x
            return mk("tup", *a)
        if op == "clo":
            a = list(v.a)
            a[2 + i] = x
            return mk("clo", *a)
        if op in ("uninit", "part"):
            d = dict(v.a[0]) if op == "part" else {}
            d[(vi or 0, i)] = x
            return mk("part", tuple(sorted(d.items(), key=lambda kv: kv[0])))
        if op == "upd":
            d = [(k, y) for k, y in v.a[1] if k != (vi, i)]
            d.append(((vi, i), x))
            return mk("upd", v.a[0], tuple(sorted(d, key=lambda kv: str(kv[0]))), ty=v.ty)
        return mk("upd", v, (((vi, i), x),), ty=v.ty)

    def setproj(self, v, proj, x):
        if not proj:
            return x
        vi = None
        j = 0
        while j < len(proj) and proj[j][0] == "v":
            vi = proj[j][1]
            j += 1
        if j == len(proj):
            return x
        if proj[j][0] == "f":
            return self.setfield(v, vi, proj[j][1], x, proj[j + 1:])
        raise Unsupported("write through " + str(proj[j]))

    def deref(self, v):
        if v.op == "rv":
            return v.a[0]
        if self.isstr(v):
            return v            # a "&str" value stands for the text it points to
        if v.op == "bytes":
            return v
        if v.op == "ite":
            return mkite(v.a[0], [(o, self.deref(x)) for o, x in v.a[1]])
        if v.op == "box":
            return v.a[0]
        return mk("deref", v, ty=self.deref_ty(v.ty))

    def isstr(self, v):
        if v.op in ("str", "mstr"):
            return True
        if v.op == "ite":
            return all(self.isstr(x) for _, x in v.a[1])
        return v.ty is not None and self.T[v.ty]["s"] == "&str"

    def ref(self, v):
        if self.isstr(v):
            return v
        if v.op == "deref":
            return v.a[0]
        if v.op == "str" or v.op == "bytes":
            return v
        return mk("rv", v)

    # place = (cell, proj) or ("val", V)
    def read(self, pl, st):
        if pl[0] == "val":
            return pl[1]
        v = st.mem.get(pl[0], UNINIT)
        vi = None
        for s in pl[1]:
            if s[0] == "v":
                vi = s[1]
                continue
            if s[0] == "f":
                v = self.field(v, vi, s[1], s[2] if len(s) > 2 else None)
                vi = None
                if v is None:
                    return mk("infeasible")
            elif s[0] == "ix":
                v = self.index(v, s[1])
        return v

    def index(self, v, ix):
        if v.op == "arr" and ix.op == "int" and 0 <= ix.a[0] < len(v.a):
            return v.a[ix.a[0]]
        return mk("index", v, ix)

    def place(self, p, fr, st):
        """resolve a MIR place to an abstract place"""
        cur = ((fr.uid, p[0]), ())
        ty = fr.f["l"][p[0]]
        vi = None
        for s in p[1:]:
            if s == "*":
                v = self.resolve(self.read(cur, st), st)
                if v.op == "ref":
                    cur = (v.a[0], v.a[1])
                else:
                    cur = ("val", self.deref(v))
                continue
            k = s[0]
            if k == "v":
                vi = s[1]
                if cur[0] != "val":
                    cur = (cur[0], cur[1] + (("v", vi),))
                continue
            if k == "f":
                if cur[0] == "val":
                    v = self.field(self.resolve(cur[1], st), vi, s[1])
                    cur = ("val", v if v is not None else mk("infeasible"))
                else:
                    cur = (cur[0], cur[1] + (("f", s[1]),))
                vi = None
                continue
            if k == "i":
                ix = self.resolve(self.read(((fr.uid, s[1]), ()), st), st)
                if cur[0] == "val":
                    cur = ("val", self.index(cur[1], ix))
                else:
                    cur = (cur[0], cur[1] + (("ix", ix),))
                continue
            if k == "ci":
                base = self.resolve(self.read(cur, st), st)
                if s[3]:
                    v = base.a[len(base.a) - s[1]] if base.op == "arr" else mk("cidx", base, s[1], True)
                else:
                    v = base.a[s[1]] if base.op == "arr" and s[1] < len(base.a) else mk("cidx", base, s[1], False)
                cur = ("val", v)
                continue
            raise Unsupported("projection " + str(s))
        return cur

    def write(self, pl, v, st):
        if pl[0] == "val":
            st.ev = st.ev + (("store", pl[1], self.snap(v, st)),)
            return
        if not pl[1]:
            st.mem[pl[0]] = v
        else:
            st.mem[pl[0]] = self.setproj(st.mem.get(pl[0], UNINIT), pl[1], v)

    def resolve(self, v, st):
        while v.op == "ite":
            k = st.facts.get(v.a[0])
            if k is None:
                return v
            for o, x in v.a[1]:
                if o == k:
                    v = x
                    break
            else:
                return mk("infeasible")
        return v

    def operand(self, o, fr, st):
        if o[0] == "k":
            return self.const(o[1], st, fr.f)
        v = self.read(self.place(o[1], fr, st), st)
        return self.resolve(v, st)

    def typed(self, v, ty):
        if v.ty is None and v.op in ("call", "field", "sym", "deref", "index", "cidx", "out"):
            v.ty = ty
        return v

    def place_ty(self, p, fr):
        if len(p) == 1:
            return fr.f["l"][p[0]]
        return None

    def disc(self, v, ty):
        if v.op == "adt":
            t = self.T[ty] if ty is not None else (self.T[v.ty] if v.ty is not None else None)
            if t and t.get("v") and v.a[1] < len(t["v"]):
                return mk("int", int(t["v"][v.a[1]]["d"]))
            return mk("int", v.a[1])
        if v.op == "ite":
            return mkite(v.a[0], [(o, self.disc(x, ty)) for o, x in v.a[1]])
        if v.op == "upd":
            return self.disc(v.a[0], ty)
        if v.op == "ordering":
            return v
        return mk("disc", v, ty=ty)

    def lnot(self, a):
        if a.op == "bool":
            return mk("bool", not a.a[0])
        if a.op == "not":
            return a.a[0]
        if a.op == "ite":
            return mkite(a.a[0], [(o, self.lnot(x)) for o, x in a.a[1]])
        return mk("not", a)

    def binop(self, op, a, b):
        if a.op == b.op and a.op in ("int", "bool", "ch"):
            x, y = a.a[0], b.a[0]
            m = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}
            if op in m:
                return mk("bool", m[op])
            if a.op == "bool":
                m = {"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}
                if op in m:
                    return mk("bool", m[op])
            if a.op == "int":
                if op in ("Add", "AddUnchecked"):
                    return mk("int", x + y)
                if op in ("Sub", "SubUnchecked"):
                    return mk("int", x - y)
                if op == "AddWithOverflow":
                    return mk("tup", mk("int", x + y), mk("bool", False))
                if op == "SubWithOverflow":
                    return mk("tup", mk("int", x - y), mk("bool", x - y < 0))
        if op in ("BitAnd", "BitOr"):
            for x, y in ((a, b), (b, a)):
                if x.op == "bool":
                    return (y if x.a[0] else x) if op == "BitAnd" else (x if x.a[0] else y)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "BitAnd", "BitOr", "BitXor"):
            for x, y, sw in ((a, b, False), (b, a, True)):
                if x.op == "ite" and (y.op in ("int", "bool", "ch") or op[0] == "B"):
                    return mkite(x.a[0], [(o, self.binop(op, y, z) if sw else self.binop(op, z, y)) for o, z in x.a[1]])
            if op in ("Eq", "Ne"):
                for x, y in ((a, b), (b, a)):
                    if x.op == "not" and y.op in ("int", "bool") and int(y.a[0]) in (0, 1):
                        return x if (int(y.a[0]) == 1) == (op == "Eq") else self.lnot(x)
                    if x.op == "disc" and y.op == "int":
                        d = self.domain2(x)
                        if d is not None:
                            return mkite(x, [(k, mk("bool", (k == y.a[0]) == (op == "Eq"))) for k in d])
        return mk("bin", op, a, b)

    def rvalue(self, r, fr, st, dst):
        k = r[0]
        if k == "use":
            return self.operand(r[1], fr, st)
        if k == "ref" or k == "raw":
            pp = r[2] if k == "ref" else r[1]
            pl = self.place(pp, fr, st)
            if pl[0] == "val":
                return self.ref(pl[1])
            return mk("ref", pl[0], pl[1])
        if k == "disc":
            v = self.resolve(self.read(self.place(r[1], fr, st), st), st)
            return self.disc(v, r[2])
        if k == "agg":
            xs = [self.operand(o, fr, st) for o in r[2]]
            if r[1] == "arr":
                return mk("arr", *xs)
            if r[1] == "tup":
                return mk("tup", *xs)
            if r[1] == "adt":
                return mk("adt", self.T[r[3]]["def"], r[4], *xs, ty=r[3])
            if r[1] == "clo":
                return mk("clo", r[4], r[3], *xs)
            return mk("agg", r[1], *xs)
        if k == "cast":
            v = self.operand(r[2], fr, st)
            if r[1].startswith("IntToInt") and v.op != "int":
                return mk("cast", r[1], v)
            return v
        if k == "bin":
            return self.binop(r[1], self.operand(r[2], fr, st), self.operand(r[3], fr, st))
        if k == "un":
            a = self.operand(r[2], fr, st)
            return self.lnot(a) if r[1] == "Not" else mk("un", r[1], self.snap(a, st))
        if k == "rep":
            return mk("rep", self.operand(r[1], fr, st), r[2])
        return mk("unk", str(r)[:80])

    # ------------------------------------------------------------------ control
    def branches(self, v, vals, tyi, st):
        """fork on an int/bool valued term: list of (state, outcome)"""
        v = self.resolve(v, st)
        neg = False
        while v.op == "not":
            neg = not neg
            v = v.a[0]
        if v.op in ("int", "ch"):
            return [(st, v.a[0])]
        if v.op == "bool":
            return [(st, int(v.a[0]) ^ int(neg))]
        known = st.facts.get(v)
        if known is not None:
            # only a bool can be negated here, and "else" is then "not 0"
            return [(st, int(known == 0) if neg else known)]

        def dom_of(x):
            if x.op in ("int", "ch"):
                return [x.a[0]]
            if x.op == "bool":
                return [int(x.a[0])]
            if x.op == "not":
                ds = dom_of(x.a[0])
                return [d ^ 1 for d in ds] if all(d in (0, 1) for d in ds) else [0, 1]
            if x in st.facts:
                return [st.facts[x]]
            if x.op == "emit":
                return [0, 1]
            if x.op == "disc":
                d = self.domain2(x)
                if d is not None:
                    return d
            t = self.T[tyi] if tyi is not None else None
            if t and t["s"] == "bool":
                return [0, 1]
            return list(vals) + ["else"]
        lv = list(leaves(v, st.facts))
        lv = [(x, p) for x, p in lv if x.op != "infeasible"]
        classes = {}
        for x, path in lv:
            for d in dom_of(x):
                classes.setdefault(d, []).append((x, path))
        dom = tuple(sorted(classes, key=str))
        out = []
        self.stats["forks"] += 1
        for d in dom:
            ns = st.copy() if len(dom) > 1 else st
            if len(dom) > 1:
                ns.pc = ns.pc + ((v, d, dom),)
            ns.facts[v] = d
            if len(classes[d]) == 1:
                x, path = classes[d][0]
                for sc, o in path:
                    ns.facts[sc] = o
                self.learn(x, d, ns)
            else:
                common = None
                for x, path in classes[d]:
                    s = set(path)
                    common = s if common is None else common & s
                for sc, o in common:
                    ns.facts[sc] = o
            out.append((ns, (d ^ 1) if neg and d in (0, 1) else d))
        return out

    def learn(self, x, d, ns):
        if x.op in ("int", "bool", "ch"):
            return
        if x.op == "not":
            return self.learn(x.a[0], d ^ 1, ns)
        ns.facts[x] = d

    def domain2(self, x):
        """domain of disc(y)"""
        t = self.T[x.ty] if x.ty is not None else None
        if t and t.get("enum"):
            return [int(v["d"]) for v in t["v"]]
        return None

    def run(self, f, args, st):
        """-> list of (state, value | Panic)"""
        self.depth += 1
        if self.depth > 80:
            self.depth -= 1
            raise Unsupported("depth")
        try:
            return self._run(f, args, st)
        finally:
            self.depth -= 1

    def _run(self, f, args, st):
        self.uid += 1
        fr = Frame(f, self.uid)
        for i, a in enumerate(args):
            st.mem[(fr.uid, i + 1)] = self.typed(a, f["l"][i + 1]) if i + 1 < len(f["l"]) else a
        outs = []
        work = [(st, 0, {})]
        n = 0
        rpo = self.rpo(f)
        while work:
            # the block that comes first; paths that meet there are joined
            bi = min((w[1] for w in work), key=lambda x: rpo.get(x, x))
            here = [w for w in work if w[1] == bi]
            if len(here) > 1:
                work = [w for w in work if w[1] != bi]
                vis = {}
                for w in here:
                    for b_, c_ in w[2].items():
                        vis[b_] = max(vis.get(b_, 0), c_)
                for s2, _ in self.merge([(w[0], UNIT) for w in here], fr.uid):
                    work.append((s2, bi, vis))
                here = [w for w in work if w[1] == bi]
            work.remove(here[0])
            st, bi, vis = here[0]
            n += 1
            if n > self.MAXSTATES:
                raise Unsupported("too many paths in " + f["c"])
            while True:
                self.stats["blocks"] += 1
                c = vis.get(bi, 0) + 1
                if c > self.MAXVISIT:
                    raise Unsupported("loop in " + f["c"])
                vis = dict(vis)
                vis[bi] = c
                b = f["b"][bi]
                for s in b["s"]:
                    if s[0] == "=":
                        v = self.rvalue(s[2], fr, st, s[1])
                        pl = self.place(s[1], fr, st)
                        self.write(pl, v, st)
                    elif s[0] == "sd":
                        raise Unsupported("set discriminant")
                t = b["t"]
                k = t[0]
                if k == "goto":
                    bi = t[1]
                    if work:
                        work.append((st, bi, vis))
                        break
                    continue
                if k == "ret":
                    v = self.resolve(st.mem.get((fr.uid, 0), UNIT), st)
                    outs.append((st, v))
                    break
                if k == "unr":
                    break
                if k == "drop":
                    bi = t[2]
                    if work:
                        work.append((st, bi, vis))
                        break
                    continue
                if k == "sw":
                    v = self.operand(t[1], fr, st)
                    if v.op == "infeasible":
                        break
                    vals = [int(x[0]) for x in t[3]]
                    tg = {int(x[0]): x[1] for x in t[3]}
                    br = self.branches(v, vals, t[2], st)
                    nxt = [(s2, tg.get(o, t[4])) for s2, o in br]
                    if len(nxt) == 1:
                        st, bi = nxt[0]
                        continue
                    for s2, b2 in nxt:
                        work.append((s2, b2, vis))
                    break
                if k == "assert":
                    v = self.operand(t[1], fr, st)
                    exp = int(t[2])
                    br = self.branches(v, [0], None, st) if v.op != "bool" else [(st, int(v.a[0]))]
                    good = None
                    for s2, o in br:
                        o = 1 if o == "else" else o
                        if o == exp:
                            good = s2
                        else:
                            outs.append((s2, Panic("assert: " + t[4], t[5])))
                    if good is None:
                        break
                    st = good
                    bi = t[3]
                    continue
                if k == "call":
                    res = self.call(t, fr, st)
                    cont = []
                    for s2, v in res:
                        if isinstance(v, Panic):
                            outs.append((s2, v))
                        elif t[4] >= 0:
                            self.typed(v, t[7])
                            self.write(self.place(t[3], fr, s2), v, s2)
                            cont.append(s2)
                    if t[4] < 0 or not cont:
                        break
                    if len(cont) == 1:
                        st = cont[0]
                        bi = t[4]
                        continue
                    for s2 in cont:
                        work.append((s2, t[4], vis))
                    break
                if k in ("resume", "term"):
                    break
                raise Unsupported("terminator " + k)
        # leave the frame
        fin = []
        for s2, v in outs:
            if not isinstance(v, Panic):
                v = self.close(v, s2, fr.uid)
            for c in [c for c in s2.mem if c[0] == fr.uid]:
                del s2.mem[c]
            fin.append((s2, v))
        return self.merge(fin)

    def close(self, v, st, uid):
        if has_ref(v):
            return self.snap_uid(v, st, uid)
        return v

    def snap_uid(self, v, st, uid):
        if v.op == "ref":
            if v.a[0][0] == uid:
                return mk("rv", self.snap_uid(self.read((v.a[0], v.a[1]), st), st, uid))
            return v
        if not has_ref(v):
            return v
        if v.op == "ite":
            return mk("ite", v.a[0], tuple((o, self.snap_uid(x, st, uid)) for o, x in v.a[1]))
        if v.op == "args":
            return self.snap(v, st)
        return mk(v.op, *[self.snap_uid(x, st, uid) if isinstance(x, V) else x for x in v.a], ty=v.ty)

    def rpo(self, f):
        r = f.get("rpo_")
        if r is None:
            seen, order = set(), []
            stack = [(0, iter(self.succ(f["b"][0]["t"])))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        stack.append((x, iter(self.succ(f["b"][x]["t"]))))
                        break
                else:
                    stack.pop()
                    order.append(b)
            r = {b: i for i, b in enumerate(reversed(order))}
            f["rpo_"] = r
        return r

    @staticmethod
    def succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "drop":
            return [t[2]]
        if k == "sw":
            return [x[1] for x in t[3]] + [t[4]]
        if k == "assert":
            return [t[3]]
        if k == "call":
            return [t[4]] if t[4] >= 0 else []
        return []

    def merge(self, outs, uid=None):
        if len(outs) < 2:
            return outs
        pan = [o for o in outs if isinstance(o[1], Panic)]
        cur = [o for o in outs if not isinstance(o[1], Panic)]
        changed = True
        while changed and len(cur) > 1:
            changed = False
            groups = {}
            for o in cur:
                pc = o[0].pc
                if pc:
                    groups.setdefault((pc[:-1], pc[-1][0], pc[-1][2], o[0].ev), []).append(o)
            for (pre, sc, dom, ev), g in sorted(groups.items(), key=lambda kv: -len(kv[0][0])):
                got = {o[0].pc[-1][1]: o for o in g}
                if len(got) != len(g) or set(got) != set(dom):
                    continue
                # memory: phi differing cells
                st = St()
                st.pc = pre
                st.ev = ev
                first = g[0][0]
                cells = set(first.mem)
                for o in g:
                    cells |= set(o[0].mem)
                if any(c[0] != uid for o in g for c in cells - set(o[0].mem)):
                    continue
                for c in cells:
                    vs = [(k, o[0].mem.get(c, UNINIT)) for k, o in got.items()]
                    st.mem[c] = vs[0][1] if all(x[1] is vs[0][1] for x in vs) else mkite(sc, vs)
                for k, x in first.facts.items():
                    if all(o[0].facts.get(k) == x for o in g):
                        st.facts[k] = x
                st.facts.pop(sc, None)
                v = mkite(sc, [(k, o[1]) for k, o in got.items()])
                cur = [o for o in cur if o not in g] + [(st, v)]
                changed = True
                break
        return cur + pan

    # ------------------------------------------------------------------ calls
    def call(self, t, fr, st):
        self.stats["calls"] += 1
        fo = t[1]
        args = [self.operand(a, fr, st) for a in t[2]]
        sp = t[6] or t[5]
        if fo[0] == "k" and "fn" in fo[1]:
            fn = fo[1]["fn"]
            self.fnval(fn)
            return self.apply(fn, args, st, t, sp, t[9] if len(t) > 9 else None)
        v = self.operand(fo, fr, st)
        return self.apply_value(v, args, st, t, sp)

    def apply_value(self, v, args, st, t, sp):
        v = self.resolve(v, st)
        while v.op in ("rv",):
            v = v.a[0]
        if v.op == "ref":
            v2 = self.resolve(self.read((v.a[0], v.a[1]), st), st)
            return self.apply_value(v2, args, st, t, sp)
        if v.op == "fn":
            return self.apply(self.fnref[v.a[0]], args, st, t, sp, None)
        if v.op == "clo":
            return self.apply_closure(v, args, st, t, sp)
        return [(st, self.opaque_call("indirect", [v] + args, st, t))]

    def closure_body(self, v):
        for f in self.p.fns.values():
            if f.get("cl") and f["def"] == v.a[0] and f["l"][1] in (v.a[1],) or (
                    f.get("cl") and f["def"] == v.a[0] and self.T[f["l"][1]].get("to") == v.a[1]):
                return f
        return None

    def apply_closure(self, v, args, st, t, sp, body=None):
        body = body or self.closure_body(v)
        if body is None:
            return [(st, self.opaque_call("closure " + str(v.a[0]), [v] + args, st, t))]
        if self.T[body["l"][1]].get("k") == "ref":
            self.uid += 1
            cell = (self.uid, 0)
            st.mem[cell] = v
            r = self.run(body, [mk("ref", cell, ())] + args, st)
            for s, _ in r:
                s.mem.pop(cell, None)
            return r
        return self.run(body, [v] + args, st)

    def opaque_call(self, name, args, st, t, argtys=None, ty=None):
        self.stats["opaque"] += 1
        sn = [self.snap(a, st) for a in args]
        v = mk("call", name, *sn, ty=ty if ty is not None else (t[7] if t else None))
        if argtys:
            for i, (a, ty) in enumerate(zip(args, argtys)):
                tt = self.T[ty]
                if tt.get("k") == "ref" and tt.get("mut"):
                    if a.op == "ref":
                        self.write((a.a[0], a.a[1]), mk("out", v, i), st)
                    elif self.snap(a, st).op not in ("rv", "str", "bytes", "arr"):
                        st.ev = st.ev + (("effect", v),)
        return v

    def is_panic(self, fn):
        d = fn.get("rd") or fn["def"]
        return d.startswith(PANIC_MARK) or "::panic_" in d or d.endswith("::unwrap_failed") or d.endswith("::expect_failed") \
            or d.endswith("assert_failed")

    def apply(self, fn, args, st, t, sp, argtys):
        d = fn["def"]
        rd = fn.get("rd", d)
        kr = fn.get("kr", "")
        m = fn.get("m") or d.rsplit("::", 1)[-1]
        tr = fn.get("tr", "")
        if "ctor" in fn:
            return [(st, mk("adt", fn["ctor"][0], fn["ctor"][1], *args, ty=t[7] if t else None))]
        if self.is_panic(fn):
            return [(st, Panic(rd, sp))]
        # calls of callables
        if tr in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn"):
            tup = self.resolve(args[1], st)
            a2 = list(tup.a) if tup.op == "tup" else [self.field(tup, None, i) for i in range(8)]
            c = self.resolve(args[0], st)
            if c.op in ("ref", "rv", "clo", "fn"):
                cv = c
                while cv.op in ("ref", "rv"):
                    cv = self.resolve(self.read((cv.a[0], cv.a[1]), st) if cv.op == "ref" else cv.a[0], st)
                if cv.op == "clo":
                    body = self.p.fns.get(fn["id"]) if "id" in fn else None
                    if body is not None and body["def"] != cv.a[0]:
                        body = None
                    body = body or self.closure_body(cv)
                    if body is None:
                        return [(st, self.opaque_call("closure", [cv] + a2, st, t))]
                    if self.T[body["l"][1]].get("k") == "ref" and c.op != "clo":
                        r = c if c.op == "ref" else mk("rv", cv)
                        return self.run(body, [r] + a2, st)
                    return self.apply_closure(cv, a2, st, t, sp, body)
                if cv.op == "fn":
                    return self.apply(self.fnref[cv.a[0]], a2, st, t, sp, None)
            return [(st, self.opaque_call("indirect", [args[0]] + a2, st, t))]
        r = self.model(fn, args, st, t, sp, d, rd, kr, m, tr, argtys)
        if r is not None:
            return r
        if "id" in fn and not self.opaque(fn):
            body = self.p.fns.get(fn["id"])
            if body is not None:
                sv = st.copy()
                try:
                    self.stats["inlined"] += 1
                    return self.run(body, args, st)
                except Unsupported:
                    if kr in ("parse_display",):
                        st = sv
                    else:
                        raise
        self.called.add(fn["c"])
        # an opaque writer: it is given the formatter, so it produces output and a fmt::Result
        sn = [self.snap(a, st) for a in args]
        fm = [self.formatter(a, st) for a in sn]
        if any(f.op == "fmtr" for f in fm) and m != "alternate" and t and "Result<(), std::fmt::Error>" in self.T[t[7]]["s"]:
            f0 = next(f for f in fm if f.op == "fmtr")
            rest = tuple(a for a, f in zip(sn, fm) if f.op != "fmtr")
            return self.emit(f0, ("callfmt", fn["c"], f0.a[0], rest), st)
        return [(st, self.opaque_call(self.cname(fn), args, st, t, argtys))]

    def cname(self, fn):
        return fn["c"]

    # ------------------------------------------------------------------ models of library primitives
    def model(self, fn, args, st, t, sp, d, rd, kr, m, tr, argtys):
        if m == "get_or_init" and "OnceLock" in d or m == "get_or_init" and "OnceCell" in d:
            key = self.snap(args[0], st)
            cv = self.resolve(args[1], st)
            res = self.apply_value(cv, [], st, t, sp)
            out = []
            for s2, v in res:
                if not isinstance(v, Panic):
                    self.once.append((key, cv, self.snap(v, s2)))
                    v = mk("rv", self.snap(v, s2))
                out.append((s2, v))
            return out
        if m in ("force", "deref") and "LazyLock" in fn["c"] or m in ("force", "deref") and "LazyCell" in fn["c"]:
            key = self.snap(args[0], st)
            st_ = key
            while st_.op in ("rv", "deref"):
                st_ = st_.a[0]
            if st_.op == "static":
                body = self.p.bydef.get(st_.a[0])
                if body:
                    rs = self.run(body, [], st)
                    out = []
                    for s2, v in rs:
                        if v.op == "call" and "LazyLock" in v.a[0] or v.op == "call" and "LazyCell" in v.a[0]:
                            for s3, w in self.apply_value(v.a[1], [], s2, t, sp):
                                if not isinstance(w, Panic):
                                    self.once.append((key, v.a[1], self.snap(w, s3)))
                                    w = mk("rv", self.snap(w, s3))
                                out.append((s3, w))
                        else:
                            return None
                    return out
            return None
        # strings
        if tr == "std::cmp::PartialEq" and m in ("eq", "ne"):
            a, b = [self.strip(self.snap(x, st)) for x in args]
            slf = fn.get("self", "")
            if slf.strip("&") in ("str", "std::string::String"):
                if a.op == "str" and b.op == "str":
                    r = mk("bool", a.a[0] == b.a[0])
                else:
                    if a.op == "str":
                        a, b = b, a
                    r = mk("streq", a, b)
                if m == "ne":
                    r = mk("bool", not r.a[0]) if r.op == "bool" else mk("not", r)
                return [(st, r)]
            if slf.strip("&") == "std::option::Option<std::string::String>" and not (a.op == "adt" and b.op == "adt"):
                r = mk("streq", a, b)
                return [(st, mk("not", r) if m == "ne" else r)]
            return None
        # regex captures
        if kr == "regex" and "Captures" in fn["c"]:
            c = self.strip(self.snap(args[0], st))
            if m == "get":
                return [(st, mk("capget", c, args[1], ty=t[7]))]
            if m == "name":
                return [(st, mk("capname", c, self.strip(self.snap(args[1], st)), ty=t[7]))]
            if m == "index" and tr == "std::ops::Index":
                ix = self.strip(self.snap(args[1], st))
                g = mk("capget" if ix.op == "int" else "capname", c, ix)
                out = []
                for s2, o in self.branches(mk("capsome", g), [0, 1], None, st):
                    if o in (1, "else"):
                        out.append((s2, mk("mstr", mk("field", g, 1, 0))))
                    else:
                        out.append((s2, Panic("captures index", sp)))
                return out
        if kr == "regex" and "Match" in fn["c"] and m == "as_str":
            return [(st, mk("mstr", self.strip(self.snap(args[0], st))))]
        if kr == "regex" and "Regex" in fn["c"] and m == "captures":
            return [(st, mk("captures", self.strip(self.snap(args[0], st)), self.strip(self.snap(args[1], st)), ty=t[7]))]
        # formatting machinery
        if "fmt::Arguments" in d:
            if m == "new":
                tpl = self.strip(self.snap(args[0], st))
                arr = self.snap(args[1], st)
                while arr.op == "rv":
                    arr = arr.a[0]
                if tpl.op != "bytes" or arr.op != "arr":
                    raise Unsupported("format template")
                ps = []
                for p in decode_template(tpl.a[0]):
                    if p[0] == "lit":
                        ps.append(p)
                    else:
                        w, pr = p[1][1], p[1][2]
                        spec = (p[1][0], arr.a[w] if p[3] else w, arr.a[pr] if p[4] else pr)
                        ps.append(("ph", spec, arr.a[p[2]], 0))
                return [(st, mk("args", tuple(ps)))]
            if m in ("from_str", "from_str_nonconst"):
                s = self.strip(args[0])
                if s.op == "str":
                    return [(st, mk("args", (("lit", s.a[0]),)))]
        if "fmt::rt::Argument" in d and m.startswith("new_"):
            tgt = None
            body = self.p.fns.get(fn.get("id"))
            if body:
                for b in body["b"]:
                    for s in b["s"]:
                        if s[0] == "=" and s[2][0] == "cast" and s[2][2][0] == "k" and "fn" in s[2][2][1]:
                            tgt = s[2][2][1]["fn"]
            if tgt is None:
                raise Unsupported("fmt argument")
            self.fnval(tgt)
            return [(st, mk("farg", tgt["c"] + "|" + str(tgt.get("id")), args[0], fn["ta"][0]))]
        if "fmt::rt::Argument" in d and m == "from_usize":
            return [(st, mk("fcount", self.strip(self.snap(args[0], st))))]
        if tr in FMT_TRAITS and m == "fmt":
            return self.emit_fmt(fn, args[0], args[1], st, t, sp)
        if m == "write_str" and ("fmt::Formatter" in fn["c"]):
            s = self.strip(self.snap(args[1], st))
            return self.emit(self.formatter(args[0], st), ("lit", s.a[0]) if s.op == "str" else ("str", s), st)
        if m == "write_char" and ("fmt::Formatter" in fn["c"]):
            s = self.strip(self.snap(args[1], st))
            return self.emit(self.formatter(args[0], st), ("lit", chr(s.a[0])) if s.op == "ch" else ("char", s), st)
        if m == "pad" and "fmt::Formatter" in fn["c"]:
            f = self.formatter(args[0], st)
            s = self.strip(self.snap(args[1], st))
            return self.emit(f, self.norm_fmt("Display", f.a[0] if f.op == "fmtr" else f, s), st)
        if m == "write_fmt" and ("fmt::Formatter" in fn["c"]):
            return self.write_args(self.formatter(args[0], st), self.resolve(args[1], st), st, t, sp)
        if tr == "std::clone::Clone" and m == "clone":
            if argtys and self.T[self.T[argtys[0]].get("to", 0)].get("k") == "ref":
                return [(st, self.deref(self.snap(args[0], st)))]
        return None

    def strip(self, v):
        """strip references"""
        while True:
            if v.op == "rv":
                v = v.a[0]
            elif v.op == "ite":
                n = mkite(v.a[0], [(o, self.strip(x)) for o, x in v.a[1]])
                return n
            elif v.op == "deref":
                v = v.a[0]
            else:
                return v

    def formatter(self, v, st):
        v = self.snap(v, st)
        while v.op in ("rv", "deref"):
            v = v.a[0]
        return v

    def norm_fmt(self, trait, spec, v):
        if trait == "Display" and spec == DEFSPEC and v.op == "str":
            return ("lit", v.a[0])
        return ("fmt", trait, spec, v)

    def emit(self, f, e, st):
        """append an output event; the result is a fresh fmt::Result"""
        sc = mk("emit", len(st.ev))
        st.ev = st.ev + (e,)
        ok = mk("adt", "std::result::Result", 0, UNIT)
        er = mk("adt", "std::result::Result", 1, mk("adt", "std::fmt::Error", 0))
        return [(st, mk("ite", sc, ((0, ok), (1, er))))]

    def write_args(self, f, a, st, t, sp):
        a = self.snap(a, st)
        while a.op in ("rv", "deref"):
            a = a.a[0]
        if a.op == "fmtr" or a.op != "args":
            return self.emit(f, ("argsopaque", a), st)
        ok = mk("adt", "std::result::Result", 0, UNIT)
        cur = [(st, ok)]
        done = []
        for p in a.a[0]:
            nxt = []
            for s, v in cur:
                # the previous result must be Ok to go on
                if p[0] == "lit":
                    rs = self.emit(f, ("lit", p[1]), s)
                else:
                    arg = p[2]
                    if arg.op != "farg":
                        raise Unsupported("format argument " + arg.op)
                    fn = self.fnref[arg.a[0]]
                    rs = self.emit_fmt(fn, arg.a[1], mk("fmtr", p[1]), s, t, sp)
                for s2, v2 in rs:
                    if isinstance(v2, Panic):
                        done.append((s2, v2))
                        continue
                    for s3, o in self.branches(self.disc(v2, None), [0, 1], None, s2):
                        if o == 0:
                            nxt.append((s3, ok))
                        else:
                            e = self.resolve(v2, s3)
                            done.append((s3, e))
            cur = nxt
        return cur + done

    def emit_fmt(self, fn, ref, f, st, t, sp):
        """<T as Trait>::fmt(ref, f)"""
        trait = FMT_TRAITS[fn["tr"]]
        fv = self.formatter(f, st)
        slf = fn.get("self", "")
        # references format their target (except {:p})
        if trait != "Pointer" and "peel" in fn:
            while slf.startswith("&"):
                slf = slf[1:].lstrip()
                if slf.startswith("'"):
                    slf = slf.split(" ", 1)[1]
                if slf.startswith("mut "):
                    slf = slf[4:]
                ref = self.read((ref.a[0], ref.a[1]), st) if ref.op == "ref" else self.deref(ref)
                ref = self.resolve(ref, st)
            fn = fn["peel"]
        val = self.read((ref.a[0], ref.a[1]), st) if ref.op == "ref" else self.deref(self.resolve(ref, st))
        val = self.resolve(val, st)
        if fn.get("self", "").startswith("std::fmt::Arguments"):
            return self.write_args(fv, val, st, t, sp)
        if "id" in fn and fn.get("kr") == "parse_display" and not self.opaque(fn):
            return self.run(self.p.fns[fn["id"]], [ref, f], st)
        spec = fv.a[0] if fv.op == "fmtr" else fv
        val = self.snap(val, st)
        if val.op == "deref" and val.a[0].op == "str":
            val = val.a[0]
        return self.emit(fv, self.norm_fmt(trait, spec, val), st)


class Frame:
    __slots__ = ("f", "uid")

    def __init__(self, f, uid):
        self.f = f
        self.uid = uid


_hr = {}


def has_ref(v):
    r = _hr.get(v)
    if r is None:
        if v.op == "ref":
            r = True
        elif v.op == "ite":
            r = any(has_ref(x) for _, x in v.a[1])
        elif v.op == "upd":
            r = has_ref(v.a[0]) or any(has_ref(x) for _, x in v.a[1])
        elif v.op == "args":
            r = any(p[0] == "ph" and has_ref(p[2]) for p in v.a[0])
        elif v.op == "part":
            r = any(has_ref(x) for _, x in v.a[0])
        else:
            r = any(isinstance(x, V) and has_ref(x) for x in v.a)
        _hr[v] = r
    return r
