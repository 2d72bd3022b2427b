"""C14: the where clauses of the generated impls, compared with the documented rule, for a family of generic types."""
import json
import random
import re

import model as M
import pipeline as P

CR = "witb"
HEAD = """#![allow(warnings)]
use parse_display::{Display, FromStr};
""" + M.USR.replace("pub mod usr {", """pub mod usr {
    use core::marker::PhantomData;
    /// implements everything whatever its parameter is
    pub struct G<T: ?Sized>(pub u8, pub PhantomData<T>);
    pub struct K<const LEN: usize>(pub u8);
    pub struct T(pub u8);
    pub trait Tr { type A; }
    macro_rules! allfmt { ($($t:ident)*) => { $(
        impl<X: ?Sized> core::fmt::$t for G<X> { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
        impl<const LEN: usize> core::fmt::$t for K<LEN> { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
        impl core::fmt::$t for T { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
    )* } }
    allfmt!(Display Debug LowerHex UpperHex Octal Binary LowerExp UpperExp Pointer);
    impl<X: ?Sized> core::str::FromStr for G<X> { type Err = u8; fn from_str(_: &str) -> Result<Self, u8> { unimplemented!() } }
    impl<const LEN: usize> core::str::FromStr for K<LEN> { type Err = u8; fn from_str(_: &str) -> Result<Self, u8> { unimplemented!() } }
    impl core::str::FromStr for T { type Err = u8; fn from_str(_: &str) -> Result<Self, u8> { unimplemented!() } }
    impl<X: ?Sized> Default for G<X> { fn default() -> Self { unimplemented!() } }
    impl<const LEN: usize> Default for K<LEN> { fn default() -> Self { unimplemented!() } }
    impl Default for T { fn default() -> Self { unimplemented!() } }
""", 1)
G = f"{CR}::usr::G"
# (written, as rustc prints it, mentions a type or const parameter)
TYPES = [("crate::usr::G<T>", f"{G}<T>", 1), ("crate::usr::G<U>", f"{G}<U>", 1), ("crate::usr::G<u8>", f"{G}<u8>", 0),
         ("crate::usr::G<Vec<T>>", f"{G}<std::vec::Vec<T>>", 1), ("crate::usr::G<(u8, T)>", f"{G}<(u8, T)>", 1), ("crate::usr::G<[T; 2]>", f"{G}<[T; 2]>", 1),
         ("crate::usr::G<fn(U) -> u8>", f"{G}<fn(U) -> u8>", 1), ("crate::usr::G<<T as crate::usr::Tr>::A>", f"{G}<<T as {CR}::usr::Tr>::A>", 1),
         ("crate::usr::G<T::A>", f"{G}<<T as {CR}::usr::Tr>::A>", 1), ("crate::usr::K<N>", f"{CR}::usr::K<N>", 1), ("crate::usr::G<&'a u8>", f"{G}<&'a u8>", 0),
         ("crate::usr::T", f"{CR}::usr::T", 0), ("crate::usr::G<crate::usr::T>", f"{G}<{CR}::usr::T>", 0), ("crate::usr::G<*const U>", f"{G}<*const U>", 1),
         ("crate::usr::G<&'a [U]>", f"{G}<&'a [U]>", 1), ("crate::usr::G<Box<dyn crate::usr::Tr<A = U>>>", None, 1), ("String", "std::string::String", 0),
         ("crate::usr::G<::std::vec::Vec<T>>", f"{G}<std::vec::Vec<T>>", 1),
         ("crate::usr::G<::core::option::Option<u8>>", f"{G}<std::option::Option<u8>>", 0), 
         ("(crate::usr::G<U>)", f"{G}<U>", 1),
         ("crate::usr::G<crate::usr::G<crate::usr::G<(T,)>>>", f"{G}<{G}<{G}<(T,)>>>", 1), ("crate::usr::G<[u8; N]>", f"{G}<[u8; N]>", 1),
         ("crate::usr::G<for<'b> fn(&'b u8) -> U>", f"{G}<for<'b> fn(&'b u8) -> U>", 1), ("crate::usr::G<fn(u8)>", f"{G}<fn(u8)>", 0)]
# types that need the bound: used without bound(..)
RAW = [("::std::vec::Vec<T>", "std::vec::Vec<T>", 1), ("::std::boxed::Box<U>", "std::boxed::Box<U>", 1), ("T", "T", 1), ("U", "U", 1), ("T::A", f"<T as {CR}::usr::Tr>::A", 1),
       ("<T as crate::usr::Tr>::A", f"<T as {CR}::usr::Tr>::A", 1), ("(T,)", "(T,)", 1), ("[U; N]", "[U; N]", 1), ("::core::option::Option<T>", "std::option::Option<T>", 1),
       ("[u8; N]", "[u8; N]", 1), ("&'a T", "&'a T", 1), ("*const U", "*const U", 1), ("fn(T) -> u8", "fn(T) -> u8", 1)]
TRAITS = [("", "Display"), ("?", "Debug"), ("x", "LowerHex"), ("X", "UpperHex"), ("o", "Octal"), ("b", "Binary"), ("e", "LowerExp"), ("E", "UpperExp"), ("#x?", "Debug"),
          (">8", "Display"), ("08.3e", "LowerExp")]
# (written, kind, rustc form); kind ty: gets the derived trait
BOUNDS = [("T", "ty", "T"), ("U", "ty", "U"), ("crate::usr::G<U>", "ty", f"{G}<U>"), ("T: Copy", "pred", ["T: std::marker::Copy"]), ("Vec<U>", "ty", "std::vec::Vec<U>"),
          ("U: Clone + Send", "pred", ["U: std::clone::Clone", "U: std::marker::Send"]), ('"U: Sync"', "pred", ["U: std::marker::Sync"]),
          ('"T, U : Copy"', "multi", [("T", "ty", "T"), ("U: Copy", "pred", ["U: std::marker::Copy"])]), ("..", "dots", None),
          ("crate::usr::G<T>: Default", "pred", [f"{G}<T>: std::default::Default"]), ("Box<U>", "ty", "std::boxed::Box<U>"), ("[T; N]", "ty", "[T; N]")]


class B:
    def __init__(self, bound, owner=None):
        self.pred = set()
        self.ty = set()
        self.owner = owner
        if owner is not None and not owner.ext:
            self.ext = False
            return
        self.ext = bound is None
        for w, k, c in bound or ():
            self.put(k, c)

    def put(self, k, c):
        if k == "dots":
            self.ext = True
        elif k == "ty":
            self.ty.add(c)
        elif k == "pred":
            self.pred |= set(c)
        else:
            for _, k2, c2 in c:
                self.put(k2, c2)

    def close(self):
        if self.owner is not None and self.owner.ext:
            self.owner.ty |= self.ty
            self.owner.pred |= self.pred


def battr(kind, b):
    return f"{kind}(bound({', '.join(x[0] for x in b)}))"


class Fld:
    def __init__(self, name, ty, can, gen, use=None, opt=False, with_=None, fmt=None, bd=None, bf=None, default=False):
        self.__dict__.update(locals())

    def attrs(self):
        o = []
        a = []
        if self.fmt is not None:
            a.append(M.rstr(self.fmt[0]))
        if self.opt:
            a.append("opt")
        if self.with_ == "d":
            a.append("with = crate::usr::WA")
        if a:
            o.append(f"display({', '.join(a)})")
        if self.with_ == "f":
            o.append("from_str(with = crate::usr::WB)")
        if self.bd is not None:
            o.append(battr("display", self.bd))
        if self.bf is not None:
            o.append(battr("from_str", self.bf))
        if self.default:
            o.append("from_str(default)")
        return " ".join(f"#[{x}]" for x in o)


class Body:
    """struct body or variant: fields, format uses [(field index, spec, trait) or (index, 'nested')]"""

    def __init__(self, fields, uses, named, bd=None, bf=None, ignore=False, own=True):
        self.__dict__.update(locals())


def fmt_of(b, lead=""):
    s = lead
    for n, (i, spec, tr) in enumerate(b.uses):
        key = b.fields[i].name if b.named else str(i)
        s += "{%s%s%s}" % (key, ".0" if tr == "nested" else "", ":" + spec if spec else "") + "-/"[n % 2]
    return s


def display_bounds(owner, b):
    for i, spec, tr in b.uses:
        f = b.fields[i]
        if tr == "nested":
            continue
        c = B(f.bd, owner)
        if f.with_ != "d":
            if f.fmt is not None:
                trs = f.fmt[1]
            else:
                trs = [tr]
            for t in trs:
                if f.gen and c.ext:
                    c.pred.add(f"{f.can}: std::fmt::{t}")
        c.close()


def fromstr_bounds(owner, b):
    if not owner.ext:
        return
    for i, f in enumerate(b.fields):
        u = [x for x in b.uses if x[0] == i and x[2] != "nested"]
        if not u:
            continue
        c = B(f.bf if f.bf is not None else f.bd, owner)
        if c.ext and f.with_ is None and (f.fmt is None or f.fmt[1]) and f.gen:
            c.ty.add(f.can)
        c.close()


def finish(root, trait):
    return root.pred | {f"{t}: {trait}" for t in root.ty}


class Witness:
    def __init__(self, name, bodies, enum, bd, bf, fs, where):
        self.__dict__.update(locals())

    def rust(self):
        o = []
        der = ["Display"] + (["FromStr"] if self.fs else [])
        o.append(f"#[derive({', '.join(der)})]")
        if self.bd is not None:
            o.append(f"#[{battr('display', self.bd)}]")
        if self.bf is not None and self.fs:
            o.append(f"#[{battr('from_str', self.bf)}]")
        g = "<'a, T: crate::usr::Tr, U, const N: usize>"
        w = f" where {self.where[0]}" if self.where else ""
        if self.enum:
            o.append(f"pub enum {self.name}{g}{w} {{")
            for i, b in enumerate(self.bodies):
                at = [f"#[display({M.rstr(fmt_of(b, 'v%d' % i))})]"]
                if b.bd is not None:
                    at.append(f"#[{battr('display', b.bd)}]")
                if b.bf is not None and self.fs:
                    at.append(f"#[{battr('from_str', b.bf)}]")
                if b.ignore and self.fs:
                    at.append("#[from_str(ignore)]")
                o.append("    " + " ".join(at) + f" V{i}" + self.fields(b, False) + ",")
            o.append("    #[display(\"\")] P(core::marker::PhantomData<(&'a T, U)>) }" if not self.fs else
                     "    #[display(\"\")] P(#[from_str(default)] core::marker::PhantomData<(&'a T, U)>) }")
        else:
            b = self.bodies[0]
            o.append(f"#[display({M.rstr(fmt_of(b))})]")
            o.append(f"pub struct {self.name}{g}{self.fields(b, True)}{w};" if not b.named else f"pub struct {self.name}{g}{w}{self.fields(b, True)}")
        return "\n".join(o)

    def fields(self, b, st):
        fs = []
        for f in b.fields:
            at = f.attrs()
            if not self.fs:
                at = re.sub(r"#\[from_str\((?:bound\(.*?\)|[^)]*)\)\]", "", at) if "from_str(with" not in at else at
            fs.append((at + " " if at else "") + ("pub " if st else "") + (f"{f.name}: " if b.named else "") + (f"Option<{f.ty}>" if f.opt else f.ty))
        if st:
            d = "#[from_str(default)] " if self.fs else ""
            fs.append(d + "pub " + ("ph__: " if b.named else "") + "core::marker::PhantomData<(&'a T, U)>")
        return " { " + ", ".join(fs) + " }" if b.named else "(" + ", ".join(fs) + ")"

    def expected(self, trait):
        base = {"T: " + CR + "::usr::Tr"} | set(self.where[1] if self.where else ())
        if trait == "Display":
            root = B(self.bd)
            for b in self.bodies:
                if self.enum:
                    c = B(b.bd, root)
                    display_bounds(c, b)
                    c.close()
                else:
                    display_bounds(root, b)
            return base | finish(root, "std::fmt::Display")
        r = lambda x, y: y if y is not None else x
        root = B(r(self.bd, self.bf))
        for b in self.bodies:
            if b.ignore:
                continue
            if self.enum:
                c = B(r(b.bd, b.bf), root)
                fromstr_bounds(c, b)
                c.close()
            else:
                fromstr_bounds(root, b)
        return base | finish(root, "std::str::FromStr")


def some_bound(r, p):
    if r.random() > p:
        return None
    k = r.choice([0, 1, 1, 1, 2])
    b = r.sample(BOUNDS, k)
    if r.random() < 0.3 and not any(x[1] == "dots" for x in b):
        b.insert(r.randrange(len(b) + 1), BOUNDS[8])
    return b


def body(r, fs, enum):
    n = r.choice([1, 1, 2, 3])
    named = r.random() < 0.6
    names = r.sample(["a", "b", "x", "value", "T_", "n", "r#type"], n)
    fl = []
    for i in range(n):
        ty, can, gen = r.choice(TYPES)
        if can is None:
            ty, can, gen = TYPES[0]
        k = r.random()
        f = Fld(names[i], ty, can, gen, bd=some_bound(r, 0.25), bf=some_bound(r, 0.2) if fs else None)
        if k < 0.12:
            f.with_ = "d"
        elif k < 0.2 and fs:
            f.with_ = "f"
        elif k < 0.32:
            f.opt = True
        elif k < 0.42 and ty != "String":
            f.fmt = r.choice([("<{}>", ["Display"]), ("{:x}!", ["LowerHex"]), ("[{:?}]", ["Debug"])])
        elif k < 0.47 and ty.startswith("crate::usr::G") and not fs:
            f.fmt = ("{0}", [])
        fl.append(f)
    uses = []
    for i, f in enumerate(fl):
        if r.random() < 0.2 or fs and f.bd is None and r.random() < 0.1:
            if fs:
                f.default = True
            f.bd = f.bf = None
            if f.opt or f.with_ or f.fmt:
                f.opt, f.with_, f.fmt = False, None, None
            if r.random() < 0.4 and f.ty.startswith("crate::usr::"):
                uses.append((i, "", "nested"))
            continue
        spec, tr = r.choice(TRAITS) if not f.opt and f.with_ is None and f.fmt is None and r.random() < 0.5 and f.ty != "String" else ("", "Display")
        if f.opt and r.random() < 0.4 and f.ty != "String":
            spec, tr = r.choice(TRAITS)
        uses.append((i, spec, tr))
        if not fs and r.random() < 0.2 and f.with_ is None and f.fmt is None and f.ty != "String":
            uses.append((i,) + r.choice(TRAITS))
    if r.random() < 0.5:
        r.shuffle(uses)
    return Body(fl, uses, named, ignore=enum and r.random() < 0.15, bd=some_bound(r, 0.25) if enum else None, bf=some_bound(r, 0.2) if enum and fs else None)


def pool(seed, n):
    r = random.Random(seed)
    out = []
    for k in range(n):
        fs = r.random() < 0.65
        enum = r.random() < 0.4
        bodies = [body(r, fs, enum) for _ in range(r.choice([1, 2, 3]) if enum else 1)]
        where = r.choice([None, None, ("U: Clone", ["U: std::clone::Clone"]), ("T: Copy, Vec<U>: Default", ["T: std::marker::Copy", "std::vec::Vec<U>: std::default::Default"])])
        out.append(Witness("B%d" % k, bodies, enum, some_bound(r, 0.3), some_bound(r, 0.25) if fs else None, fs, where))
    return out


def raw_pool():
    out = []
    for n, (ty, can, gen) in enumerate(RAW):
        for spec, tr in TRAITS:
            if ty in ("fn(T) -> u8", "*const U", "&'a T") and tr not in ("Debug",) and not (ty == "&'a T" and n % 3):
                pass
            for fs in (True, False) if tr == "Display" and not ty.startswith(("&", "*", "fn")) else (False,):
                for opt in (False, True):
                    out.append(Witness("", [Body([Fld("a", ty, can, gen, opt=opt), Fld("b", *TYPES[2])], [(0, spec, tr), (1, "", "Display")], True)], False, None, None, fs, None))
                f = Fld("a", ty, can, gen, fmt=("<{%s}>" % (":" + spec if spec else ""), [tr]))
                out.append(Witness("", [Body([Fld(None, *TYPES[0])], [(0, "", "Display")], False), Body([f], [(0, "", "Display")], True)], True, None, None, fs, None))
    return out


def actual(fact):
    return {re.sub(r"'_?\w+ ", lambda m: m.group(0), p) for p in fact["preds"]
            if not p.endswith(": std::marker::Sized") and not p.startswith("the constant")}


TR = {"Display": "std::fmt::Display", "FromStr": "std::str::FromStr", "FromStrRegex": "parse_display::FromStrRegex"}


def run(rep, pid, tier, seed):
    P.forget()
    ws = raw_pool() + pool(7, 260) + pool(1000 + seed, 240 if tier == "quick" else 3000)
    for i, w in enumerate(ws):
        w.name = "B%d" % i
    fails = []
    for _ in range(8):
        src, at, line = [HEAD], [], HEAD.count("\n") + 1
        for w in ws:
            t = w.rust() + "\n"
            at.append((line, line + t.count("\n") - 1))
            line += t.count("\n")
            src.append(t)
        d = P.crate(CR, "".join(src))
        ok, errs, raw = P.check(d, CR, [CR])
        if ok:
            break
        bad = {}
        for e in errs:
            for a, b in P.err_lines(e):
                for i, (x, y) in enumerate(at):
                    if x <= a <= y:
                        bad.setdefault(i, e["rendered"])
        if not bad:
            raise P.Broken("bound witnesses do not compile: " + (errs[0]["rendered"] if errs else raw)[:1500])
        for i, t in bad.items():
            rep.violation("compile: " + " ".join(ws[i].rust().split()).replace(ws[i].name, "T_")[:300],
                          "a generic type the documentation allows does not compile: the generated impl asks too little or too much:\n" + ws[i].rust() + "\n" + t[:900])
        ws = [w for i, w in enumerate(ws) if i not in bad]
    facts = json.load(open(P.facts(CR)))
    by = {}
    for i in facts["impls"]:
        m = re.match(CR + r"::(B\d+)<", i["self"])
        if m:
            by[(i["trf"].split("<")[0], m.group(1))] = i
    n = preds = 0
    samples = []
    for w in ws:
        for tr in ["Display"] + (["FromStr", "FromStrRegex"] if w.fs else []):
            f = by.get((TR[tr], w.name))
            if f is None:
                rep.violation(f"{tr} missing", f"no {tr} impl is generated for\n" + w.rust())
                continue
            got, want = actual(f), w.expected(tr)
            n += 1
            preds += len(want)
            if got != want:
                more, less = sorted(got - want), sorted(want - got)
                rep.violation(f"{tr}: extra {more} missing {less}: " + " ".join(w.rust().split()).replace(w.name, "T_")[:300],
                              f"impl {tr} at {f['sp']}:\n{w.rust()}\n  required but not needed: {more}\n  needed but not required: {less}")
            elif len(samples) < 4 and len(want) > 3 and n % 41 == 1:
                samples.append(dict(source=w.rust(), impl=tr, where=sorted(want)))
    rep.cov.update(programs=len(ws), disagreements_checked=n, predicates_compared=preds, samples=samples or [ws[0].rust()],
                   rule="the predicates rustc computes for each generated impl header (after name resolution) are compared, as a set, with the predicates the documented rule gives: "
                        "defaults per placeholder, bound(..) at type, variant and field level, `..`, the from_str override, the type's own bounds")
    rep.assume += ["rustc's predicates_of is the impl's where clause"]
    if n < 400:
        raise P.Broken("too few impls analysed")
