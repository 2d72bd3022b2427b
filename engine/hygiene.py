"""C15 / C16 / C17: the derives in unusual surroundings.  Witness types that mean something definite in an ordinary module are put into scopes that
shadow every name the expansion might rely on, into macro_rules bodies, under a renamed runtime crate, and into a no_std crate; they must compile
there and the generated code must still have the reference meaning."""
import copy
import random
import re

import curated
import gen
import matrix as X
import model as M
import pipeline as P

TOK = re.compile(r'r?"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)\'|(?:::\s*)?\b[A-Za-z_]\w*(?:\s*::\s*[A-Za-z_]\w*)*|.', re.S)
ABS = {"String": "::std::string::String", "Option": "::std::option::Option", "Vec": "::std::vec::Vec", "Box": "::std::boxed::Box", "Default": "::core::default::Default",
       "Result": "::core::result::Result", "Display": "::parse_display::Display", "FromStr": "::parse_display::FromStr", "std": "::std", "core": "::core", "Clone": "::core::clone::Clone",
       "Copy": "::core::marker::Copy", "Send": "::core::marker::Send", "Sync": "::core::marker::Sync"}


def absolute(src, ren=None, ab=ABS):
    """names written in full, so that the witness itself does not depend on the scope; `ren` renames single identifiers"""
    o = []
    for t in TOK.findall(src):
        if t[0] in "\"'" or t.startswith('r"'):
            o.append(t)
            continue
        if ren and t in ren:
            t = ren[t]
        elif t in ab:
            t = ab[t]
        elif "::" in t and not t.startswith("::"):
            h, r = t.split("::", 1)
            if ren and h in ren:
                t = ren[h] + "::" + r
            elif h in ab:
                t = ab[h] + "::" + r
        o.append(t)
    return "".join(o)


def full(w, ren=None):
    """Rust source of a witness with types, traits and derives written in full (names the witness itself introduces stay)"""
    w = copy.deepcopy(w)
    a = lambda x: absolute(x, ren)
    for at in [w.attrs] + [v.attrs for v in (w.body if w.enum else [w.body])]:
        for _, k in at:
            if "new" in k:
                x = k["new"]
                m = re.match(r"([\w:]+)(.*>)(\(.*)$", x.expr, re.S)
                k["new"] = M.New(x.fn, x.args, x.kind, m.group(1) + a(m.group(2)) + m.group(3) if m else x.expr)
            if "bound" in k:
                k["bound"] = [a(x) for x in k["bound"]]
    for v in (w.body if w.enum else [w.body]):
        for f in v.fields:
            f.ty = a(f.ty)
    w.generics, w.where, w.extra = a(w.generics), a(w.where), a(w.extra)
    w.derive = [ABS.get(d, "::core::fmt::Debug" if d == "Debug" else d) for d in w.derive]
    return M.rust(w)


# ---------------------------------------------------------------------------------------------- hostile scopes
TYPES = ("Option Result String Vec Box Default From Into TryFrom TryInto Iterator IntoIterator ToString ToOwned Clone Copy Send Sync Sized Drop Fn FnMut FnOnce AsRef AsMut Eq Ord "
         "PartialEq PartialOrd Extend Unpin DoubleEndedIterator ExactSizeIterator FromIterator Formatter Error Arguments Write Debug Display FromStr LowerHex UpperHex Octal Binary LowerExp "
         "UpperExp Pointer ParseError FromStrRegex DisplayFormat FromStrFormat IntoResult Parser Regex OnceLock LazyLock Once Captures Match RegexInfer OptionFormatHelper Formatted "
         "Infallible Cow Path Self_ T F E Err S P K V").split()
MACROS = ("format write writeln format_args panic vec debug_assert debug_assert_eq assert assert_eq matches unreachable todo unimplemented print println eprintln concat stringify "
          "line file env include_str try thread_local dbg cfg column module_path").split()
METHODS = ("into parse fmt write write_str to_string to_owned map map_err map_or map_or_else transpose unwrap unwrap_or unwrap_or_default expect ok ok_or ok_or_else ok_or_default "
           "and_then into_result from_str from_str_regex default new as_ref as_str get captures get_or_init to_ast to_regex parse_with borrow deref clone eq re_str").split()


def hostile(names=TYPES, values=True, traits=True, macros=True):
    o = ["    #![allow(dead_code, unused_macros, unused_imports, non_camel_case_types, non_upper_case_globals, non_snake_case)]"]
    if macros:
        o += [f"    macro_rules! {m} {{ ($($t:tt)*) => {{ compile_error!(\"{m}! of the user's scope\") }} }}" for m in MACROS if m != "try"]
        o += ["    macro_rules! r#try { ($($t:tt)*) => { compile_error!(\"try! of the user's scope\") } }"]
    for n in names:
        o.append(f"    pub mod in_{n} {{}} pub trait {n} {{}}")
    if values:
        o += ["    pub fn Ok<A>(_: A) -> u8 { 0 }  pub fn Err<A>(_: A) -> u8 { 0 }  pub fn Some<A>(_: A) -> u8 { 0 }  pub const None: u8 = 0;",
              "    pub fn drop() {}  pub fn write() {}  pub fn format() {}  pub fn parse() {}  pub fn fmt_pointer() {}  pub fn parse_with() {} pub const PARSER: u8 = 0; pub static REGEX: u8 = 1;"]
    for m in "std core alloc parse_display regex helpers fmt str string option result marker":
        pass
    o += [f"    pub mod {m} {{}}" for m in "std core alloc parse_display regex regex_syntax helpers fmt str string option result u8 char bool usize".split()]
    if traits:
        o.append("    pub trait Hostile {\n" + "\n".join(f"        fn {m}(&self) {{}}" for m in METHODS) + "\n    }")
        o.append("    impl<A: ?::core::marker::Sized> Hostile for A {}")
        by = "parse map_err map map_or transpose into ok_or_else and_then write_str unwrap_or_default".split()
        o.append("    pub trait HostileByValue {\n" + "\n".join(f"        fn {m}(self) where Self: ::core::marker::Sized {{}}" for m in by) + "\n    }")
        o.append("    impl<A> HostileByValue for A {}")
    return "\n".join(o) + "\n"


def sample(seed, nc, nr, derive=None, must=lambda w: False):
    """curated and random witnesses, deep copies"""
    r = random.Random(seed)
    cur = curated.pool()
    ws = r.sample(cur, min(nc, len(cur))) + gen.witnesses(seed * 31 + 5, nr)
    ws += [w for w in cur if must(w) and not any(w is x for x in ws)]
    ws = [copy.deepcopy(w) for w in ws]
    for i, w in enumerate(ws):
        w.name = "H%d" % i
        w.tags = ()
    return ws


# ---------------------------------------------------------------------------------------------- names
WORDS = ["s", "f", "c", "p", "re", "m", "e", "value", "field_value", "fmt", "write", "self_", "_formatter", "parse_variant", "r#type", "ss", "re_str", "format", "none_value", "helpers",
         "std", "core", "parse_display", "String", "Self_", "result", "default", "new", "_0", "_1", "_a", "__", "_field", "_self", "r#fn", "u8", "str",
         "value_1", "value_2", "empty", "key", "this", "regex", "Parser_"]
VWORDS = ["Ok", "Err", "Some", "None", "String", "Option", "Result", "Default", "Display", "FromStr", "Formatter", "ParseError", "Regex", "PARSER", "Self_", "T", "E", "F", "std", "fmt",
          "value", "s", "f", "c", "r#fn", "Parser", "Box", "Vec", "u8", "str", "from_str", "default", "write", "new", "empty"]
TNAMES = ["Option", "String", "Result", "Formatter", "ParseError", "Some", "Ok", "None", "Err", "Default", "Display", "FromStr", "FromStrRegex", "Regex", "Parser", "Vec", "Box", "OnceLock",
          "Fn", "Captures", "Match", "Error", "Arguments", "IntoResult", "DisplayFormat", "FromStrFormat", "OptionFormatHelper", "RegexInfer", "ToString", "Into", "Iterator", "PARSER",
          "Write", "Debug", "helpers", "std", "core", "fmt", "f", "value", "T2", "parse_display"]
PNAMES = ["F", "E", "Err", "R", "String", "Option", "Result", "Formatter", "Parser", "Regex", "Display", "FromStr", "ParseError", "Default", "Ok", "Some", "Fn", "OnceLock", "Output", "A", "Self_",
          "PARSER", "S", "K", "V"]


def named(seed, n):
    sav = gen.NAMES, gen.VNAMES
    gen.NAMES, gen.VNAMES = WORDS, VWORDS
    try:
        ws = gen.witnesses(seed, n)
    finally:
        gen.NAMES, gen.VNAMES = sav
    return ws


# ---------------------------------------------------------------------------------------------- macro_rules
class Macro:
    """prints a witness as a macro_rules definition and its call, some pieces coming from the call"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def show(self, w):
        r = self.r
        w2 = copy.deepcopy(w)
        params = []
        allnew = any("new" in k for v in ([w2] + (w2.body if w2.enum else [w2.body])) for _, k in v.attrs)
        whole = r.random() < 0.5

        def hole(text, frags):
            if re.search(r"\$p\d", text):    # pieces may be shared between fields
                return text
            i = len(params)
            params.append((f"p{i}_", r.choice(frags), text))
            return f"$p{i}_"

        def lits(attrs):
            for _, k in attrs:
                for n in list(k):
                    if n in ("with",) and r.random() < 0.6:
                        e = k[n].expr
                        k[n] = M.With(hole(e, ["expr"] if "(" in e else ["expr", "path"]), k[n].ty)
                    if n == "new" and whole:
                        x = k[n]
                        k[n] = M.New(x.fn, x.args, x.kind, hole(x.expr, ["expr"]))
        own = not allnew or whole
        tupnew = allnew and any(f.name is None for v in (w2.body if w2.enum else [w2.body]) for f in v.fields)
        if tupnew:
            whole = False
            own = False
        lits(w2.attrs)
        name = w2.name
        if r.random() < 0.5:
            w2.name = hole(name, ["ident"])
        for v in (w2.body if w2.enum else [w2.body]):
            lits(v.attrs)
            if w2.enum and r.random() < 0.4:
                v.name = hole(v.name, ["ident"])
            for f in v.fields:
                lits(f.attrs)
                if f.name is not None and own and (allnew or r.random() < 0.5):
                    f.name = hole(f.name, ["ident"])
                if f.ty.startswith("Option<") and r.random() < 0.5:
                    f.ty = "Option<" + hole(f.ty[7:-1], ["ty"]) + ">"
                elif r.random() < 0.6 or f.ty.lstrip("(").startswith("&"):
                    f.ty = hole(f.ty, ["ty"] + (["path"] if re.match(r"[\w:]+$", f.ty) else []))
        extra, w2.extra = w2.extra, ""
        src = M.rust(w2)
        # string literals and whole attributes
        out = []
        for line in src.split("\n"):
            def one(m):
                if r.random() < 0.25 and "$" not in m.group(0) and "derive(" not in m.group(0) and "new = " not in m.group(0):
                    return "#[" + hole(m.group(1), ["meta"]) + "]"
                return re.sub(r'"(?:[^"\\]|\\.)*"', lambda s: hole(s.group(0), ["literal", "tt"]) if r.random() < 0.4 else s.group(0), m.group(0)) if "$" in m.group(0) or r.random() < 0.6 else m.group(0)
            out.append(re.sub(r'#\[((?:[^\]"]|"(?:[^"\\]|\\.)*")*)\]', one, line))
        body = "\n".join(out)
        if not params:
            return M.rust(w)
        pats = ", ".join(f"${n}:{k}" for n, k, _ in params)
        args = ", ".join(t for _, _, t in params)
        o = f"macro_rules! mk{name} {{ ({pats}) => {{\n{body}\n}} }}\nmk{name}! {{ {args} }}"
        return o + ("\n" + extra.replace("@", name) if extra else "")


# ---------------------------------------------------------------------------------------------- running
def scope(rep, label, crate, ws, head, show, tail="", prefix=None, edition="2024", dep=None, pid="C15", extra="", only=None, stats=None, known=lambda f: False):
    n0 = len(ws)
    ws, fails = X.compile(crate, ws, head=head, show=show, tail=tail, edition=edition, dep=dep, extra=extra)
    for f in fails:
        rep.violation(f"{label}: compile: " + sig(f.w), f"{label}: a type that is fine in an ordinary module does not compile here:\n" + show(f.w) + "\n" + (f.text or "")[:900])
    if len(fails) * 2 > n0:
        raise P.Broken(f"{label}: {len(fails)} of {n0} witnesses do not compile: " + (fails[0].text or "")[:1500])
    res, prog = X.analyse(crate, ws, prefix=prefix, only=only)
    und = 0
    paths = 0
    for r in res:
        paths += r.stats.get("paths", 0) or 1
        if r.undecided:
            und += 1
            rep.undecided.append(f"{label}: {r.w.name} {r.impl}: {r.undecided}")
        for f in r.findings:
            rep.violation(f"{label}: {r.impl} of {sig(r.w)}: {f.what}"[:400], f"{label}: generated {r.impl} of\n{show(r.w)}\n  {f.what}\n  at {f.sp} in {f.fn}")
    if und > max(4, len(res) // 40) and not rep.viol:
        raise P.Broken(f"{label}: {und} of {len(res)} impls could not be decided: " + rep.undecided[-1])
    stats.append(dict(scope=label, edition=edition, programs=len(ws), impls=len(res), paths=paths))
    return res, prog


def sig(w):
    return " ".join(M.rust(w).split())[:220].replace(w.name, "T")


ALLOW = "#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, non_upper_case_globals, uncommon_codepoints, mixed_script_confusables, confusable_idents)]\n"


def usr(ab=False):
    return M.USR


def prep(ws):
    for i, w in enumerate(ws):
        w.name = "H%d" % i
        w.tags = ()
    return ws


def run_c15(rep, pid, tier, seed):
    P.forget()
    big = tier == "thorough"
    st = []
    samples = []
    k = 4 if big else 1
    # 1. everything shadowed
    ws = sample(seed + 11, 160 * k, 80 * k)
    head = "#![allow(warnings)]\n" + usr() + "pub mod h {\n" + hostile()
    scope(rep, "a module shadowing the prelude", "hygs", ws, head, full, "}\n", "hygs::h", stats=st)
    samples.append(dict(scope="shadowing module", names=TYPES[:12], macros=MACROS[:8], methods=METHODS[:8], source=full(ws[0])))
    # 2. no prelude at all
    ws = sample(seed + 12, 110 * k, 50 * k)
    head = "#![allow(warnings)]\n" + usr() + "pub mod h {\n    #![no_implicit_prelude]\n"
    scope(rep, "#![no_implicit_prelude], edition 2018", "hygn", ws, head, full, "}\n", "hygn::h", edition="2018", stats=st)
    # 3. no warnings, no unsafe code
    # (default_fields is documented as deprecated, with a warning)
    ws = prep([w for w in sample(seed + 13, 160 * k, 80 * k) if "default_fields" not in M.rust(w)])
    head = "#![deny(warnings)]\n#![forbid(unsafe_code)]\n" + ALLOW + usr() + "use parse_display::{Display, FromStr};\n"
    scope(rep, "#![deny(warnings)] #![forbid(unsafe_code)], edition 2021", "hygw", ws, head, M.rust, edition="2021", stats=st)
    # 4. words of the expansion as names
    ws = prep(named(seed + 14, 160 * k))
    ren = {}
    for i, w in enumerate(ws):
        ren[id(w)] = {"T": PNAMES[i % len(PNAMES)]}
    head = "#![allow(warnings)]\n" + usr()
    # (a shadowed `Display` in scope does not matter: everything is written in full)
    scope(rep, "fields, variants and type parameters named like words of the expansion", "hygf", ws, head, lambda w: full(w, ren[id(w)]), stats=st)
    # 5. the deriving types themselves
    ws = prep(named(seed + 15, len(TNAMES)))
    for w, n in zip(ws, TNAMES):
        w.name = n
        if n[0].islower() and not w.enum:
            w.name = "N_" + n
    scope(rep, "types named like words of the expansion", "hygt", ws, "#![allow(warnings)]\n" + usr(),
          lambda w: "pub mod in_%s {\n%s\n}" % (w.name, full(w)), "", lambda w: "hygt::in_" + w.name, edition="2021", stats=st)
    # 6. items written by macro_rules
    ws = sample(seed + 16, 160 * k, 120 * k, must=lambda w: any(f.ty.lstrip("(").startswith(("&", "Option<")) for v in (w.body if w.enum else [w.body]) for f in v.fields))
    texts = {}
    mac = Macro(seed + 16)
    for w in ws:
        texts[id(w)] = mac.show(w)
    scope(rep, "items produced by macro_rules", "hygm", ws, "#![allow(warnings)]\nuse parse_display::{Display, FromStr};\n" + usr(), lambda w: texts[id(w)], edition="2021", stats=st)
    samples.append(dict(scope="macro_rules", source=texts[id(ws[3])]))
    # 7. edition 2015
    ws = sample(seed + 17, 60 * k, 30 * k)
    scope(rep, "edition 2015", "hyge", ws, "#![allow(warnings)]\nextern crate parse_display;\nuse parse_display::{Display, FromStr};\n" + usr(), M.rust, edition="2015", stats=st)
    rep.cov.update(programs=sum(x["programs"] for x in st), disagreements_checked=sum(x["paths"] for x in st), scopes=st, samples=samples,
                   rule="witness types with all names written in full are compiled in scopes where every name the expansion could rely on means something else, and the generated "
                        "impls are compared with the reference meaning as for the other properties (any disagreement, or any compile error, is reported)")
    rep.assume += ["the listed names are the ones generated code could rely on; a by-value blanket trait method named get, captures, get_or_init or as_str is not covered"]



# ---------------------------------------------------------------------------------------------- C16
def with_crate(w, path, r):
    """the same witness with #[display(crate = path)], in its own attribute or joined to an existing one"""
    w = copy.deepcopy(w)
    at = [a for a in w.attrs if a[0] == "display"]
    if at and r.random() < 0.5:
        at[-1][1]["crate"] = path
    else:
        w.attrs.insert(r.randrange(len(w.attrs) + 1), ("display", {"crate": path}))
    return w


def run_c16(rep, pid, tier, seed):
    P.forget()
    st = []
    k = 4 if tier == "thorough" else 1
    r = random.Random(seed)
    dep = f'pd = {{ package = "parse-display", path = "{P.REPO}/parse-display" }}\n'
    usr_ = M.USR.replace("use parse_display::", "use pd::")
    der = "use pd::{Display, FromStr};\n"
    rt = "pub mod rt { pub mod inner { pub use pd as runtime; } pub use self::inner::runtime as r#type; }\nmod parse_display {}\n"
    samples = []
    for j, (label, crate, path, edition, n) in enumerate((("#[display(crate = pd)]", "crp", "pd", "2021", 3), ("#[display(crate = ::pd)], edition 2018", "crq", "::pd", "2018", 1),
                                           ("#[display(crate = crate::rt::inner::runtime)]", "crr", "crate::rt::inner::runtime", "2024", 3),
                                           ("#[display(crate = crate::rt::r#type)]", "crs", "crate::rt::r#type", "2021", 1))):
        ws = sample(seed * 7 + j, 110 * n * k, 40 * n * k)
        ws = prep([with_crate(w, path, r) for w in ws])
        scope(rep, label, crate, ws, "#![allow(warnings)]\n" + usr_ + rt + der, M.rust, edition=edition, dep=dep, stats=st, pid=pid)
        samples.append(dict(scope=label, source=M.rust(ws[0])))
    # $crate, from a macro
    ws = prep([with_crate(w, "$crate::rt::inner::runtime", r) for w in sample(seed * 7 + 99, 60 * k, 30 * k)])
    scope(rep, "#[display(crate = $crate::..)] in a macro_rules macro", "crm", ws, "#![allow(warnings)]\n" + usr_ + rt + der,
          lambda w: "macro_rules! mk%s { () => { %s } }\nmk%s!{}" % (w.name, M.rust(w), w.name), dep=dep, stats=st, pid=pid)
    rep.cov.update(programs=sum(x["programs"] for x in st), disagreements_checked=sum(x["paths"] for x in st), scopes=st, samples=samples,
                   rule="witness types are compiled in crates that have the runtime only as `pd` (no crate or module reachable as ::parse_display), through #[display(crate = path)] with "
                        "plain, absolute, nested, raw and $crate paths; every reference must resolve, and the generated impls must have the reference meaning")


# ---------------------------------------------------------------------------------------------- C17
USR_NOSTD = """
pub mod usr {
    use parse_display::DisplayFormat;
""" + M.USR[M.USR.index("    #[derive(Default, Clone, Debug)]"):M.USR.index("        impl<T> FromStrFormat<T>")] + """
    )* } }
""" + re.sub(r".*FromStr.*\n", "", M.USR[M.USR.index("    fmts!("):]).replace(", String>", ", u8>")


def nostd_display(w):
    """the Display half of a witness, if its types exist in core"""
    w = copy.deepcopy(w)
    vs = w.body if w.enum else [w.body]
    seen = set()
    for at in [w.attrs] + [v.attrs for v in vs] + [f.attrs for v in vs for f in v.fields]:
        if id(at) not in seen:
            seen.add(id(at))
            at[:] = [a for a in at if a[0] == "display"]
    for v in vs:
        for f in v.fields:
            f.ty = re.sub(r"(?<![\w:])String\b", "&'static str", f.ty)
    w.derive = tuple(d for d in w.derive if d in ("Display", "Debug"))
    t = M.rust(w)
    if "Display" not in w.derive or re.search(r"\b(Box|Vec|Rc|String|std|alloc)\b", re.sub(r'"(?:[^"\\]|\\.)*"', "", t)) or w.extra:
        return None
    return w


def nostd_fromstr(w):
    """a witness whose FromStr compares whole strings only"""
    if "FromStr" not in w.derive or w.extra:
        return None
    vs = w.body if w.enum else [w.body]
    for v in vs:
        if w.enum and M.fromstr_attrs(v.attrs).get("ignore"):
            continue
        try:
            if M.fromstr_ref(w, v).literal is None:
                return None
        except Exception:
            return None
    w = copy.deepcopy(w)
    for v in (w.body if w.enum else [w.body]):
        for at in [v.attrs] + [f.attrs for f in v.fields]:
            for a in at:
                if "new" in a[1]:
                    return None
        for f in v.fields:
            f.ty = re.sub(r"(?<![\w:])String\b", "&'static str", f.ty)
    t = re.sub(r'"(?:[^"\\]|\\.)*"', "", M.rust(w))
    if re.search(r"\b(Box|Vec|Rc|String|std|alloc|usr::N|with|regex\w*)\b", t):
        return None
    return w


def literal_enums(seed, n):
    """enums (and structs) without placeholders: every style, literal formats, defaults, ignored variants"""
    r = random.Random(seed)
    g = gen.Gen(seed)
    out = []
    while len(out) < n:
        vs = []
        names = r.sample(gen.VNAMES, r.choice([1, 2, 3, 5, 8]))
        for nm in names:
            at, fl = [], []
            if r.random() < 0.3:
                at.append(M.D(style=r.choice(gen.STYLES)))
            if r.random() < 0.35:
                at.append(M.D(r.choice([g.lit(), g.lit() + "{}", "{}" + g.lit(), "{}{}"])))
            if r.random() < 0.25:
                nf = r.choice([1, 2])
                named_ = r.random() < 0.5
                fl = [M.F("ab"[i] if named_ else None, r.choice(["u8", "bool", "char", "Option<u8>"]), M.S(default=True)) for i in range(nf)]
                if not any("fmt" in a[1] for a in at):
                    at.append(M.D(g.lit() + nm))
            if r.random() < 0.15:
                at.append(M.S(ignore=True))
            vs.append(M.Var(nm, fl, at))
        at = [M.D(style=r.choice(gen.STYLES))] if r.random() < 0.7 else []
        if r.random() < 0.2:
            at.append(M.D(g.lit() + "{}"))
        w = M.W(vs, at) if r.random() < 0.85 else M.W(M.Var("S", [], kind=r.choice(["unit", "tuple", "named"])), [M.D(g.lit())])
        try:
            if g.valid(w) and nostd_fromstr(w) is not None:
                out.append(w)
        except (ValueError, AssertionError):
            pass
    return out


def linked(rep, crate, label, prog):
    names = [c for c, k in prog.crates if "Macros" not in k]
    for c in names:
        if c in ("std", "alloc", "regex", "regex_syntax", "regex_automata", "test", "proc_macro"):
            rep.violation(f"{label}: {c} is linked", f"{label}: the program without std links crate `{c}` (all crates: {', '.join(names)})")
    return names


def run_c17(rep, pid, tier, seed):
    P.forget()
    st = []
    k = 4 if tier == "thorough" else 1
    pool = curated.pool() + gen.witnesses(seed * 13 + 1, 500 * k)
    disp = prep([x for x in map(nostd_display, pool) if x])
    fs = prep([copy.deepcopy(w) for w in literal_enums(seed * 13 + 2, 200 * k)] + [x for x in map(nostd_fromstr, pool) if x])
    tg = P.TGT + "-nostd"
    P.forget(tg)
    samples = []
    links = {}
    for label, crate, ws, both in (("Display without std", "nstd", disp, False), ("string-only FromStr without std", "nstf", fs, True)):
        head = "#![no_std]\n#![allow(warnings)]\nuse parse_display::{Display, FromStr};\n" + USR_NOSTD
        # parse-display-with is a dependency too: its no-std build must not bring std in either
        head += "pub fn uses_with(d: &'static str) -> impl parse_display::DisplayFormat<[u8]> { parse_display_with::formats::delimiter::<u8>(d) }\n"
        try:
            res, prog = scope(rep, label, crate, ws, head, M.rust, dep=P.deps(std=False), stats=st, pid=pid, only=("Display", "FromStr") if both else ("Display",))
        except P.RepoBroken as x:
            # does it build with std?
            ok, errs, raw = P.check(P.crate("nsok", "pub use parse_display::ParseError;\n"), "nsok")
            rep.violation(f"{label}: the runtime does not build", f"{label}: with default features off the workspace's crates do not compile (with std they do):\n{x}")
            continue
        links[crate] = linked(rep, crate, label, prog)
        samples.append(dict(scope=label, crates_linked=links[crate], source=M.rust(ws[len(ws) // 2])))
        for i in prog.impls:
            if i["trf"].startswith("parse_display::FromStrRegex") and i["self"].startswith(crate + "::H"):
                rep.violation(f"{label}: FromStrRegex impl", f"{label}: an impl of FromStrRegex (a std-only trait) is generated at {i['sp']}")
                break
    rep.cov.update(programs=sum(x["programs"] for x in st), disagreements_checked=sum(x["paths"] for x in st), scopes=st, samples=samples,
                   rule="witness types are compiled in #![no_std] crates against the workspace's crates with default features off; the crates rustc loads must be core and the "
                        "workspace's own only (so nothing can allocate), and the generated impls must have the reference meaning")
    rep.assume += ["a program that loads neither std nor alloc does not allocate"]
