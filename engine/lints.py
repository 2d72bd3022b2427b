"""C32: the derives add no warning.  Every witness is compiled twice with the same source: once with the real derives, once with stand-ins of the same names that
expand to nothing.  Every lint rustc reports with the real derives must also be reported, at the same place, without them.  rustc's lint passes over the expanded,
type-checked program decide; nothing runs."""
import copy
import json
import os
import random

import curated
import focus
import gen
import hygiene
import matrix as X
import model as M
import pipeline as P

STUB = '''extern crate proc_macro;
use proc_macro::TokenStream;
#[proc_macro_derive(Display, attributes(display, from_str))]
pub fn derive_display(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(FromStr, attributes(display, from_str))]
pub fn derive_from_str(_: TokenStream) -> TokenStream { TokenStream::new() }
'''
LINTS = ("unused, nonstandard_style, future_incompatible, rust_2018_idioms, keyword_idents, let_underscore, missing_docs, unsafe_code, unreachable_pub, missing_debug_implementations, "
         "missing_copy_implementations, trivial_casts, trivial_numeric_casts, non_ascii_idents, unused_lifetimes, unused_results, unused_import_braces, unit_bindings, redundant_lifetimes")
FORBID = ("unused, nonstandard_style, future_incompatible, rust_2018_idioms, keyword_idents, let_underscore, unsafe_code, trivial_casts, trivial_numeric_casts, unused_lifetimes, "
          "unused_results, unused_import_braces, unit_bindings, redundant_lifetimes, deprecated, clippy::all, clippy::pedantic")
USERS = {"missing_docs", "unreachable_pub", "missing_debug_implementations", "missing_copy_implementations"}
HEAD = ("#![warn(%s)]\nuse %s::{Display, FromStr};\n#[allow(warnings)] mod ud {\n" + M.USR + "\n}\npub use ud::usr;\n")
# items whose every part invites a lint
EXTRA = [
    '#[derive(Display, FromStr)] #[display("{Ab}-{b}")] #[from_str(new = Self::mk(Ab, b))] pub struct @ { #[allow(non_snake_case)] pub Ab: u8, pub b: u8 } impl @ { #[allow(non_snake_case)] pub fn mk(Ab: u8, b: u8) -> Self { Self { Ab, b } } }',
    '#[derive(Display, FromStr)] #[display("{0}")] pub enum @ { #[allow(non_camel_case_types)] a_b(u8) }',
    '#[derive(Display, FromStr)] pub enum @ {}',
    '#[derive(Display, FromStr)] pub enum In@ {} #[derive(Display, FromStr)] #[display("{0}")] pub struct @(pub In@);',
    '#[derive(Display, FromStr)] pub enum In@ {} #[derive(Display, FromStr)] pub enum @ { #[display("<{0}>")] A(In@), #[display("{0}{1}")] C(u8, In@), B }',
    '#[derive(Display, FromStr)] pub enum @ { A, #[display("A")] B, #[display("[A]")] C, #[from_str(regex = "A")] D }',
    '#[derive(Display, FromStr)] pub enum @ { A, #[from_str(ignore)] B, #[from_str(ignore)] C(std::cell::Cell<u8>), #[display("x")] D(#[from_str(default)] u8) }'.replace("C(std::cell::Cell<u8>)", '#[display("c")] C(std::cell::Cell<u8>)'),
    '#[derive(Display, FromStr)] #[display("{a}")] #[must_use] #[non_exhaustive] pub struct @ { pub a: u8 }',
    '#[derive(Display, FromStr)] #[display("{a}")] #[from_str(default)] pub struct @ { pub a: u8, b: u8 } impl Default for @ { fn default() -> Self { @ { a: 1, b: 2 } } } impl @ { pub fn b(&self) -> u8 { self.b } }',
    'mod m@ { #[derive(parse_display::Display, parse_display::FromStr)] #[display("{a}")] pub(super) struct @ { pub(super) a: u8 } } pub fn f@(x: u8) -> u8 { m@::@ { a: x }.a }',
    '#[derive(Display)] #[display("{a}")] pub struct @<\'a, T: ?Sized> { pub a: &\'a T }',
    '#[derive(Display, FromStr)] #[display("{a}")] pub struct @<T, const N: usize> where T: Default { pub a: u8, #[from_str(default)] pub b: T }'.replace("pub a: u8, #[from_str(default)] pub b: T", "pub a: T"),
    '#[derive(Display, FromStr)] #[display("{r#type}{r#match:>4}")] pub struct @ { pub r#type: u8, pub r#match: u8 }',
    '#[derive(Display, FromStr)] #[display("{a}", bound())] pub struct @ { pub a: u8 }',
    'pub fn f@() -> u8 { #[derive(Display, FromStr)] #[display("{a}")] struct @ { a: u8 } let v: @ = @ { a: 1 }; v.a }',
    'pub const C@: u8 = { #[derive(Display, FromStr)] #[display("{a}")] struct @ { a: u8 } @ { a: 1 }.a };',
    'macro_rules! m@ { ($n:ident, $t:ty, $f:literal, $i:ident) => { #[derive(Display, FromStr)] #[display($f)] pub struct $n { pub $i: $t } } } m@!(@, u8, "<{a}>", a);',
    '#[derive(Display, FromStr)] #[display("{a}{b}")] pub struct @ { #[display(opt, "[{0}]")] pub a: Option<u8>, #[display(opt)] pub b: Option<u16> }'.replace("[{0}]", "[{}]"),
    '#[derive(FromStr)] #[from_str(regex = r"(?<a>\\d+) (?<b>.*)")] pub struct @ { pub a: u8, pub b: String }',
    '#[derive(Display, FromStr)] #[display(style = "snake_case")] pub enum @ { OneTwo, #[display("{}{0}")] Three(u8), #[display("{x}")] Four { x: u8 } }',
]


def fields(v, pub, dep):
    p = dep + ("pub " if pub else "")
    fs = [" ".join([M.attr(a) for a in f.attrs] + [p + (f"{f.name}: " if f.name else "") + f.ty]) for f in v.fields]
    return "" if v.kind == "unit" else " { " + ", ".join(fs) + " }" if v.kind == "named" else "(" + ", ".join(fs) + ")"


def marked(mark, inner=True):
    """the witness with an attribute on the item and on everything inside it"""
    def show(w):
        k = mark + " " if inner else ""
        o = [mark]
        if w.derive:
            o.append("#[derive(" + ", ".join(w.derive) + ")]")
        o += [M.attr(a) for a in w.attrs]
        if w.enum:
            o.append(f"pub enum {w.name}{w.generics} {w.where}{{")
            for v in w.body:
                o += ["    " + M.attr(a) for a in v.attrs]
                o.append("    " + k + v.name + fields(v, False, k) + ",")
            o.append("}")
        else:
            b = fields(w.body, True, k)
            o.append(f"pub struct {w.name}{w.generics} {w.where}{b}" if w.body.kind == "named" else f"pub struct {w.name}{w.generics}{b} {w.where};")
        if w.extra:
            o.append("mod x_%s { #![allow(deprecated)] use super::*; %s }" % (w.name, w.extra.replace("@", w.name)) if mark.startswith("#[deprecated") else w.extra.replace("@", w.name))
        return "\n".join(o)
    return show


class Raw:
    """an item given as text"""
    def __init__(self, src):
        self.src, self.name, self.generics = src, "", ""


def show_of(f):
    return lambda w: w.src.replace("@", w.name) if isinstance(w, Raw) else f(w)


def local(w):
    return "pub fn in_%s() {\n%s\n}" % (w.name.lower(), M.rust(w))


def messages(d, name):
    """(compiles, [(level, lint, text, [(line, col, end line, end col)], rendered)])"""
    r = P.sh(["cargo", P.NIGHTLY, "check", "--offline", "--target-dir", P.TGT, "--message-format=json"], cwd=d, env=P.env((), os.path.join(P.WORK, "out")))
    ms, other = [], []
    for l in r.stdout.split("\n"):
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message":
            continue
        if m["target"]["name"].replace("-", "_") != name:
            if m["message"]["level"].startswith("error"):
                other.append(m["message"])
            continue
        m = m["message"]
        sp = sorted({(s["line_start"], s["column_start"], s["line_end"], s["column_end"]) for s in m["spans"] if s["is_primary"]})
        ms.append((m["level"], (m["code"] or {}).get("code"), m["message"], tuple(sp), m["rendered"], m))
    if other:
        raise P.RepoBroken("the repository does not compile: " + other[0].get("rendered", "")[:1500])
    if r.returncode and not any(x[0].startswith("error") for x in ms):
        raise P.Broken("cargo: " + r.stderr[-2500:])
    return r.returncode == 0, ms


def inattr(lines, sp):
    """the place is inside a helper attribute: what the user wrote there"""
    a, b, c, d = sp
    if a != c or a > len(lines):
        return False
    l = lines[a - 1]
    for i in range(min(b - 1, len(l)), -1, -1):
        if l.startswith(("#[display(", "#[from_str("), i):
            dep = 0
            q = False
            for j in range(i, len(l)):
                ch = l[j]
                if ch == '"' and l[j - 1] != "\\":
                    q = not q
                if not q:
                    dep += ch in "([{"
                    dep -= ch in ")]}"
                    if not dep and j > i + 1:
                        return i < b - 1 <= j
            return True
    return False


def forbidden(rep, name, ws, show, edition, stats):
    """items without any lint of their own, in a crate that forbids the lints: the expansion must neither raise one nor try to allow one"""
    ws = [w for w in ws if not isinstance(w, Raw) and "#[allow" not in show(w)]
    ucrate = P.crate("pdusr", "#![allow(warnings)]\n" + M.USR, edition="2021")
    dep = P.deps() + f'pdusr = {{ path = "{ucrate}" }}\n'
    src, at = X.layout(ws, "#![forbid(%s)]\n#![allow(dead_code, incomplete_features)]\nuse parse_display::{Display, FromStr};\npub use pdusr::usr;\n" % FORBID.replace("unused,", "unused_variables, unused_mut, unused_assignments, unused_must_use, unused_imports, unused_parens, unused_braces, unreachable_code, unreachable_patterns, unused_unsafe, unused_attributes, unused_doc_comments, path_statements,"), show)
    ok, ms = messages(P.crate(name, src, dep=dep, edition=edition), name)
    hit = 0
    for lv, lint, text, sp, rendered, m in ms:
        if not lv.startswith("error") or lint is None or (lint.startswith("E") and lint != "E0453"):
            continue
        for a, b in P.err_lines(m):
            for i, (x, y) in enumerate(at):
                if x <= a <= y:
                    if lint in ("deprecated", "unused_qualifications") and sp and all(inattr(src.split("\n"), s) for s in sp):
                        continue
                    hit += 1
                    rep.violation(f"{lint} on {describe(ws[i])} (forbidden lints)", f"in a crate that forbids lints, which this item does not raise by itself, the derive makes rustc refuse it:\n{rendered.strip()}\nfor\n{show(ws[i])}")
    if not ok and not hit:
        rep.undecided.append("forbidden lints: " + next((m[4] for m in ms if m[0].startswith("error")), "?")[:400])
    stats.append(dict(scope="lints forbidden", programs=len(ws), refused=hit))


def compare(rep, label, name, ws, show, edition, stats, forbid=False):
    stub = P.crate("pdnone", STUB, dep="", sub="wit")
    t = open(os.path.join(stub, "Cargo.toml")).read()
    if "proc-macro" not in t:
        open(os.path.join(stub, "Cargo.toml"), "w").write(t.replace("[lib]\n", "[lib]\nproc-macro = true\n"))
    dep = P.deps() + f'pdnone = {{ path = "{stub}" }}\n'
    ws = list(ws)
    dropped = 0
    for _ in range(8):
        res = []
        for which, c in (("pdnone", name + "n"), ("parse_display", name)):
            src, at = X.layout(ws, HEAD % (LINTS, which), show)
            ok, ms = messages(P.crate(c, src, dep=dep, edition=edition), c)
            res.append((ok, ms, src))
        bad = set()
        for ok, ms, src in res:
            for m in ms:
                if m[0].startswith("error"):
                    for a, b in P.err_lines(m[5]):
                        bad |= {i for i, (x, y) in enumerate(at) if x <= a <= y}
        if all(r[0] for r in res):
            break
        if not bad:
            raise P.Broken("witnesses do not compile: " + next(m[4] for r in res for m in r[1] if m[0].startswith("error"))[:1500])
        dropped += len(bad)
        ws = [w for i, w in enumerate(ws) if i not in bad]
        if not ws:
            rep.undecided.append(label + ": no witness compiles")
            return
    (_, base, _), (_, real, src) = res
    lines = src.split("\n")
    known = {m[1:4] for m in base}
    # where the lint was reported already, other words about the same place add something all the same: the text is part of the key
    n = 0
    for lv, lint, text, sp, rendered, m in real:
        if lint is None or (lint, text, sp) in known:
            continue
        if lint in ("deprecated", "unused_qualifications") and sp and all(inattr(lines, s) for s in sp):
            continue
        i = next((i for i, (x, y) in enumerate(at) if sp and x <= sp[0][0] <= y), None)
        w = ws[i] if i is not None else None
        rep.violation(f"{lint} on {describe(w) if w is not None else 'the crate'} ({label})",
                      f"rustc reports this with the derives and not without them:\n{rendered.strip()}\nfor\n{show(w) if w is not None else ''}")
        n += 1
    if forbid:
        forbidden(rep, name + "b", [w for i, w in enumerate(ws) if not any(m[1] and m[1] not in USERS and any(at[i][0] <= s[0] <= at[i][1] for s in m[3]) for m in base + real)], show, edition, stats)
    stats.append(dict(scope=label, programs=len(ws), not_compiling=dropped, lints_without=len(base), lints_with=len(real)))


def describe(w):
    return hygiene.describe(w) if hasattr(hygiene, "describe") and not isinstance(w, Raw) else (w.src if isinstance(w, Raw) else M.rust(w))[:120].replace("\n", " ")


def run(rep, pid, tier, seed):
    P.forget()
    k = 6 if tier == "thorough" else 1
    r = random.Random(seed)
    cur = curated.pool()
    st = []
    for i, (label, name, part, show, ed) in enumerate((
            ("edition 2024", "lnt", (None, 150 * k, 150 * k), M.rust, "2024"), ("edition 2018", "lnu", (150 * k, 60 * k, 60 * k), M.rust, "2018"),
            ("#[deprecated] everywhere", "lnd", (250 * k, 80 * k, 80 * k), marked("#[deprecated]"), "2021"),
            ("#[deprecated] type", "lne", (80 * k, 40 * k, 40 * k), marked("#[deprecated]", False), "2021"),
            ("#[must_use] type", "lnm", (60 * k, 30 * k, 30 * k), marked("#[must_use]", False), "2024"),
            ("inside a function", "lnf", (150 * k, 50 * k, 50 * k), local, "2021"),
            ("documented", "lno", (60 * k, 30 * k, 30 * k), marked("#[doc = \"x\"]"), "2024"))):
        a, b, c = part
        ws = list(cur) if a is None else r.sample(cur, min(a, len(cur)))
        ws = [copy.deepcopy(w) for w in ws]
        ws += gen.witnesses(seed * 31 + i, b) + focus.pool("C01", seed * 31 + i, c)
        if i < 2:
            ws += [Raw(x) for x in EXTRA]
        for j, w in enumerate(ws):
            w.name = "R%d" % j
        compare(rep, label, name, ws, show_of(show), ed, st, i == 0)
    rep.cov.update(programs=sum(x["programs"] for x in st), scopes=st,
                   rule="every witness is compiled with the real derives and with derives that expand to nothing; every rustc lint (" + LINTS + ", and all that warn by default) "
                        "reported with the real derives must be reported at the same place without them")
    rep.assume += ["a path the user writes inside a helper attribute may be linted as the user's own", "default_fields is deprecated on purpose", "rustc's lints"]
