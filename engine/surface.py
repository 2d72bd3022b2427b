"""C33: what a derive adds to the user's crate.  For every witness the compiler's own tables are read: all impls and items that the expansion of #[derive(Display)] or
#[derive(FromStr)] defines, and for which types.  Only the documented trait impls may be there, each exactly once and for the whole type."""
import collections
import copy
import json
import random

import curated
import focus
import gen
import matrix as X
import model as M
import pipeline as P

DOC = {"Display": [("std::fmt::Display", ())], "FromStr": [("std::str::FromStr", (("Err", "parse_display::ParseError"),)), ("parse_display::FromStrRegex", ())]}
GENERIC = [
    ('Display, FromStr', '#[display("{a}")] pub struct @<\'a, T: Default, const N: usize> { pub a: u8, #[from_str(default)] pub b: std::marker::PhantomData<&\'a [T; N]> }'),
    ('Display', '#[display("{a}")] pub struct @<\'a, \'b: \'a, T: ?Sized + \'a> where T: std::fmt::Debug { pub a: &\'a T, pub b: &\'b T }'.replace('{a}"', '{a:?}"')),
    ('Display, FromStr', '#[display("{0}")] pub struct @<T = u8, const N: usize = 3>(pub T);'),
    ('Display, FromStr', 'pub enum @<T> { #[display("<{0}>")] A(T), #[display("x")] B }'),
    ('Display, FromStr', 'pub enum @ {}'),
    ('FromStr, Display', '#[display("")] pub struct @;'),
    ('Display, FromStr', '#[display("{a}")] #[from_str(default)] pub(crate) struct @ { a: u8, b: u8 } impl Default for @ { fn default() -> Self { @ { a: 1, b: 2 } } }'),
    ('Display', '#[display("{}", "x")] pub enum @ { #[display("x")] A }'.replace('#[display("{}", "x")] ', '')),
    ('FromStr', '#[from_str(regex = "(?<a>.)", default)] pub struct @ { pub a: char } impl Default for @ { fn default() -> Self { @ { a: \'c\' } } }'),
]


class Raw:
    def __init__(self, der, src):
        self.der, self.src, self.name, self.derive = der, src, "", der.split(", ")


def show(w):
    return f"#[derive({w.der})] " + w.src.replace("@", w.name) if isinstance(w, Raw) else M.rust(w)


def local(w):
    return "pub fn in_%s() {\n%s\n}" % (w.name.lower(), show(w))


def const(w):
    return "const _: () = {\n%s\n};" % show(w)


def judge(rep, label, crate, ws, shw, edition, st):
    for i, w in enumerate(ws):
        w.name = "R%d" % i
    good, _ = X.compile(crate, ws, "#![allow(warnings)]\n" + X.HEAD.replace("#![allow(warnings)]", ""), show=shw, edition=edition)
    j = json.load(open(P.facts(crate)))
    ad = {}
    for a in j["adts"]:
        ad.setdefault(a["def"].rsplit("::", 1)[-1], []).append(a)
    by = {}
    for w in good:
        c = ad.get(w.name, [])
        if len(c) != 1:
            rep.undecided.append(f"{label}: type of {w.name} not found")
            continue
        by[c[0]["def"]] = (w, c[0])
    imps = collections.defaultdict(list)
    n = 0
    for i in j["impls"]:
        if i["mac"] not in DOC:
            continue
        n += 1
        if i["adt"] in by:
            imps[i["adt"]].append(i)
        elif not any(a["def"] == i["adt"] for a in j["adts"]):
            rep.violation(f"the derive implements {i['tr']} for {i['self']} ({label})", f"#[derive({i['mac']})] adds impl {i['trf']} for {i['self']}, a type that is not the derived one\n  at {i['sp']}")
    for d, (w, a) in by.items():
        want = [x for t in w.derive if t in DOC for x in DOC[t]]
        got = imps[d]
        src = shw(w)
        for tr, ats in want:
            h = [i for i in got if i["tr"] == tr]
            if len(h) != 1:
                rep.violation(f"{len(h)} impls of {tr} ({label}) on {src[:100]!r}", f"deriving {', '.join(w.derive)} gives {len(h)} impls of {tr}\nfor\n{src}")
            for i in h:
                if i["self"] != a["ty"]:
                    rep.violation(f"{tr} is not implemented for the whole type ({label})", f"{tr} is implemented for {i['self']}, the type is {a['ty']}\nfor\n{src}")
                if "<" in i["trf"] and not i["trf"].startswith("<"):
                    rep.violation(f"{tr} has arguments ({label})", f"{i['trf']} for {i['self']}\nfor\n{src}")
                for k, t in ats:
                    if dict(map(tuple, i["at"])).get(k) != t:
                        rep.violation(f"{tr}::{k} ({label})", f"the derived {tr} has {k} = {dict(map(tuple, i['at'])).get(k)}, documented is {t}\nfor\n{src}")
        for i in got:
            if i["tr"] not in [t for t, _ in want]:
                rep.violation(f"the derive also implements {i['tr']} ({label})", f"deriving {', '.join(w.derive)} adds impl {i['trf']} for {i['self']}\n  at {i['sp']}\nfor\n{src}")
    for k, name, mac, pk, pp, sp, pm in j["made"]:
        if mac not in DOC:
            continue
        n += 1
        if k == "inherent impl" and name in by:
            rep.violation(f"the derive adds an inherent impl ({label})", f"#[derive({mac})] adds an inherent impl to {name}\n  at {sp}\nfor\n{shw(by[name][0])}")
        elif not pm and k != "inherent impl" and not (k == "constant" and name in ("_", "")):
            rep.violation(f"the derive adds a {k} to the user's scope ({label})", f"#[derive({mac})] defines the {k} `{name}` in {pk} {pp}, beside the user's items\n  at {sp}")
    st.append(dict(scope=label, programs=len(by), items=n))


def run(rep, pid, tier, seed):
    P.forget()
    k = 6 if tier == "thorough" else 1
    r = random.Random(seed)
    cur = curated.pool()
    st = []
    for i, (label, name, part, shw, ed) in enumerate((("module", "sfa", (len(cur), 200 * k, 100 * k), show, "2024"), ("function", "sfb", (150 * k, 60 * k, 60 * k), local, "2021"),
                                                    ("constant", "sfc", (80 * k, 40 * k, 40 * k), const, "2018"))):
        a, b, c = part
        ws = [copy.deepcopy(w) for w in (cur if a >= len(cur) else r.sample(cur, a))]
        ws += gen.witnesses(seed * 17 + i, b) + focus.pool("C01", seed * 17 + i, c) + [Raw(*x) for x in GENERIC]
        # one half of what both derives do
        for w in r.sample(ws, len(ws) // 6):
            if not isinstance(w, Raw) and set(w.derive) >= {"Display", "FromStr"}:
                w.derive = [r.choice(["Display", "FromStr"])] + [d for d in w.derive if d not in DOC]
        judge(rep, label, name, ws, shw, ed, st)
    rep.cov.update(programs=sum(x["programs"] for x in st), items_examined=sum(x["items"] for x in st), scopes=st,
                   rule="of everything rustc's tables say the expansion of a derive defined: Display gives exactly one impl of Display; FromStr exactly one impl of FromStr with Err = ParseError and one of "
                        "FromStrRegex, each for the type with all its own parameters; no other impl on the user's type, no inherent impl, no named item in the user's scope")
    rep.assume += ["items inside the bodies of the generated impls or an anonymous constant are not visible to the user", "std feature on (without it FromStrRegex does not exist)"]
