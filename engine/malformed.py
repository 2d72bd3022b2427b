"""C24: malformed attributes.  A catalogue of items that are well-formed except for one fault; every one has to be refused by a located error."""
import itertools
import bisect
import copy
import random
import re

import model as M
import pipeline as P

HEAD = ""


class Item:
    __slots__ = ("kind", "host", "derive", "src", "attrs")

    def __init__(self, kind, host, derive, src):
        self.kind, self.host, self.derive, self.src = kind, host, derive, src


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t").replace("\0", "\\0") + '"'


# ---------------------------------------------------------------- faults
# format strings no position accepts
FMT_LEX = {
    "unclosed brace": ["{x", "a{x", "{x}{", "{", "{x}{x", "{{{x", "{x:", "{x:?", "é{x", "\n{x", "a{{{", "{x\n"],
    "lone closing brace": ["x}", "a}b", "{x}}", "}", "}{x}", "{x}a}b", "{{x}", "}}}", "{x}é}", "\n}"],
    "unknown format trait": ["{x:y}", "{x:5y}", "{x:??}", "{x:xx}", "{x:X?y}", "{x:D}", "{x:>5q}", "{x:.3z}", "a{x:é}", "{x:#y}", "{x:05y}"],
    "bad format spec": ["{x:<<<5}", "{x:5.}", "{x:+-5}", "{x:.x.y}", "{x:5 5}", "{x:a b}", "{x:#+5}", "{x::y}", "{x:99999999999999999999}", "{x:.99999999999999999999}"],
}
# field keys that are no key
KEY_LEX = {
    "bad field name": ["{x.}", "{.x}", "{x..x}", "{x-y}", "{+}", "{x y}", "{x[0]}", "{x!}", "{&x}", "{*}", "{x.y-z}", "{\"x\"}"],
}
# keys that name nothing
NOFIELD = {
    "unknown field": ["{nofield}", "a{nofield}b", "{x}{nofield}", "{nofield:?}", "{nofield.x}", "{X}", "{_x}", "{xx}", "{7}", "{1000}", "{x}{7}"],
}
STYLES = ["Snake_Case", "", " snake_case", "lower", "lowercase ", "none ", "None", "UPPER", "kebab_case", "Camel-Case", "camelcase", "TitleCase", "title_case", "Title-Case",
          "snake-case", "SNAKE-CASE", "KEBAB_CASE", "LOWERCASE", "uppercase", "TITLE case", "title Case", "x"]
REGEX_BAD = ["(", ")", "[", "*", "a)", "(?P<x", "(?P<x>", "(?<x>a", "\\", "a{2,1}", "[z-a]", "(?z)", "+a", "(?P<1x>a)(?P<x>.)", "a**(", "(?P<x>.)(", "x{99999999}", "\\xZZ", "(?", "[[:foo:]]["]
BOUNDS = ["bound(T:)x", "bound = 5", "bound(5)", "bound(T: 5)", "bound(\"T: 5\")", "bound(+)", "bound", "bound(T = U)", "bound(\"T:: :\")", "bound(where T: Copy)"]
UNKNOWN_D = ["fmt = \"x\"", "unknown", "unknown = 1", "unknown(x)", "Style = \"none\"", "styles = \"none\"", "opt = 1", "opt = true", "opt(x)", "regex = \"x\"", "new = Self", "default", "ignore",
             "\"a\", \"b\"", "\"a\" \"b\"", "\"a\";", "5", "'x'", "b\"x\"", "\"a\", opt, opt", "style = \"none\", style = \"none\"", "style", "style = 5", "style = snake_case", "style(\"none\")", "with", "with =",
             "with(x)", "crate = \"x\"", "crate = 5", "crate", "dump = 1", "dump = \"x\"", "with = 1, with = 2", "crate = ::parse_display, crate = ::parse_display", "default_fields(\"x\")", "opt = opt"]
UNKNOWN_F = ["regx = \"x\"", "unknown", "unknown = 1", "unknown(x)", "\"x\"", "regex", "regex = 5", "regex(x)", "regex = x", "regex_infer = 1", "regex_infer = true", "regex_infer(x)", "with", "with =", "with(x)", "new", "new =",
             "new(x)", "default = 1", "default(x)", "default = \"x\"", "ignore = 1", "ignore = true", "ignore(x)", "default_fields", "default_fields = x", "default_fields(5 + 5)", "default_fields(\"a b\")", "default_fields(-)",
             "dump = 1", "regex = \"a\", regex = \"a\"", "default, default", "ignore, ignore", "style = \"none\"", "opt", "crate = ::parse_display", "regex = \"a\" regex_infer", "regex = b\"a\"",
             "new = Self, new = Self", "with = 1, with = 2", "regex_infer, regex_infer"]
WHOLE_D = ["#[display]", "#[display = \"{x}\"]", "#[display = 5]"]
WHOLE_F = ["#[from_str]", "#[from_str = \"x\"]", "#[from_str = 5]"]

# ---------------------------------------------------------------- hosts: (name, template with A for the attributes, field ?)
# positions where an attribute with a format sits and the field x exists
FMT_HOSTS = [
    ("struct", "A\npub struct N { pub x: u32 }"),
    ("struct of two", "A\npub struct N { pub x: u32, #[from_str(default)] pub y: u8 }"),
    ("generic struct", "A\npub struct N<T: std::str::FromStr + std::fmt::Display + std::fmt::Debug> { pub x: T }"),
    ("variant", "pub enum N { A V { x: u32 }, W }"),
    ("last variant", "pub enum N { W, A\n V { x: u32, #[from_str(default)] y: u8 } }"),
]
FIELD_HOSTS = [
    ("field", "#[display(\"{x}\")]\npub struct N { A pub x: Inner }"),
    ("field of a variant", "pub enum N { W, #[display(\"{x}\")] V { A x: Inner } }"),
]
UNUSED_HOSTS = [
    ("field outside the format", "#[display(\"{y}\")]\npub struct N { A pub x: u8, pub y: u8 }"),
    ("field outside the format of a variant", "pub enum N { W, #[display(\"{y}\")] V { y: u8, A x: u32 } }"),
    ("field of a variant with a literal format", "pub enum N { W, #[display(\"v\")] V(A u32) }"),
]
ANY_HOSTS = [
    ("struct", "A\npub struct N { pub x: u32 }"),
    ("tuple struct", "A\npub struct N(pub u32);"),
    ("enum", "A\npub enum N { P, Q }"),
    ("variant", "pub enum N { P, A Q }"),
    ("variant with a field", "pub enum N { A P(u32), Q }"),
    ("field", "pub struct N { A pub x: u32 }"),
    ("tuple field", "#[display(\"{0}-{1}\")]\npub struct N(pub u8, A pub u32);"),
    ("field of a variant", "#[display(\"{}-{0}\")]\npub enum N { P(A u32), Q(u8) }"),
]


class Cat:
    def __init__(self):
        self.items = []
        self.seen = set()

    def add(self, kind, host, derive, body, pre=""):
        n = f"T{len(self.items)}"
        key = (derive, body)
        if key in self.seen:
            return
        if derive == "FromStr" and kind in ("unknown format trait", "bad format spec"):
            return              # FromStr has no use for a format spec
        if derive == "Display" and "from_str" in body:
            body = re.sub(r"#\[from_str\(default\)\] ?", "", body)
            if "from_str" in body:
                return
        self.seen.add(key)
        src = f"#[derive({derive})]\n{body}".replace("struct N", f"struct {n}").replace("enum N", f"enum {n}").replace("union N", f"union {n}")
        if "Inner" in src:
            src = src.replace("Inner", "InnerX")
        self.items.append(Item(kind, host, derive, src))


BOTH = ("Display", "FromStr", "Display, FromStr")


def catalogue(tier="quick", seed=1):
    c = Cat()
    D, F, B = BOTH

    def at(host, attr, field=None):
        return host.replace("A", attr, 1)
    # --- format strings
    for kind, texts in list(FMT_LEX.items()) + list(KEY_LEX.items()):
        for t in texts:
            for hn, h in FMT_HOSTS:
                for d in BOTH:
                    if kind == "bad field name" and False:
                        continue
                    c.add(kind, hn, d, at(h, f"#[display({q(t)})]"))
            for hn, h in FIELD_HOSTS:
                for d in BOTH:
                    c.add(kind, hn, d, at(h, f"#[display({q(t)})]"))
            if kind in ("unclosed brace", "lone closing brace"):
                for hn, h in UNUSED_HOSTS:
                    c.add(kind, hn, D, at(h, f"#[display({q(t)})]"))
            # with company: a second attribute, options in the same attribute
            c.add(kind, "struct, after another attribute", B, at(FMT_HOSTS[0][1], f"#[from_str(regex = \"(?<x>.*)\")]\n#[display({q(t)})]") if kind not in ("bad field name",) else
                  at(FMT_HOSTS[0][1], f"#[display(style = \"none\")]\n#[display({q(t)})]"))
            c.add(kind, "variant, with a style", B, at(FMT_HOSTS[3][1], f"#[display({q(t)}, style = \"none\")]"))
            c.add(kind, "enum", B, f"#[display({q(t.replace('x', '0', 1) if kind.startswith('unk') else t)})]\npub enum N {{ V {{ x: u32 }}, W {{ x: u32 }} }}")
            c.add(kind, "field, with opt", D, at("pub struct N { A pub x: Option<Inner> }", f"#[display({q(t)}, opt)]"))
    for t in NOFIELD["unknown field"]:
        for hn, h in FMT_HOSTS:
            for d in BOTH:
                c.add("unknown field", hn, d, at(h, f"#[display({q(t)})]"))
        c.add("unknown field", "enum", D, f"#[display({q(t)})]\npub enum N {{ V {{ x: u32 }}, W {{ x: u32 }} }}")
        c.add("unknown field", "unit struct", D, f"#[display({q(t.replace('{x}', ''))})]\npub struct N;")
        c.add("unknown field", "unit variant", B, f"pub enum N {{ #[display({q(t.replace('{x}', ''))})] A, B }}")
    for t in ("{2}", "{a}", "{0}{2}", "{x}", "{00}", "{-1}"):
        for d in BOTH:
            c.add("unknown field", "tuple struct", d, f"#[display({q(t)})]\npub struct N(pub u8, #[from_str(default)] pub u16);" if t != "{00}" else f"#[display({q('{09}')})]\npub struct N(pub u8, pub u16);")
            c.add("unknown field", "tuple variant", d, f"pub enum N {{ #[display({q(t if t != '{00}' else '{9}')})] A(u8, #[from_str(default)] u16), B }}")
    for t in ("{}", "a{}", "{x}{}", "{:>5}", "{:?}{x}", "{}{}"):
        for d in BOTH:
            c.add("{} in a struct format", "struct", d, f"#[display({q(t)})]\npub struct N {{ pub x: u32 }}") if t[:3] not in ("{:>", "{:?") else None
            c.add("{} in a struct format", "tuple struct", d, f"#[display({q(t.replace('{x}', '{0}'))})]\npub struct N(pub u32);") if t[:3] not in ("{:>", "{:?") else None
    # --- no format where one is needed
    for d in BOTH:
        c.add("no format", "unit struct", d, "pub struct N;")
        c.add("no format", "empty struct", d, "pub struct N {}")
        c.add("no format", "struct of two", d, "pub struct N { pub x: u8, pub y: u8 }")
        c.add("no format", "tuple struct of two", d, "pub struct N(pub u8, pub u8);")
        c.add("no format", "struct of two, field formats", d, "pub struct N { #[display(\"{}\")] pub x: u8, #[display(\"{}\")] pub y: u8 }")
        c.add("no format", "variant of one", d, "pub enum N { A, B(u8) }") if False else None
        c.add("no format", "variant of two", d, "pub enum N { A, B(u8, u8) }")
        c.add("no format", "variant of two named", d, "pub enum N { A, B { x: u8, y: u8 } }")
        c.add("no format", "struct with a style only", d, "#[display(style = \"none\")]\npub struct N { pub x: u8, pub y: u8 }")
        c.add("union", "union", d, "pub union N { pub x: u32 }")
        c.add("union", "union with a format", d, "#[display(\"a\")]\npub union N { pub x: u32, pub y: u8 }")
    # --- FromStr: a field that nothing gives a value
    for fmt in ("abc", "{y}", "", "{{x}}", "x"):
        for d in (F, B):
            c.add("field missing from the format", "struct", d, f"#[display({q(fmt)})]\npub struct N {{ pub x: u32, pub y: u8 }}")
            c.add("field missing from the format", "variant", d, f"pub enum N {{ #[display({q(fmt)})] V {{ x: u32, y: u8 }}, W }}")
    for rx in ("abc", "(?<y>a)", "", "(?:x)", "(x)", "\\(\\?<x>.\\)"):
        for d in (F, B):
            c.add("field missing from the regex", "struct", d, f"#[from_str(regex = {q(rx)})]\n#[display(\"{{x}}{{y}}\")]\npub struct N {{ pub x: u32, pub y: u8 }}")
            c.add("field missing from the regex", "variant", d, f"pub enum N {{ W, #[from_str(regex = {q(rx)})] #[display(\"{{x}}{{y}}\")] V {{ x: u32, y: u8 }} }}")
            c.add("field missing from the regex", "enum", d, f"#[from_str(regex = {q(rx)})]\n#[display(\"{{x}}{{y}}\")]\npub enum N {{ V {{ x: u32, y: u8 }} }}")
    for rx in ("(?<nofield>a)", "(?<x>.)(?<nofield>a)", "(?P<nofield>a)(?P<x>b)", "(?<x>.)(?<x__>.)" if False else "(?<x>.)(?<zz>.)"):
        for d in (F, B):
            c.add("regex names an unknown field", "struct", d, f"#[from_str(regex = {q(rx)})]\npub struct N {{ pub x: u32 }}")
            c.add("regex names an unknown field", "variant", d, f"#[display(\"{{x}}\")]\npub enum N {{ #[from_str(regex = {q(rx)})] V {{ x: u32 }}, W {{ x: u8 }} }}")
            c.add("regex names an unknown field", "tuple struct", d, f"#[from_str(regex = {q(rx.replace('<x>', '<_0>') if False else rx.replace('<x>', '<0>'))})]\npub struct N(pub u32);") if False else None
    for rx in ("(?<>a)", "(?P<>a)", "x(?<>a)(?<x>b)"):
        for d in (F, B):
            c.add("empty capture name in a struct", "struct", d, f"#[from_str(regex = {q(rx)})]\npub struct N {{ #[from_str(default)] pub x: u32 }}")
            c.add("empty capture name in a struct", "unit struct", d, f"#[display(\"a\")]\n#[from_str(regex = {q(rx.replace('(?<x>b)', ''))})]\npub struct N;")
    # --- regular expressions
    for rx in REGEX_BAD:
        for d in (F, B):
            ok = "(?<x>.)" if "<x>" not in rx else ""
            c.add("bad regex", "struct", d, f"#[from_str(regex = {q(rx)})]\npub struct N {{ #[from_str(default)] pub x: u32 }}")
            c.add("bad regex", "variant", d, f"#[display(\"{{}}{{x}}\")]\npub enum N {{ W {{ x: u8 }}, #[from_str(regex = {q(rx)})] V {{ #[from_str(default)] x: u32 }} }}")
            c.add("bad regex", "enum", d, f"#[display(\"{{}}{{x}}\")]\n#[from_str(regex = {q(rx)})]\npub enum N {{ W {{ #[from_str(default)] x: u8 }}, V {{ #[from_str(default)] x: u32 }} }}")
            c.add("bad regex", "field", d, f"#[display(\"{{x}}\")]\npub struct N {{ #[from_str(regex = {q(rx)})] pub x: u32 }}")
            c.add("bad regex", "field with a format", d, f"#[display(\"{{x}}\")]\npub struct N {{ #[display(\"a{{}}\")] #[from_str(regex = {q(rx)})] pub x: u32 }}")
            c.add("bad regex", "tuple field of a variant", d, f"#[display(\"{{}}{{0}}\")]\npub enum N {{ V(#[from_str(regex = {q(rx)})] u32), W(u8) }}")
    # --- styles
    for s in STYLES:
        for hn, h in (("enum", "A\npub enum N { P, Q }"), ("variant", "pub enum N { P, A Q }"), ("enum with a format", "#[display(\"a{}\")]\nA\npub enum N { P, Q }")):
            for d in BOTH:
                c.add("unknown style", hn, d, at(h, f"#[display(style = {q(s)})]"))
        c.add("unknown style", "with a format", B, f"#[display(\"a-{{}}\", style = {q(s)})]\npub enum N {{ P, Q }}")
        c.add("unknown style", "variant with a format", B, f"pub enum N {{ #[display(\"a-{{}}\", style = {q(s)})] P, Q }}")
    # --- unknown or ill-formed options
    for hn, h in UNUSED_HOSTS:
        for o in UNKNOWN_D:
            c.add("ill-formed display option", hn, D, at(h, f"#[display({o})]"))
        for o in WHOLE_D:
            c.add("attribute without a list", hn, D, at(h, o))
        for st in STYLES:
            c.add("unknown style", hn, D, at(h, f"#[display(style = {q(st)})]"))
    for hn, h in ANY_HOSTS:
        for o in UNKNOWN_D:
            for d in BOTH:
                c.add("ill-formed display option", hn, d, at(h, f"#[display({o})]"))
        for o in UNKNOWN_F:
            for d in (F, B):
                c.add("ill-formed from_str option", hn, d, at(h, f"#[from_str({o})]"))
        for o in BOUNDS:
            for d in BOTH:
                c.add("ill-formed bound", hn, d, at(h, f"#[display({o})]"))
            c.add("ill-formed bound", hn, F, at(h, f"#[from_str({o})]"))
        for o in WHOLE_D:
            for d in BOTH:
                c.add("attribute without a list", hn, d, at(h, o))
        for o in WHOLE_F:
            for d in (F, B):
                c.add("attribute without a list", hn, d, at(h, o))
    # --- options that cannot apply
    for d in (F, B):
        for body in ("pub enum N {}", "pub enum N { P }", "pub enum N { #[display(\"{0}\")] P(u8), Q }"):
            c.add("default on an enum", "enum", d, "#[from_str(default)]\n" + body)
            c.add("default on an enum", "enum with a style", d, "#[display(style = \"none\")]\n#[from_str(default)]\n" + body)
            c.add("default on an enum", "enum with a regex", d, "#[from_str(regex = \"a\", default)]\n" + body)
    for ty in ("u32", "Vec<u8>" if False else "String", "Box<Option<u8>>", "(Option<u8>)" if False else "bool"):
        for d in (F, B):
            c.add("opt on a field that is no option", "struct", d, f"pub struct N {{ #[display(\"a={{}}\", opt)] pub x: {ty} }}") if "Box" not in ty or d == F else None
            c.add("opt on a field that is no option", "tuple struct", d, f"#[display(\"<{{0}}>\")]\npub struct N(#[display(opt)] pub {ty});") if "Box" not in ty or d == F else None
            c.add("opt on a field that is no option", "variant", d, f"pub enum N {{ #[display(\"{{0}}\")] A(#[display(opt)] {ty}), B }}") if "Box" not in ty or d == F else None
    # --- things rustc has to refuse, with the error in the user's code
    for w in ("unknown", "no::such", "\"str\"", "5", "String::new", "|x: u8| x"):
        c.add("with expression that is no format", "struct", D, f"pub struct N {{ #[display(with = {w})] pub x: u32 }}")
        c.add("with expression that is no format", "struct", F, f"pub struct N {{ #[from_str(with = {w})] pub x: u32 }}")
        c.add("with expression that is no format", "struct", B, f"pub struct N {{ #[display(with = {w})] pub x: u32 }}")
        c.add("with expression that is no format", "variant", D, f"pub enum N {{ A, #[display(\"{{0}}\")] B(#[display(with = {w})] u32) }}")
        c.add("with expression that is no format", "variant", F, f"pub enum N {{ A, #[display(\"{{0}}\")] B(#[from_str(with = {w})] u32) }}")
    for b in ("pub struct N { pub x: NoFmt }", "#[display(\"{x}\")]\npub struct N { pub x: NoFmt }", "#[display(\"{0:?}\")]\npub struct N(pub NoFmt);", "pub enum N { #[display(\"{0}\")] A(NoFmt), B }",
              "#[display(\"{}{0}\")]\npub enum N { A(NoFmt), B(u8) }", "#[display(\"{x:p}\")]\npub struct N { pub x: u32 }", "#[display(\"{x:x}\")]\npub struct N { pub x: String }",
              "#[display(\"{x:e}\")]\npub struct N { pub x: bool }", "pub struct N { #[display(\"{:b}\")] pub x: f32 }", "#[display(\"{x.nofield}\")]\npub struct N { pub x: (u8, u8) }",
              "#[display(\"{x.5}\")]\npub struct N { pub x: (u8, u8) }", "pub struct N { #[display(\"{z}\")] pub x: (u8, u8) }"):
        c.add("field without the trait the format asks for", "Display", D, b)
    for b in ("pub struct N { pub x: NoFmt }", "#[display(\"{x}\")]\npub struct N { pub x: NoFmt }", "pub enum N { #[display(\"{0}\")] A(NoFmt), B }", "#[display(\"{}{0}\")]\npub enum N { A(NoFmt), B(u8) }",
              "#[display(\"{x}\")]\npub struct N { pub x: u8, #[from_str(default)] pub y: NoFmt }", "#[from_str(new = Self::nothing(x))]\npub struct N { pub x: u8 }", "#[from_str(new = nofn(x))]\npub struct N { pub x: u8 }",
              "#[from_str(default)]\n#[display(\"{x}\")]\npub struct N { pub x: u8, pub y: u8 }", "pub enum N { #[display(\"{0}\")] #[from_str(new = Self::A(1, 2))] A(u8), B }",
              "#[from_str(default_fields(\"nofield\"))]\n#[display(\"{x}\")]\npub struct N { pub x: u8, pub y: u8 }",
              "#[display(\"{x.a}\")]\npub struct N { pub x: NoFmt }", "#[display(\"{x.a}{x.b}\")]\npub struct N { pub x: NoFmt }"):
        c.add("field FromStr cannot produce", "FromStr", F, b)
    # --- crate paths that lead nowhere
    for d in (F, B):
        c.add("crate path that leads nowhere", "struct", d, "#[display(crate = ::no_such_crate)]\npub struct N { pub x: u8 }")
        c.add("crate path that leads nowhere", "enum", d, "#[display(crate = self::nothing)]\npub enum N { A, B }")
    return c.items


def controls():
    """the same surroundings without the fault: these have to compile, or a refusal above says nothing"""
    c = Cat()
    D, F, B = BOTH
    for d in BOTH:
        for hn, h in FMT_HOSTS:
            for t in ("{x}", "a{x}b"):
                c.add("control", hn, d, h.replace("A", f"#[display({q(t)})]", 1))
        for hn, h in FIELD_HOSTS:
            c.add("control", hn, d, h.replace("A", "#[display(\"{x}\")]", 1)) if d == D else None
            c.add("control", hn, d, h.replace("A", "#[display(\"<{}>\")]", 1))
        for hn, h in UNUSED_HOSTS:
            c.add("control", hn, d, h.replace("A", "#[display(\"{:?}\")]", 1)) if d == D else None
        for hn, h in ANY_HOSTS:
            t = h.replace("A", "", 1)
            if hn == "variant with a field":
                t = h.replace("A", "#[display(\"{0}\")]", 1)
            c.add("control", hn, d, t)
        for st in ("snake_case", "Title Case", "none"):
            c.add("control", "enum", d, f"#[display(style = {q(st)})]\npub enum N {{ P, Q }}")
            c.add("control", "variant", d, f"pub enum N {{ P, #[display(style = {q(st)})] Q }}")
    for d in (F, B):
        c.add("control", "struct", d, "#[from_str(regex = \"(?<x>.)\")]\npub struct N { #[from_str(default)] pub x: u32 }")
        c.add("control", "struct", d, "#[from_str(regex = \"a\")]\npub struct N { #[from_str(default)] pub x: u32 }")
        c.add("control", "field", d, "#[display(\"{x}\")]\npub struct N { #[from_str(regex = \"a\")] pub x: u32 }")
        c.add("control", "struct", d, "pub struct N { #[display(\"a={}\", opt)] pub x: Option<u32> }")
        c.add("control", "variant", d, "#[display(\"{}{x}\")]\npub enum N { W { x: u8 }, #[from_str(regex = \"a\")] V { #[from_str(default)] x: u32 } }")
    return c.items


# ---------------------------------------------------------------------------------------------- faults planted in well-formed witnesses
def plant(ws):
    """one fault in one attribute of a well-formed witness"""
    out = []
    for w in ws:
        if not w.derive:
            continue
        disp, fs = "Display" in w.derive, "FromStr" in w.derive
        vs = w.body if w.enum else [w.body]

        def go(kind, host, change):
            m = copy.deepcopy(w)
            change(m)
            out.append(Item(kind, "witness: " + host, ", ".join(w.derive), m))

        def level(host, attrs, path, vi, ignored):
            for ai, (k, d) in enumerate(attrs):
                def edit(key, f, ai=ai):
                    def ch(m):
                        a = path(m)[ai][1]
                        a[key] = f(a[key])
                    return ch
                if k == "display" and not (ignored and not disp):
                    if "fmt" in d:
                        go("unclosed brace", host, edit("fmt", lambda t: t + "{"))
                        go("lone closing brace", host, edit("fmt", lambda t: "}" + t if not t.startswith("}") else t[:0] + "} " + t))
                        if host in ("struct", "variant") and (disp or not ignored and not any("regex" in d2 for _, d2 in attrs)) and not any("fmt" in d2 for _, d2 in attrs[ai + 1:]):
                            go("unknown field", host, edit("fmt", lambda t: t + "{no_such_field}"))
                            if disp:
                                go("unknown format trait", host, edit("fmt", lambda t: t + "{no_such_field:y}"))
                    if "style" in d:
                        go("unknown style", host, edit("style", lambda t: t + "_"))
                if k == "from_str" and fs and not ignored and "regex" in d and host in ("struct", "variant") and "(?x" not in d["regex"] and not any("regex" in d2 for _, d2 in attrs[ai + 1:]):
                    go("bad regex", host, edit("regex", lambda t: t + "("))
                    go("bad regex", host, edit("regex", lambda t: ")" + t))
        level("enum" if w.enum else "struct", w.attrs, lambda m: m.attrs, None, False)
        for vi, v in enumerate(vs):
            ig = w.enum and any("ignore" in d for _, d in v.attrs)
            if w.enum:
                level("variant", v.attrs, lambda m, vi=vi: m.body[vi].attrs, vi, ig)
            for fi, f in enumerate(v.fields):
                level("field", f.attrs, lambda m, vi=vi, fi=fi: (m.body[vi] if w.enum else m.body).fields[fi].attrs, vi, ig)
    return out


# ---------------------------------------------------------------------------------------------- compile and judge
def text(it, i):
    if isinstance(it.src, str):
        return it.src + "\n"
    return f"pub mod w{i} {{\nuse super::*;\n" + M.rust(it.src) + "\n}\n"


def layout(items):
    src, at = [HEAD], []
    line = HEAD.count("\n") + 1
    for i, it in enumerate(items):
        s = text(it, i)
        n = s.count("\n")
        at.append((line, line + n - 1))
        line += n
        src.append(s)
    return "".join(src), at


def spans(msg):
    """primary places in the witness source, with the places of the macro calls they come from"""
    out = []

    def sp(s, via):
        if s["file_name"].endswith("src/lib.rs") and not s["file_name"].startswith(P.REPO):
            out.append((s["line_start"], s["column_start"], via))
        if s.get("expansion"):
            sp(s["expansion"]["span"], True)
    for s in msg["spans"]:
        if s["is_primary"]:
            sp(s, False)
    return out


def compiled(items, name="mal"):
    """-> per item [(message, [(line in the item, column, through an expansion)])], ok, errors that point at no item"""
    src, at = layout(items)
    d = P.crate(name, src)
    ok, errs, raw = P.check(d, name)
    got = [[] for _ in items]
    stray = []
    starts = [a for a, _ in at]
    for e in errs:
        hit = {}
        for ln, col, via in spans(e):
            i = bisect.bisect_right(starts, ln) - 1
            if i >= 0 and at[i][0] <= ln <= at[i][1]:
                hit.setdefault(i, []).append((ln - at[i][0], col, via))
        for i, ps in hit.items():
            got[i].append((e, ps))
        if not hit and "aborting due to" not in e["message"]:
            stray.append(e)
    return got, ok, stray


IGNORED = re.compile(r"cannot find attribute `(from_str|display)`")
CRASH = re.compile(r"panicked|internal compiler error|unexpectedly panicked")
AT_FAULT = ("unclosed brace", "lone closing brace", "unknown format trait", "bad format spec", "bad field name", "bad regex", "unknown style", "{} in a struct format", "default on an enum",
            "empty capture name in a struct", "ill-formed display option", "attribute without a list", "field missing from the regex", "regex names an unknown field")


def derive_only(ps, it):
    """does the error point at nothing but the name of the derive?"""
    t = text(it, 0).split("\n")
    return all(t[ln].lstrip().startswith("#[derive(") for ln, _, _ in ps)


def judge(items, rep, und):
    """-> counts"""
    cur, rejected, rounds = list(items), 0, 0
    first = True
    while cur:
        got, ok, stray = compiled(cur)
        rounds += 1
        left = []
        for it, g in zip(cur, got):
            crash = [e for e, _ in g if CRASH.search(e["message"])]
            if crash:
                rep.violation(f"{it.kind} at {it.host}: the macro crashes", f"{text(it, 0)}\n{crash[0]['rendered'][:1200]}")
                continue
            g = [(e, ps) for e, ps in g if not IGNORED.search(e["message"])]
            if not g:
                left.append(it)
                continue
            rejected += 1
            own = [(e, ps) for e, ps in g if e.get("code") is None]
            if it.kind in AT_FAULT and own and all(derive_only(ps, it) for _, ps in g):
                rep.violation(f"{it.kind} at {it.host}: error not located", f"{text(it, 0)}\nThe error points at the derive's name only:\n{own[0][0]['rendered'][:800]}")
        if ok:
            for it in left:
                rep.violation(f"{it.kind} at {it.host}: accepted", f"This item is malformed ({it.kind}) and compiles without an error:\n{text(it, 0)}")
            break
        if len(left) == len(cur):
            # errors, but none in an item: who is to blame?
            if len(cur) == 1:
                rep.violation(f"{cur[0].kind} at {cur[0].host}: error not located", f"{text(cur[0], 0)}\n{(stray[0]['rendered'] if stray else '?')[:800]}")
                break
            for h in (left[:len(left) // 2], left[len(left) // 2:]):
                n, r = judge(h, rep, und)
                rejected += n
                rounds += r
            break
        cur = left
    return rejected, rounds


def run(rep, pid, tier, seed):
    import curated
    import gen
    import matrix
    global HEAD
    HEAD = matrix.HEAD + "pub struct NoFmt;\n#[derive(Display, FromStr, Debug)]\npub struct InnerX { pub x: u32 }\n"
    P.forget()
    fixed = catalogue(tier, seed)
    base = [w for w in curated.pool()]
    base += gen.witnesses(seed, 300)
    sets = [fixed, plant(base)]
    if tier == "thorough":
        for k in range(1, 9):
            sets.append(plant(gen.witnesses(seed * 1000 + k, 700)))
    ctl = controls()
    while True:
        got, ok, stray = compiled(ctl)
        bad = [i for i, g in enumerate(got) if g]
        if ok:
            break
        for i in bad:
            rep.undecided.append("control refused: " + ctl[i].src)
        if not bad:
            rep.undecided.append("controls do not compile")
            break
        ctl = [c for i, c in enumerate(ctl) if i not in bad]
    total = rej = rounds = 0
    kinds = {}
    for its in sets:
        n, r = judge(its, rep, rep.undecided)
        total += len(its)
        rej += n
        rounds += r
        for it in its:
            kinds[it.kind] = kinds.get(it.kind, 0) + 1
    rep.cov.update(items=total, controls_accepted=len(ctl), rejected=rej, compilations=rounds, kinds=kinds,
                   explanation=f"Compile-fail witnesses: {total} items, each well-formed except for one fault, in {len(kinds)} kinds of fault; {rej} are refused. rustc's diagnostics decide: at least one error "
                   "inside the item, no crash of the macro, and for a fault in an attribute's text an error that points beyond the derive's name.")
    rep.assume += ["rustc's JSON diagnostics carry the spans the macro gave"]
