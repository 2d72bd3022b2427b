"""Witness descriptions: Rust source of a deriving type, and the meaning the documentation gives it.

A witness is a struct or enum with helper attributes.  `rust()` prints it; `display_ref` / `fromstr_ref` give the
reference semantics (what must be written / matched / built), written from the documentation and std::fmt's rules,
independently of the macro's code."""

ANY = r"(?s:.*?)"


# ------------------------------------------------------------------ description
class F:
    """field: name (None for tuple), type, attributes [(kind, {..}), ..]"""

    def __init__(self, name, ty, *attrs):
        self.name = name
        self.ty = ty
        self.attrs = list(attrs)


class Var:
    def __init__(self, name, fields=(), attrs=(), kind=None):
        self.name = name
        self.fields = list(fields)
        self.attrs = list(attrs)
        self.kind = kind or ("unit" if not fields else ("named" if fields[0].name else "tuple"))


class W:
    """witness type"""

    def __init__(self, body, attrs=(), generics="", where="", derive=("Display", "FromStr"), tags=(), extra="", note="",
                 name=None, tparams=()):
        self.enum = isinstance(body, list)
        self.body = body            # Var for structs, [Var] for enums
        self.attrs = list(attrs)
        self.generics = generics
        self.where = where
        self.derive = tuple(derive)
        self.tags = tuple(tags)
        self.extra = extra
        self.note = note
        self.name = name
        self.tparams = tparams


def D(fmt=None, **k):
    if fmt is not None:
        k = dict(fmt=fmt, **k)
    return ("display", k)


def S(**k):
    return ("from_str", k)


def rstr(s):
    """Rust string literal"""
    o = '"'
    for c in s:
        if c in '"\\':
            o += "\\" + c
        elif c == "\n":
            o += "\\n"
        elif c == "\t":
            o += "\\t"
        elif c == "\r":
            o += "\\r"
        elif ord(c) < 32 or ord(c) == 127:
            o += "\\u{%x}" % ord(c)
        else:
            o += c
    return o + '"'


def attr(a):
    kind, k = a
    ps = []
    for n, v in k.items():
        if n == "fmt":
            ps.append(rstr(v))
        elif n in ("style", "regex"):
            ps.append(f"{n} = {rstr(v)}")
        elif n in ("with", "new", "crate"):
            ps.append(f"{n} = {v.expr if isinstance(v, With) or isinstance(v, New) else v}")
        elif n == "bound":
            ps.append("bound(" + ", ".join(v) + ")")
        elif n == "default_fields":
            ps.append("default_fields(" + ", ".join(rstr(x) for x in v) + ")")
        elif v is True:
            ps.append(n)
        else:
            raise ValueError(n)
    return f"#[{kind}({', '.join(ps)})]"


class With:
    """a custom format: expression, and how its value looks in the analysis"""

    def __init__(self, expr, ty, term=None):
        self.expr = expr
        self.ty = ty
        self.term = term


class New:
    def __init__(self, fn, args, kind, expr):
        self.fn = fn            # function called
        self.args = args        # field keys in call order
        self.kind = kind        # plain / option / result
        self.expr = expr


def new(kind, *args):
    """constructor call; args are "name: type" (the macro's variables have no type of their own)"""
    ps = [tuple(x.strip() for x in a.split(":", 1)) for a in args]
    fn = {"plain": "mkp", "option": "mko", "result": "mkr"}[kind] + str(len(ps))
    tf = "::<" + "".join(t + ", " for _, t in ps) + "Self>"
    keys = [n[2:] if n.startswith("r#") else n for n, _ in ps]
    return New("usr::" + fn, keys, kind, f"crate::usr::{fn}{tf}({', '.join('_' + n if n.isdigit() else n for n, _ in ps)})")


def fields_rust(v, pub):
    p = "pub " if pub else ""
    fs = []
    for f in v.fields:
        at = " ".join(attr(a) for a in f.attrs)
        fs.append((at + " " if at else "") + p + (f"{f.name}: " if f.name else "") + f.ty)
    if v.kind == "unit":
        return ""
    if v.kind == "named":
        return " { " + ", ".join(fs) + " }"
    return "(" + ", ".join(fs) + ")"


def rust(w):
    o = []
    if w.derive:
        o.append("#[derive(" + ", ".join(w.derive) + ")]")
    for a in w.attrs:
        o.append(attr(a))
    if w.enum:
        o.append(f"pub enum {w.name}{w.generics} {w.where}{{")
        for v in w.body:
            for a in v.attrs:
                o.append("    " + attr(a))
            o.append("    " + v.name + fields_rust(v, False) + ",")
        o.append("}")
    else:
        v = w.body
        b = fields_rust(v, True)
        if v.kind == "named":
            o.append(f"pub struct {w.name}{w.generics} {w.where}{b}")
        else:
            o.append(f"pub struct {w.name}{w.generics}{b} {w.where};")
    if w.extra:
        o.append(w.extra.replace("@", w.name))
    return "\n".join(o)


USR = r'''
pub mod usr {
    use parse_display::{DisplayFormat, FromStrFormat, FromStrRegex, ParseError};
    #[derive(Default, Clone, Debug)]
    pub struct P2 { pub x: u32, pub y: u32 }
    #[derive(Default, Clone, Debug)]
    pub struct Q(pub u8, pub u16);
    #[derive(Default, Clone, Debug)]
    pub struct P3 { pub p: P2, pub q: Q, pub r#type: i32 }
    #[derive(Default, Clone, Debug)]
    pub struct P4 { pub n: P3, pub a_b: Q, pub é: u8, pub r#fn: P2 }
    pub struct WA;
    pub struct WB;
    pub struct WC(pub u8, pub &'static str);
    macro_rules! fmts { ($($t:ident)*) => { $(
        impl<T: ?Sized> DisplayFormat<T> for $t {
            fn write(&self, _f: &mut core::fmt::Formatter, _v: &T) -> core::fmt::Result { unimplemented!() }
        }
        impl<T> FromStrFormat<T> for $t {
            type Err = ParseError;
            fn parse(&self, _s: &str) -> Result<T, ParseError> { unimplemented!() }
            fn regex_pattern(&self) -> String { unimplemented!() }
        }
    )* } }
    fmts!(WA WB WC);
    /// formats of these types only
    pub struct WS;
    impl DisplayFormat<str> for WS { fn write(&self, _f: &mut core::fmt::Formatter, _v: &str) -> core::fmt::Result { unimplemented!() } }
    impl DisplayFormat<u8> for WS { fn write(&self, _f: &mut core::fmt::Formatter, _v: &u8) -> core::fmt::Result { unimplemented!() } }
    /// a user type with its own Display, FromStr and pattern
    #[derive(Default, Clone)]
    pub struct U(pub u8);
    impl core::fmt::Display for U { fn fmt(&self, _f: &mut core::fmt::Formatter) -> core::fmt::Result { unimplemented!() } }
    impl core::fmt::Debug for U { fn fmt(&self, _f: &mut core::fmt::Formatter) -> core::fmt::Result { unimplemented!() } }
    impl core::str::FromStr for U { type Err = String; fn from_str(_s: &str) -> Result<Self, String> { unimplemented!() } }
    impl core::str::FromStr for P2 { type Err = String; fn from_str(_s: &str) -> Result<Self, String> { unimplemented!() } }
    impl core::str::FromStr for P3 { type Err = String; fn from_str(_s: &str) -> Result<Self, String> { unimplemented!() } }
    impl core::str::FromStr for P4 { type Err = String; fn from_str(_s: &str) -> Result<Self, String> { unimplemented!() } }
    impl core::str::FromStr for Q { type Err = String; fn from_str(_s: &str) -> Result<Self, String> { unimplemented!() } }
    impl FromStrRegex for U { fn from_str_regex() -> String { unimplemented!() } }
    /// neither Display nor FromStr
    #[derive(Default)]
    pub struct N;
@MK@}
'''


def _mk():
    o = ""
    for n in range(13):
        g = "".join(f"A{i}, " for i in range(n)) + "R"
        a = ", ".join(f"_: A{i}" for i in range(n))
        for k, t in (("mkp", "R"), ("mko", "Option<R>"), ("mkr", "Result<R, String>")):
            o += f"    pub fn {k}{n}<{g}>({a}) -> {t} {{ unimplemented!() }}\n"
    return o


USR = USR.replace("@MK@", _mk())
STRUCTS = {
    "P2": (["x", "y"], ["u32", "u32"]),
    "Q": (["0", "1"], ["u8", "u16"]),
    "P4": (["n", "a_b", "é", "fn"], ["crate::usr::P3", "crate::usr::Q", "u8", "crate::usr::P2"]),
    "P3": (["p", "q", "type"], ["crate::usr::P2", "crate::usr::Q", "i32"]),
}
WA = With("crate::usr::WA", "usr::WA")
WB = With("crate::usr::WB", "usr::WB")
WS = With("crate::usr::WS", "usr::WS")


def usrstruct(ty):
    t = ty.split("::")[-1].strip()
    return STRUCTS.get(t)


# ------------------------------------------------------------------ reference: attributes
def display_attrs(attrs):
    r = {}
    for kind, k in attrs:
        if kind == "display":
            for n, v in k.items():
                if n == "bound":
                    r["bound"] = r.get("bound", []) + list(v)
                else:
                    r[n] = v
    return r


def fromstr_attrs(attrs):
    r = {}
    for kind, k in attrs:
        if kind == "from_str":
            for n, v in k.items():
                if n == "bound":
                    r["bound"] = r.get("bound", []) + list(v)
                elif n == "default_fields":
                    r[n] = r.get(n, []) + list(v)
                else:
                    r[n] = v
    return r


# ------------------------------------------------------------------ reference: format strings
def parse_format(s):
    """[('lit', text) | ('var', [keys], spec)]"""
    out = []
    i = 0
    lit = ""
    while i < len(s):
        if s.startswith("{{", i):
            lit += "{"
            i += 2
        elif s.startswith("}}", i):
            lit += "}"
            i += 2
        elif s[i] == "{":
            j = s.index("}", i)
            body = s[i + 1:j]
            # a fill character may itself be a brace only in escaped form, which we never use
            name, _, spec = body.partition(":")
            if lit:
                out.append(("lit", lit))
                lit = ""
            keys = [k[2:] if k.startswith("r#") else k for k in name.split(".")] if name else []
            out.append(("var", keys, spec))
            i = j + 1
        elif s[i] == "}":
            raise ValueError(s)
        else:
            lit += s[i]
            i += 1
    if lit:
        out.append(("lit", lit))
    return out


TRAITS = {"": "Display", "?": "Debug", "x?": "Debug", "X?": "Debug", "o": "Octal", "x": "LowerHex", "X": "UpperHex",
          "p": "Pointer", "b": "Binary", "e": "LowerExp", "E": "UpperExp"}


def parse_spec(spec):
    """std::fmt format spec -> (trait, (flags, width, precision))"""
    s = spec
    fill = " "
    align = 3
    AL = {"<": 0, ">": 1, "^": 2}
    if len(s) >= 2 and s[1] in AL:
        fill, align, s = s[0], AL[s[1]], s[2:]
    elif s and s[0] in AL:
        align, s = AL[s[0]], s[1:]
    fl = ord(fill) | align << 29
    if s and s[0] in "+-":
        fl |= 1 << (21 if s[0] == "+" else 22)
        s = s[1:]
    if s.startswith("#"):
        fl |= 1 << 23
        s = s[1:]
    if s.startswith("0"):
        fl |= 1 << 24
        s = s[1:]
    w = p = 0
    d = ""
    while s and s[0].isdigit():
        d += s[0]
        s = s[1:]
    if d:
        w = int(d)
        fl |= 1 << 27
    if s.startswith("."):
        s = s[1:]
        d = ""
        while s and s[0].isdigit():
            d += s[0]
            s = s[1:]
        p = int(d)
        fl |= 1 << 28
    if s == "x?":
        fl |= 1 << 25
    if s == "X?":
        fl |= 1 << 26
    return TRAITS[s], (fl, w, p)


DEFSPEC = parse_spec("")[1]

STYLES = {
    # style: (first word's first letter, other words' first letter, remaining letters, separator); U upper, l lower
    "none": None,
    "lowercase": ("l", "l", "l", ""), "UPPERCASE": ("U", "U", "U", ""),
    "snake_case": ("l", "l", "l", "_"), "SNAKE_CASE": ("U", "U", "U", "_"),
    "camelCase": ("l", "U", "l", ""), "CamelCase": ("U", "U", "l", ""),
    "kebab-case": ("l", "l", "l", "-"), "KEBAB-CASE": ("U", "U", "U", "-"),
    "Title Case": ("U", "U", "l", " "), "Title case": ("U", "l", "l", " "),
    "title case": ("l", "l", "l", " "), "TITLE CASE": ("U", "U", "U", " "),
}


def style_name(style, ident):
    if ident.startswith("r#"):
        ident = ident[2:]
    st = STYLES[style or "none"]
    if st is None:
        return ident
    words = []
    cur = ""
    prev = "\0"
    for c in ident:
        if not rust_alnum(c):
            if cur:
                words.append(cur)
                cur = ""
            # `prev` is the previous *letter*: kept
            continue
        if "A" <= c <= "Z" and not ("A" <= prev <= "Z") and cur:
            words.append(cur)
            cur = ""
        cur += c
        prev = c
    if cur:
        words.append(cur)

    def cs(c, k):
        if k == "U":
            return c.upper() if "a" <= c <= "z" else c
        return c.lower() if "A" <= c <= "Z" else c
    out = []
    for i, wd in enumerate(words):
        head = st[0] if i == 0 else st[1]
        out.append(cs(wd[0], head) + "".join(cs(c, st[2]) for c in wd[1:]))
    return st[3].join(out)


def rust_alnum(c):
    import unicodedata
    cat = unicodedata.category(c)
    return cat[0] == "L" or cat in ("Nd", "Nl", "No") or c.isalpha()


# ------------------------------------------------------------------ reference: Display
# items: ('lit', s) ('fmt', trait, spec, path) ('name', trait?, spec, s) ('with', With, path) ('opt', path, items) ('self', trait, spec)
# path: tuple of keys from the container ('!' marks Some's payload)
def fkey(v, i):
    f = v.fields[i]
    if f.name is None:
        return str(i)
    return f.name[2:] if f.name.startswith("r#") else f.name


def find_field(v, key):
    for i, f in enumerate(v.fields):
        if fkey(v, i) == key:
            return i, f
    raise KeyError(key)


def container_format(w, v):
    t = display_attrs(w.attrs)
    if w.enum:
        va = display_attrs(v.attrs)
        f = va.get("fmt", t.get("fmt"))
        if f is None:
            assert v.kind == "unit", "format required"
            f = "{}"
        return f
    f = t.get("fmt")
    if f is None:
        assert len(v.fields) == 1
        f = "{" + fkey(v, 0) + "}"
    return f


def variant_style(w, v):
    return display_attrs(v.attrs).get("style", display_attrs(w.attrs).get("style"))


def display_ref(w, v):
    def value(path, da, spec):
        tr, sp = parse_spec(spec)
        if "with" in da:
            return [("with", da["with"], path)]
        return [("fmt", tr, sp, path)]

    def field_items(path, f, spec):
        da = display_attrs(f.attrs)
        if "opt" in da:
            inner = path + ("!",)
            if "fmt" in da:
                return [("opt", path, nested(inner, da))]
            return [("opt", path, value(inner, da, spec))]
        if "fmt" in da:
            return nested(path, da)
        return value(path, da, spec)

    def nested(path, da):
        out = []
        for p in parse_format(da["fmt"]):
            if p[0] == "lit":
                out.append(p)
            elif not p[1]:
                out += value(path, da, p[2])
            else:
                tr, sp = parse_spec(p[2])
                out.append(("fmt", tr, sp, path + tuple(p[1])))
        return out

    out = []
    for p in parse_format(container_format(w, v)):
        if p[0] == "lit":
            out.append(p)
            continue
        keys, spec = p[1], p[2]
        tr, sp = parse_spec(spec)
        if not keys:
            if tr != "Display":
                out.append(("self", tr, sp))
            else:
                assert w.enum
                nm = style_name(variant_style(w, v), v.name)
                out.append(("lit", nm) if sp == DEFSPEC else ("name", sp, nm))
        elif len(keys) == 1:
            _, f = find_field(v, keys[0])
            out += field_items((keys[0],), f, spec)
        else:
            out.append(("fmt", tr, sp, tuple(keys)))
    return out


# ------------------------------------------------------------------ reference: FromStr
def lit_re(s):
    return "".join("\\x{%X}" % ord(c) for c in s)


class Ref:
    """how one struct or variant is parsed"""

    def __init__(self):
        self.literal = ""        # exact text, or None when a regular expression is needed
        self.re = ""
        self.labels = {}         # path -> group name
        self.withs = {}          # group name -> With | 'infer:<ty>'
        self.fields = {}         # path -> conversion
        self.use_default = False
        self.new = None

    def lit(self, s):
        if self.literal is not None:
            self.literal += s
        self.re += lit_re(s)

    def rx(self, s):
        self.literal = None
        self.re += s

    def group(self, path):
        path = tuple(path)
        if path not in self.labels:
            self.labels[path] = "g%d" % len(self.labels)
        return self.labels[path]


def map_captures(r, fn):
    """rewrite named groups of a user regex; fn(name) -> replacement prefix or ('subst', text)"""
    out = ""
    i = 0
    incls = 0
    n = 0
    while i < len(r):
        c = r[i]
        if c == "\\":
            out += r[i:i + 2]
            i += 2
            continue
        if incls:
            if c == "[":
                incls += 1
            elif c == "]":
                incls -= 1
            out += c
            i += 1
            continue
        if c == "[":
            incls = 1
            out += c
            i += 1
            if r.startswith("^", i):
                out += "^"
                i += 1
            if r.startswith("]", i):
                out += "]"
                i += 1
            continue
        for pre in ("(?P<", "(?<"):
            if r.startswith(pre, i):
                j = r.index(">", i)
                name = r[i + len(pre):j]
                n += 1
                rep = fn(name)
                if rep[0] == "subst":
                    # skip the group's body
                    depth = 1
                    k = j + 1
                    while depth:
                        if r[k] == "\\":
                            k += 2
                            continue
                        if r[k] == "(":
                            depth += 1
                        elif r[k] == ")":
                            depth -= 1
                        k += 1
                    out += rep[1]
                    i = k
                else:
                    out += rep[1]
                    i = j + 1
                break
        else:
            out += c
            i += 1
    return out, n


def split_name(n):
    return tuple(k[2:] if k.startswith("r#") else k for k in n.split(".")) if n else ()


def fromstr_ref(w, v):
    R = Ref()
    td, tf = display_attrs(w.attrs), fromstr_attrs(w.attrs)
    vd, vf = (display_attrs(v.attrs), fromstr_attrs(v.attrs)) if w.enum else (td, tf)
    infer_c = bool(tf.get("regex_infer") or vf.get("regex_infer"))
    style = variant_style(w, v) if w.enum else None

    def fattrs(f):
        d, s = display_attrs(f.attrs), fromstr_attrs(f.attrs)
        wt = s.get("with", d.get("with"))
        if wt is None and (infer_c or s.get("regex_infer")):
            wt = "infer"
        return d, s, wt

    def push_field(key):
        i, f = find_field(v, key)
        d, s, wt = fattrs(f)
        sub = Ref()
        sub.labels = R.labels
        sub.withs = R.withs
        field_body(sub, (key,), f, d, s, wt)
        if d.get("opt"):
            R.rx("(?:" + sub.re + ")??")
        elif sub.literal is not None:
            R.lit(sub.literal)
        else:
            R.rx(sub.re)

    def field_body(o, path, f, d, s, wt):
        if "regex" in s:
            txt, n = map_captures(s["regex"], lambda nm: ("g", "(?P<" + o.group(path + split_name(nm)) + ">"))
            if n:
                o.rx("(?:" + txt + ")")
                return
            if "fmt" in d:
                for p in parse_format(d["fmt"]):
                    if p[0] == "lit":
                        o.lit(p[1])
                    elif not p[1]:
                        o.rx(f"(?P<{o.group(path)}>{s['regex']})")
                    else:
                        o.rx(f"(?P<{o.group(path + tuple(p[1]))}>{ANY})")
                return
            o.rx(f"(?P<{o.group(path)}>{s['regex']})")
            return
        for p in parse_format(d.get("fmt", "{}")):
            if p[0] == "lit":
                o.lit(p[1])
            elif not p[1]:
                g = o.group(path)
                o.rx(f"(?P<{g}>{ANY})")
                if wt is not None:
                    o.withs[g] = ("infer", path) if wt == "infer" else (wt, path)
            else:
                o.rx(f"(?P<{o.group(path + tuple(p[1]))}>{ANY})")

    def push_regex(r):
        def rep(nm):
            if nm == "":
                assert w.enum
                return ("subst", "(?:" + lit_re(style_name(style, v.name)) + ")")
            return ("g", "(?P<" + R.group(split_name(nm)) + ">")
        txt, _ = map_captures(r, rep)
        R.rx("(?:" + txt + ")")

    def push_format(fmt):
        for p in parse_format(fmt):
            if p[0] == "lit":
                R.lit(p[1])
            elif not p[1]:
                R.lit(style_name(style, v.name))
            elif len(p[1]) == 1:
                push_field(p[1][0])
            else:
                R.rx(f"(?P<{R.group(tuple(p[1]))}>{ANY})")

    if w.enum:
        if "regex" in vf:
            push_regex(vf["regex"])
        elif "fmt" in vd:
            push_format(vd["fmt"])
        elif "regex" in tf:
            push_regex(tf["regex"])
        elif "fmt" in td:
            push_format(td["fmt"])
        else:
            push_format("{}")
    else:
        if "regex" in tf:
            push_regex(tf["regex"])
        else:
            push_format(container_format(w, v))
    R.new = vf.get("new")
    R.use_default = bool(vf.get("default"))
    dflt = set(tf.get("default_fields", [])) | set(vf.get("default_fields", []))
    for i, f in enumerate(v.fields):
        k = fkey(v, i)
        d, s, wt = fattrs(f)
        deep = {p[1:]: g for p, g in R.labels.items() if p[0] == k and len(p) > 1}
        own = R.labels.get((k,))
        if own is not None:
            conv = ("with", own, wt, f.ty) if wt not in (None, "infer") else ("parse", own, f.ty)
            if d.get("opt"):
                conv = ("opt", own, conv)
        elif s.get("default") or k in dflt:
            conv = ("default", f.ty)
        elif R.use_default:
            conv = ("sdefault", i)
        else:
            raise ValueError("field %s does not appear" % k)
        R.fields[k] = (conv, deep)
    return R
