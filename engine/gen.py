"""Random witness types.  Every generated type is one the documentation allows; the seed decides which ones."""
import random

from model import D, F, S, Var, W, WA, WB, With, new, parse_format, parse_spec, style_name

NAMES = ["a", "b", "x", "y", "id", "value", "name_1", "_u", "zz9", "r#type", "r#fn", "r#match", "longer_name", "k2", "n", "w", "e", "m",
         "Up", "camelCase", "r#in", "__d", "s", "f", "c", "p", "re", "_formatter", "field_value"]
VNAMES = ["A", "B", "Foo", "FooBar", "HTTPServer", "ABc", "X1", "Ab2Cd", "Snake_Case", "r#Self_", "Zed", "IoError", "B2B", "Q_", "_Lead",
          "LongVariantNameHere", "XMLHttp2Request", "a_lower", "ÄÖü", "Été", "É_b", "Aé", "NoÑo", "W9W", "r#yield"]
NUM = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize"]
FLO = ["f32", "f64"]
PLAIN = NUM + FLO + ["String", "char", "bool", "crate::usr::U"]
LITS = ["-", ",", ":", "/", "=", " ", "#", "&", "~", "@", "ab", "Z9", "<", ">", ".", "*", "+", "?", "|", "(", ")", "[", "]", "^", "$", "\\",
        "\\d", "{{", "}}", "{{}}", ".*", "(?i)", "[a-z]", "\n", "\t", "\r\n", "é", "日本", "\"", "'", "//", "a|b", "x{{2}}", "$$", "%", "--", "&&", "~~", "\u00a0"]
STYLES = ["none", "lowercase", "UPPERCASE", "snake_case", "SNAKE_CASE", "camelCase", "CamelCase", "kebab-case", "KEBAB-CASE", "Title Case",
          "Title case", "title case", "TITLE CASE"]
FIELD_RE = ["[0-9]+", "[a-z]*", "\\\\d+|x", "a|b|", "(?:p|q)+", "[^,]*", "(x)(y)?", "[A-Z]{2,3}", "\\\\(z\\\\)", "\\\\[k\\\\]", "(?i:abc)", "[0-9](?:\\\\.[0-9])?"]
FIELD_RE = [r.replace("\\\\", "\\") for r in FIELD_RE]
USES = ["crate::usr::P2", "crate::usr::Q", "crate::usr::P3"]
NPATHS = {"crate::usr::P2": ["x", "y"], "crate::usr::Q": ["0", "1"], "crate::usr::P3": ["p.x", "p.y", "q.0", "q.1", "type", "r#type"]}


class Gen:
    def __init__(self, seed, both=True):
        self.r = random.Random(seed)

    def p(self, x):
        return self.r.random() < x

    def pick(self, xs):
        return self.r.choice(xs)

    def names(self, n):
        return self.r.sample(NAMES, n)

    def vnames(self, n):
        return self.r.sample(VNAMES, n)

    def lit1(self):
        return self.pick(LITS)

    def fieldre(self):
        return self.pick(FIELD_RE)

    def lit(self):
        return "".join(self.lit1() for _ in range(self.r.choice([1, 1, 1, 2, 3])))

    def spec(self, ty):
        """a format specification the type supports"""
        r = self.r
        fa = r.choice(["", "", "<", ">", "^", "*<", "0>", "é^", "_>", ":<", ".^", "+>", "#<", "x>", "\u3000<", "\t>", "日^"])
        num = ty in NUM
        flo = ty in FLO
        sg = r.choice(["", "", "+", "-"])
        al = r.choice(["", "", "#"])
        z = r.choice(["", "", "0"]) if num or flo else ""
        w = r.choice(["", "", "1", "5", "12", "300"])
        pr = r.choice(["", "", ".0", ".3", ".11"])
        if num:
            t = r.choice(["", "", "?", "x?", "X?", "o", "x", "X", "b", "e", "E"])
        elif flo:
            t = r.choice(["", "", "?", "e", "E"])
        else:
            t = r.choice(["", "", "?", "x?", "X?"])
        return fa + sg + al + z + w + pr + t

    def wants(self):
        return self.pick([WA, WB, With("crate::usr::WC(3, \"k\")", "usr::WC")])

    # ---- one field: (F, [placeholder texts], flags)
    def field(self, name, mode, generic=False):
        """mode: set of features allowed ('fs': type also derives FromStr)"""
        r = self.r
        fs = "fs" in mode
        k = r.random()
        key = name if name is not None else None
        attrs = []
        ty = self.pick(PLAIN)
        if generic and self.p(0.6):
            ty = "T"
        ph = "own"
        if k < 0.42:
            pass
        elif k < 0.50:                                   # field format
            attrs.append(D(self.lit() + "{}" + (self.lit() if self.p(0.5) else "")))
        elif k < 0.57:                                   # optional
            attrs.append(D(self.fieldfmt(), opt=True) if self.p(0.6) else D(opt=True))
            if ty != "T" and self.p(0.35):
                w = self.wants()
                attrs[0][1]["with"] = w
            elif fs and ty != "T" and self.p(0.25):
                attrs.append(S(regex_infer=True))
            ty = f"Option<{ty}>"
        elif k < 0.66:                                   # custom format
            w1, w2 = self.wants(), self.wants()
            c = r.random()
            ty = self.pick(PLAIN + ["crate::usr::N", "crate::usr::N"])
            if c < 0.4:
                attrs.append(D(**{"with": w1}))
            elif c < 0.6:
                attrs += [D(**{"with": w1}), S(**{"with": w2})]
                ty = self.pick(PLAIN)
            elif c < 0.75:
                ty = self.pick(PLAIN)
                attrs.append(S(**{"with": w2}))
            else:
                attrs.append(D(self.fieldfmt(), **{"with": w1}))
        elif k < 0.74 and fs:                             # field regex
            attrs.append(S(regex=self.fieldre()))
            if self.p(0.3):
                attrs.append(D(self.lit() + "{}"))
        elif k < 0.80 and fs:
            ty = self.pick([t for t in PLAIN])
            attrs.append(S(regex_infer=True))
        elif k < 0.92:                                    # nested
            ty = self.pick(USES)
            ph = "deep"
        if ph == "own" and fs and ty not in ("T", "Option<T>") and self.p(0.05):
            attrs.append(S(default=True))
        return F(name, ty, *attrs), ph

    def fieldfmt(self):
        a, b = self.lit() if self.p(0.7) else "", self.lit() if self.p(0.5) else ""
        return a + "{}" + b

    def fields(self, n, mode, generic=False):
        named = self.p(0.6)
        names = self.names(n) if named else [None] * n
        out = []
        for i, nm in enumerate(names):
            f, ph = self.field(nm, mode, generic)
            key = nm if nm is not None else str(i)
            out.append((f, ph, key))
        return out

    def keytext(self, k):
        if k.startswith("r#") and self.p(0.5):
            return k[2:]
        return k

    def fmt(self, fl, mode, specs=True):
        """container format over fields; returns (format, fields dropped)"""
        r = self.r
        fs = "fs" in mode
        order = list(fl)
        if self.p(0.6):
            r.shuffle(order)
        s = self.lit() if self.p(0.5) else ""
        used = set()
        for i, (f, ph, key) in enumerate(order):
            k = self.keytext(key)
            if ph == "deep":
                paths = [x for x in NPATHS[f.ty]]
                r.shuffle(paths)
                n = r.choice([1, 1, 2])
                seen = set()
                for pth in paths[:n]:
                    c = pth.replace("r#", "")
                    if c in seen:
                        continue
                    seen.add(c)
                    sp = ":" + self.spec("u32") if specs and self.p(0.2) else ""
                    s += "{" + k + "." + pth + sp + "}" + (self.lit() if self.p(0.9) else "")
                if not any("default" in a[1] for a in f.attrs):
                    f.attrs.append(S(default=True)) if fs else None
                continue
            d = {}
            for kind, a in f.attrs:
                if kind == "display":
                    d.update(a)
            dflt = any(kind == "from_str" and "default" in a for kind, a in f.attrs)
            if dflt and self.p(0.6):
                continue
            sp = ""
            if specs and self.p(0.3) and "fmt" not in d and "with" not in d and "opt" not in d and f.ty not in ("T",):
                sp = self.spec(f.ty)
            elif specs and self.p(0.2) and "with" in d and "fmt" not in d and "opt" not in d:
                sp = r.choice([">4", "<2", "^9.1", "08", "+", "#"])
            s += "{" + k + (":" + sp if sp else "") + "}"
            if i < len(order) - 1 or self.p(0.4):
                s += self.lit() if self.p(0.92) else ""
        return s

    def struct(self, mode, n=None):
        r = self.r
        fs = "fs" in mode
        n = n if n is not None else r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 11, 13])
        generic = self.p(0.15) and n > 0
        fl = self.fields(n, mode, generic)
        attrs = [D(self.fmt(fl, mode))]
        fields = [f for f, _, _ in fl]
        hasT = any("T" == f.ty or f.ty == "Option<T>" for f in fields)
        if generic and not hasT:
            fields[0].ty = "T"
            fields[0].attrs = []
            attrs = [D(self.fmt([(f, "deep" if f.ty in USES else "own", k) for f, _, k in fl], mode, specs=False))]
        derive = ["Display"]
        if fs:
            derive.append("FromStr")
            self.parse_opts(attrs, fl, derive, generic)
        w = W(Var("S", fields), attrs, generics="<T>" if generic else "", derive=tuple(derive))
        if n == 0:
            w.body.kind = self.pick(["unit", "unit", "tuple", "named"])
        return w

    def parse_opts(self, attrs, fl, derive, generic):
        c = self.r.random()
        n = len(fl)
        if c < 0.12 and n and not generic and all(not f.ty.endswith("usr::N") or True for f, _, _ in fl):
            attrs.append(S(default=True))
            derive.append("Default")
        elif c < 0.26 and 0 < n <= 4 and not generic and all(ph == "own" for _, ph, _ in fl):
            args = []
            for f, ph, k in fl:
                args.append(f"{k}: {f.ty}")
            self.r.shuffle(args)
            if True:
                attrs.append(S(new=new(self.pick(["plain", "option", "result"]), *args)))
        if self.p(0.1) and not generic:
            # infer only where every own field has a pattern of its own type
            if all(f.ty in PLAIN for f, ph, _ in fl if ph == "own"):
                attrs.append(S(regex_infer=True))

    def regex_struct(self):
        """a struct whose text is described by a regular expression"""
        r = self.r
        n = r.choice([1, 2, 3, 4, 10])
        named = self.p(0.6)
        fl = []
        names = self.names(n) if named else [None] * n
        for i, nm in enumerate(names):
            k = r.random()
            ty = self.pick(PLAIN)
            at = []
            if k < 0.15:
                ty = self.pick(USES)
                at.append(S(default=True))
            elif k < 0.3:
                ty = f"Option<{ty}>"
                at.append(D(opt=True))
            elif k < 0.4:
                at.append(S(**{"with": self.wants()}))
            fl.append((F(nm, ty, *at), nm if nm is not None else str(i)))
        order = list(fl)
        r.shuffle(order)
        s = ""
        if self.p(0.2):
            s += "(?i)" if self.p(0.3) else "(pre)?"
        for f, k in order:
            kk = k
            if f.ty in USES:
                kk = k + "." + self.pick([p for p in NPATHS[f.ty] if "r#" not in p])
            if kk.startswith("r#"):
                kk = kk[2:]
            P = self.pick(["", "P"])
            g = f"(?{P}<{kk}>{self.pick(['[0-9]+', '.*', '[a-z]*?', 'a|b', '(x|y)z', '[^-]*'])})"
            if f.ty.startswith("Option") or self.p(0.15):
                g = f"(?:x{g})?"
            s += g + self.pick(["", "-", ",", "\\.", "\\(", "(u|v)", "[()]", "\\\\", "(?:t(k))?", "\\\\\\(", "[(?<]", "[](?<a>]", "[^\\](?P<zz>]", "\\[(?:z)?"])
        attrs = [S(regex=s)]
        if self.p(0.3) and named and n <= 3 and all(f.ty not in USES for f, _ in fl):
            attrs.append(S(new=new(self.pick(["plain", "option", "result"]), *[f"{k}: {f.ty}" for f, k in fl])))
        derive = ["FromStr"]
        if self.p(0.15):
            attrs.append(S(default=True))
            derive.append("Default")
        return W(Var("S", [f for f, _ in fl]), attrs, derive=tuple(derive))

    def enum(self, mode):
        r = self.r
        fs = "fs" in mode
        n = r.choice([1, 2, 3, 3, 4, 5])
        names = self.vnames(n)
        attrs = []
        if self.p(0.6):
            attrs.append(D(style=self.pick(STYLES)))
        tfmt = self.p(0.15)
        if tfmt:
            attrs.append(D(self.lit() + "{" + self.pick(["", "", ":>9", ":<3", ":.2"]) + "}" + (self.lit() if self.p(0.5) else "")))
        vs = []
        generic = self.p(0.12)
        infer = False
        for i, nm in enumerate(names):
            vat = []
            if self.p(0.25):
                vat.append(D(style=self.pick(STYLES)))
            k = r.random()
            fl = []
            if k < 0.45:
                if self.p(0.3):
                    vat.append(D(self.pick([self.lit(), self.lit() + "{}", "{:>6}" + self.lit(), "{}" + self.lit() + "{}", ""])))
            else:
                fl = self.fields(r.choice([1, 1, 2, 3]), mode, generic)
                if fs and self.p(0.12) and all(ph == "own" for _, ph, _ in fl):
                    s = self.pick(["", "(?<>)", "(?P<>)=?"])
                    for f, ph, key in fl:
                        f.attrs = [a for a in f.attrs if a[0] == "display" and "with" in a[1] or "default" in a[1]]
                        if f.ty.startswith("Option"):
                            f.ty = self.pick(NUM)
                            f.attrs = [S(default=True)] if any("default" in a[1] for a in f.attrs) else []
                        s += f"(?<{key[2:] if key.startswith('r#') else key}>{self.pick(['[0-9]+', '.+', 'a|b'])})" + self.pick(["", ";", "(q)?"])
                    vat.append(S(regex=s))
                    vat.append(D(self.fmt(fl, mode)))
                else:
                    f = self.fmt(fl, mode)
                    if self.p(0.3):
                        f = "{}" + self.lit() + f
                    vat.append(D(f))
                if fs and self.p(0.15) and not generic and all(ph == "own" for _, ph, _ in fl):
                    args = [f"{kk}: {f.ty}" for f, _, kk in fl]
                    if True:
                        vat.append(S(new=new(self.pick(["plain", "option", "result"]), *args)))
                if fs and self.p(0.08) and all(f.ty in PLAIN for f, ph, _ in fl if ph == "own"):
                    vat.append(S(regex_infer=True))
            if fs and self.p(0.1):
                vat.append(S(ignore=True))
            vs.append(Var(nm, [f for f, _, _ in fl], vat))
        if generic and not any(f.ty in ("T", "Option<T>") for v in vs for f in v.fields):
            vs.append(Var("Gen", [F(None, "T")], [D("gen {0}")]))
        w = W(vs, attrs, generics="<T>" if generic else "", derive=("Display", "FromStr") if fs else ("Display",))
        return w

    def witness(self):
        k = self.r.random()
        mode = {"fs"} if self.p(0.75) else set()
        for _ in range(60):
            try:
                if k < 0.45:
                    w = self.struct(mode)
                elif k < 0.6:
                    w = self.regex_struct()
                else:
                    w = self.enum(mode)
                if "FromStr" not in w.derive:
                    for v in (w.body if w.enum else [w.body]):
                        v.attrs = [a for a in v.attrs if a[0] == "display"]
                        for f in v.fields:
                            f.attrs = [a for a in f.attrs if a[0] == "display"]
                if self.valid(w):
                    return w
            except ValueError:
                pass
        raise RuntimeError("generator")

    def valid(self, w):
        import model
        # two variants written the same way: the second arm is unreachable (a warning in the user's code, not our concern)
        if w.enum and "FromStr" in w.derive:
            seen = set()
            for v in w.body:
                if model.fromstr_attrs(v.attrs).get("ignore"):
                    continue
                R = model.fromstr_ref(w, v)
                # nor two variants parsed by the same pattern: the second one is never reached if the conversions agree
                key = R.literal if R.literal is not None else ("re", R.re)
                if key in seen:
                    return False
                seen.add(key)
        elif "FromStr" in w.derive:
            model.fromstr_ref(w, w.body)
        return True


def witnesses(seed, n):
    g = Gen(seed)
    return [g.witness() for _ in range(n)]
