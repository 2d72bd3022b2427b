"""Random witness types with a richer vocabulary (names, literals, specifications, regular expressions), and random
witness types written for one property: any disagreement on those counts for that property, so each generator keeps to
what the property speaks about."""
import random
import unicodedata

from gen import FLO, FIELD_RE, LITS, NAMES, NPATHS, NUM, PLAIN, STYLES, VNAMES, Gen
from model import D, F, S, Var, W, WA, WB, With, new

NP = {t: [p for p in ps if "r#" not in p] for t, ps in NPATHS.items()}
NP["crate::usr::P4"] = ["n.p.x", "n.p.y", "n.q.0", "n.q.1", "n.type", "a_b.0", "a_b.1", "é", "fn.x", "fn.y"]
WHOLE = {"crate::usr::P2": [], "crate::usr::Q": [], "crate::usr::P3": ["p", "q"], "crate::usr::P4": ["n", "n.p", "n.q", "a_b", "fn"]}
KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super
trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen union raw safe auto
default macro_rules str Ok Err Some None""".split())
RAWOK = ["type", "fn", "match", "in", "as", "use", "mod", "ref", "dyn", "async", "loop", "while", "yield", "box", "struct", "enum", "impl", "let", "where", "try", "move"]
LETTERS = [c for c in map(chr, range(0xC0, 0x3000)) if unicodedata.category(c) in ("Lu", "Ll", "Lo", "Lt", "Nl") and ("_" + c).isidentifier() and c.isidentifier()
           and unicodedata.normalize("NFKC", c) == c] + list("日本語漢字가힣𝒜𠀀"[:7])
DIG = list("0123456789")
REGEX_ATOMS = ["[0-9]+", "a", "x", "\\(", "\\)", "\\[", "\\\\", ".", "[a-z]", "(k)", "(?:t)", "[](?<q>]", "[^)(]", "\\d", "\\pL", "\\p{Greek}", "\\x41", "\\x{e9}", "é", "日+", "(?i:z)",
               "(?s-i:.)", "^", "$", "\\b", "-", ",", "\\.", "\\{", "\\}", "u{2}", "u{0}", "v{1,3}?", "w{0,}", "\\w*?", "\\S+", "[[:alpha:]]", "[a-z&&[^q]]", "[\\](?<b>]", "\\\\\\\\", "\\?<", "<", ">",
               "(?:)", "(()|())", "[^\\]]", "[(?<>)]", "\\(?", "/", "#", " ", "\"", "(?:a|)", "[α-ω]", "\\u{1F600}", "\\n", "\\t?", "~", "&&", "--", "=", "\\A", "\\z", "(?m:^)", "(?U:a*)"]


def marks(s):
    """combining marks: not allowed in a group's name, and neither letter nor separator to every style"""
    return any(unicodedata.category(c)[0] == "M" for c in s)


class Focus(Gen):
    # ------------------------------------------------------------------ vocabulary
    def letter(self):
        r = self.r.random()
        if r < 0.8:
            return self.r.choice("abcdefghijklmnopqrstuvwxyz")
        if r < 0.9:
            return self.r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
        return self.r.choice(LETTERS)

    def ident(self, upper=False):
        while True:
            k = self.r.random()
            if k < 0.06 and not upper:
                return "r#" + self.r.choice(RAWOK)
            n = self.r.choice([1, 1, 2, 3, 4, 7, 12])
            s = ""
            for i in range(n):
                q = self.r.random()
                s += self.letter() if q < 0.7 else self.r.choice(DIG) if q < 0.85 else "_" if q < 0.95 else self.letter().upper()[:1]
            if upper:
                s = self.r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") + s if self.p(0.9) else s
            elif self.p(0.1):
                s = "_" * self.r.choice([1, 1, 2]) + s
            if self.p(0.08):
                s += "_" * self.r.choice([1, 1, 2])
            if s in KEYWORDS or marks(s) or not s.isidentifier() or not any(c.isalnum() for c in s) or unicodedata.normalize("NFKC", s) != s:
                continue
            if s[0] == "_" and s.strip("_").isdigit():      # the spelling of a tuple field's variable in `new`
                continue
            return s

    def names(self, n):
        """distinct field names, some of which extend or resemble others"""
        out = []
        while len(out) < n:
            k = self.r.random()
            if out and k < 0.3:
                b = self.r.choice(out)
                b = b[2:] if b.startswith("r#") else b
                x = self.r.choice([b + "_", b + "0", "_" + b, b + b, b + "_x", b + "1", b[:-1], b[1:], b.upper(), b.lower(), b + self.letter()])
                if not x.isidentifier() or x in KEYWORDS or marks(x) or unicodedata.normalize("NFKC", x) != x or not any(c.isalpha() for c in x):
                    continue
            elif k < 0.5:
                x = self.r.choice(NAMES)
            else:
                x = self.ident()
            b = x[2:] if x.startswith("r#") else x
            if b not in [y[2:] if y.startswith("r#") else y for y in out]:
                out.append(x)
        return out

    def vnames(self, n):
        out, low = [], set()
        while len(out) < n:
            x = self.r.choice(VNAMES) if self.p(0.3) else self.words()
            if x not in out and x.lower() not in low:
                low.add(x.lower())
                out.append(x)
        return out

    def words(self):
        """a variant name: words in any capitalisation, digits, underscores"""
        while True:
            s = ""
            for _ in range(self.r.choice([1, 1, 2, 2, 3, 4])):
                w = "".join(self.letter() for _ in range(self.r.choice([1, 2, 3, 5])))
                k = self.r.random()
                w = w.capitalize() if k < 0.5 else w.upper() if k < 0.7 else w.lower() if k < 0.8 else w
                if self.p(0.2):
                    w += self.r.choice(DIG)
                s += w + ("_" * self.r.choice([1, 1, 1, 2]) if self.p(0.2) else "")
            if self.p(0.06):
                s = "_" + s
            if s in KEYWORDS or not s.isidentifier() or unicodedata.normalize("NFKC", s) != s or len(s) > 40 or marks(s):
                continue
            return s

    def anychar(self):
        while True:
            k = self.r.random()
            c = chr(self.r.randrange(0x20, 0x7F)) if k < 0.6 else chr(self.r.randrange(0x20)) if k < 0.65 else chr(self.r.randrange(0x7F, 0x250)) if k < 0.78 else \
                chr(self.r.randrange(0x250, 0x10000)) if k < 0.93 else chr(self.r.randrange(0x10000, 0x1F700))
            # (characters that change the direction of text in a literal are refused by a lint)
            if not 0xD800 <= ord(c) < 0xE000 and not 0x202A <= ord(c) <= 0x202E and not 0x2066 <= ord(c) <= 0x2069:
                return c

    def lit1(self):
        k = self.r.random()
        if k < 0.45:
            return self.pick(LITS)
        s = "".join(self.anychar() for _ in range(self.r.choice([1, 1, 2, 3, 8])))
        return s.replace("{", "{{").replace("}", "}}")

    def fill(self):
        while True:
            c = self.anychar()
            if c not in "{}\n":
                return c

    def spec(self, ty):
        r = self.r
        fa = r.choice(["", "<", ">", "^", self.fill() + "<", self.fill() + ">", self.fill() + "^"])
        num, flo = ty in NUM, ty in FLO
        sg, al = r.choice(["", "", "+", "-"]), r.choice(["", "", "#"])
        z = r.choice(["", "", "0"]) if num or flo else ""
        w = r.choice(["", "", str(r.choice([1, 2, 7, 9, 10, 12, 31, 64, 99, 100, 127, 128, 200, 255, 256, 257, 300, 999, 1000, 1024, 4096, 9999, 10000, 32767, 32768, 65534, 65535, r.randrange(1, 65536)]))])
        pr = r.choice(["", "", "." + str(r.choice([0, 1, 2, 9, 10, 17, 99, 100, 127, 128, 254, 255, 256, 257, 511, 999, 1000, 4095, 9999, 32768, 65535, r.randrange(65536)]))])
        t = r.choice(["", "", "?", "x?", "X?", "o", "x", "X", "b", "e", "E"] if num else ["", "", "?", "e", "E"] if flo else ["", "", "?", "x?", "X?"])
        return fa + sg + al + z + w + pr + t

    # ------------------------------------------------------------------ regular expressions
    def group(self, k):
        return "(?%s<%s>" % (self.pick(["", "P"]), k)

    def rx(self, keys, depth=3):
        """a regular expression with one group for each key, anywhere ('' stands for the variant's name)"""
        r = self.r
        keys = list(keys)
        r.shuffle(keys)
        k = r.random()
        if depth == 0 or k < 0.3:
            out = []
            for x in keys:
                out += [self.pick(REGEX_ATOMS)] if self.p(0.4) else []
                out.append(self.group(x) + (self.pick(REGEX_ATOMS) if x else "") + ")")
            if self.p(0.5):
                out.append(self.pick(REGEX_ATOMS))
            return "".join(out)
        if k < 0.45:                                                  # in a row
            c = r.randrange(len(keys) + 1)
            return self.rx(keys[:c], depth - 1) + self.rx(keys[c:], depth - 1)
        if k < 0.65:                                                  # branches
            n = r.choice([2, 2, 3])
            parts = [[] for _ in range(n)]
            for x in keys:
                r.choice(parts).append(x)
            return self.pick(["(?:%s)", "(%s)", "(?:%s)"]) % "|".join(self.rx(p, depth - 1) for p in parts)
        if k < 0.8:                                                   # repeated
            return "(?:%s)%s" % (self.rx(keys, depth - 1), self.pick(["?", "*", "+", "{2}", "{0,2}", "??", "*?", "+?", "{1,}", "{1}", "{0,1}"]))
        named = [x for x in keys if x]
        if k < 0.93 and named:                                        # a group in a group
            x = r.choice(named)
            keys.remove(x)
            return self.group(x) + self.rx(keys, depth - 1) + ")"
        return self.pick(["(%s)", "(?i:%s)", "(?s:%s)", "(?:(%s))", "(?-i:%s)"]) % self.rx(keys, depth - 1)

    def rx1(self, keys):
        return self.rx([k.replace("r#", "") for k in keys])

    def rkey(self, nm, i):
        if nm is None:
            return str(i)
        return nm[2:] if nm.startswith("r#") else nm

    # ------------------------------------------------------------------ attributes arranged another way
    def arrange(self, attrs):
        """the same options, split over other attributes (the last setting of an option counts)"""
        out = []
        for kind, k in attrs:
            items = list(k.items())
            if len(items) > 1 and self.p(0.4):
                fmt = [x for x in items if x[0] == "fmt"]
                rest = [x for x in items if x[0] != "fmt"]
                self.r.shuffle(rest)
                parts = fmt + rest
                self.r.shuffle(parts)
                out += [(kind, {n: v}) for n, v in parts]
            else:
                out.append((kind, k))
        # neighbours of one kind joined
        i = 0
        while i + 1 < len(out):
            (k1, a), (k2, b) = out[i], out[i + 1]
            if k1 == k2 and not set(a) & set(b) and self.p(0.35) and not ("fmt" in b and "fmt" not in a and not self.p(0)):
                out[i:i + 2] = [(k1, {**a, **b})]
            else:
                i += 1
        # the two kinds in any order
        if self.p(0.3):
            out = [x for x in out if x[0] == "from_str"] + [x for x in out if x[0] == "display"]
        return out

    def rearrange(self, w):
        w.attrs = self.arrange(w.attrs)
        for v in (w.body if w.enum else [w.body]):
            if w.enum:
                v.attrs = self.arrange(v.attrs)
            for f in v.fields:
                f.attrs = self.arrange(f.attrs)
        return w

    # ------------------------------------------------------------------ one property each
    def c05(self):
        """values meet their fields, whatever the order, number, names and depth"""
        r = self.r
        fs = self.p(0.8)
        rg = fs and self.p(0.4)

        def body(vn):
            n = r.choice([1, 2, 3, 4, 5, 9, 10, 11, 12, 20, 30] if not rg else [1, 2, 3, 4, 8])
            named = self.p(0.6)
            names = self.names(n) if named else [None] * n
            fl, keys = [], []
            for i, nm in enumerate(names):
                k = self.rkey(nm, i)
                if self.p(0.3):
                    ty = self.pick(sorted(NP))
                    fl.append(F(nm, ty, *([S(default=True)] if fs else [])))
                    ps = list(NP[ty]) + WHOLE[ty]
                    if not fs:
                        ps = list(NP[ty])
                    ps = [k + "." + p for p in r.sample(ps, r.choice([1, 1, 2, 3]) if len(ps) > 2 else 1)]
                    if fs and "Display" not in derive and self.p(0.4):
                        ps.append(k)
                    keys += ps
                else:
                    fl.append(F(nm, self.pick(PLAIN)))
                    keys.append(k)
            if named and self.p(0.2) and not rg and "Display" in derive and not fs:
                keys += r.sample(keys, min(2, len(keys)))
            r.shuffle(keys)
            return fl, keys
        # user structs have no Display of their own: whole ones only where FromStr is derived alone
        derive = ("Display", "FromStr") if fs and not rg and self.p(0.6) else ("FromStr",) if fs else ("Display",)
        ok = lambda keys: [k for k in keys if "Display" not in derive or not self.isblock(k)]
        vs = []
        for vn in (self.vnames(r.choice([1, 2, 3])) if self.p(0.4) else [None]):
            while True:
                fl, keys = body(vn)
                self.types = {self.rkey(f.name, i): f.ty for i, f in enumerate(fl)}
                keys = ok(keys)
                # every plain field needs its place
                have = {k.split(".")[0] for k in keys}
                if all(self.rkey(f.name, i) in have or any(a[1].get("default") for a in f.attrs) or not fs for i, f in enumerate(fl)):
                    break
            if rg:
                at = S(regex=(vn or "") * bool(vn and vn.isascii()) + self.rx1(keys))
            else:
                at = D((vn or "") + "".join("{" + k + "}" + (self.pick(["-", ",", "/", " ", ""])) for k in keys))
            vs.append(Var(vn or "S", fl, [at] if vn else [], kind="unit" if not fl else None))
            top = [] if vn else [at]
        return W(vs if vs[0].name != "S" else vs[0], top if vs[0].name == "S" else [], derive=derive)

    def isblock(self, k):
        ty = self.types.get(k.split(".")[0])
        rest = k.split(".", 1)[1] if "." in k else ""
        return (ty in WHOLE and not rest) or (ty in WHOLE and rest in WHOLE[ty])

    def c13(self):
        r = self.r
        if self.p(0.75):
            n = r.choice([1, 1, 2, 3])
            fl = [F(nm, self.pick(PLAIN)) for nm in (self.names(n) if self.p(0.6) else [None] * n)]
            s = ""
            own = r.randrange(n) if self.p(0.2) else None
            for _ in range(r.choice([2, 4, 6])):
                i = r.randrange(n)
                sp = self.spec(fl[i].ty) if i != own else ""
                s += "{" + self.rkey(fl[i].name, i) + (":" + sp if sp else "") + "}" + self.pick(["", "|", "-"])
            if own is not None:
                sp = self.spec(fl[own].ty)
                fl[own].attrs.append(D("<{" + (":" + sp if sp else "") + "}>"))
            elif self.p(0.2):
                j = r.randrange(n)
                fl[j].ty = "Option<%s>" % fl[j].ty
                fl[j].attrs.append(D(opt=True))
            return W(Var("S", fl), [D(s)], derive=("Display",))
        ns = self.vnames(r.choice([1, 2, 3]))
        vs = []
        for x in ns:
            sp = self.spec("str")
            while sp.endswith("?"):
                sp = self.spec("str")
            vs.append(Var(x, [], [D("{" + (":" + sp if sp else "") + "}" + self.pick(["", "|{}"]))]))
        return W(vs, [D(style=self.pick(STYLES))] if self.p(0.4) else [], derive=("Display",))

    def c12(self):
        r = self.r
        n = r.choice([4, 8, 16])
        st = self.pick(STYLES + [None])
        vs = []
        fs = self.p(0.7)
        for x in self.vnames(n):
            at = [D(style=self.pick(STYLES))] if self.p(0.2) else []
            fl = []
            if self.p(0.2):
                fl = [F(None, "u8")]
                at.append(D("{}={0}") if not fs or self.p(0.6) else S(regex="(?<0>[0-9])" + self.pick(["", "x|", "(?:y|q)*"]) + "(?<>)"))
                if at[-1][0] == "from_str":
                    at.append(D("{}={0}"))
            elif self.p(0.2):
                at.append(D(self.pick(["<{}>", "{}{}", "{}:", "x{}"])))
            vs.append(Var(x, fl, at))
        return W(vs, [D(style=st)] if st else [], derive=("Display", "FromStr") if fs else ("Display",))

    def c20(self):
        """regular expressions of structs, variants, enums and fields"""
        r = self.r
        k = r.random()
        if k < 0.45:
            n = r.choice([0, 1, 2, 3, 4, 6])
            nm = self.names(n) if self.p(0.65) else [None] * n
            fl = [F(x, self.pick(PLAIN)) for x in nm]
            return W(Var("S", fl), [S(regex=self.rx([self.rkey(x, i) for i, x in enumerate(nm)]))], derive=("FromStr",))
        if k < 0.75:
            vs = []
            shared = self.p(0.3)
            sn = self.names(r.choice([0, 1, 2])) if shared else None
            for x in self.vnames(r.choice([1, 2, 3, 5])):
                n = len(sn) if shared else r.choice([0, 0, 1, 2, 3])
                nm = sn if shared else self.names(n) if self.p(0.6) else [None] * n
                fl = [F(y, self.pick(PLAIN)) for y in nm]
                keys = [self.rkey(y, i) for i, y in enumerate(nm)]
                at = []
                if not shared or self.p(0.3):
                    at.append(S(regex=str(len(vs)) + self.rx(keys + ([""] if self.p(0.6) else []))))
                if self.p(0.25):
                    at.append(D(style=self.pick(STYLES)))
                vs.append(Var(x, fl, at))
            top = [S(regex=self.rx([self.rkey(y, 0) for y in sn] + [""]))] if shared else []
            if self.p(0.5):
                top.append(D(style=self.pick(STYLES)))
            return W(vs, top, derive=("FromStr",))
        n = r.choice([1, 2, 3])
        nm = self.names(n) if self.p(0.65) else [None] * n
        fl = []
        for x in nm:
            f = F(x, self.pick(PLAIN))
            if self.p(0.8):
                inner = [""] if self.p(0.3) else []
                f.attrs.append(S(regex=self.rx(inner)))
                if not inner and self.p(0.3):
                    f.attrs.append(D(self.lit() + "{}" + self.lit()))
            fl.append(f)
        keys = ["{" + self.rkey(x, i) + "}" for i, x in enumerate(nm)]
        r.shuffle(keys)
        return W(Var("S", fl), [D("".join(x + self.pick(["-", ",", ""]) for x in keys))], derive=("FromStr",) if self.p(0.5) else ("Display", "FromStr"))

    def c03(self):
        r = self.r
        if self.p(0.6):
            n = r.choice([0, 1, 2, 3])
            nm = self.names(n) if self.p(0.65) else [None] * n
            fl = []
            for x in nm:
                ty = self.pick(PLAIN)
                f = F(x, ty)
                k = r.random()
                if k < 0.25:
                    f.attrs.append(D(self.lit() + "{}" + self.lit()))
                elif k < 0.4:
                    f.ty = "Option<%s>" % ty
                    f.attrs.append(D(self.lit() + "{}" + self.lit(), opt=True))
                fl.append(f)
            return W(Var("S", fl, kind=None if n else self.pick(["unit", "named", "tuple"])), [D(self.lit() + "".join("{" + self.rkey(x, i) + "}" + self.lit() for i, x in enumerate(nm)))],
                     derive=("Display", "FromStr"))
        vs = []
        for i, x in enumerate(self.vnames(r.choice([1, 2, 4]))):
            if self.p(0.5):
                vs.append(Var(x, [], [D("%d" % i + self.lit() + self.pick(["", "{}"]))]))
            else:
                vs.append(Var(x, [F(None, self.pick(PLAIN))], [D("%d" % i + self.lit() + "{0}" + self.lit())]))
        return W(vs, derive=("Display", "FromStr"))

    def c07(self):
        """many variants: which one, in which order"""
        r = self.r
        n = r.choice([2, 3, 5, 8, 14, 26])
        vs = []
        style = self.pick(STYLES + [None] * 6)
        for i, x in enumerate(self.vnames(n)):
            at, fl = [], []
            k = r.random()
            if k < 0.35:
                pass
            elif k < 0.5:
                at.append(D(self.pick([self.lit() + str(i), "{}" + self.lit(), "<{}>"])))
            elif k < 0.85:
                m = r.choice([1, 1, 2])
                nm = self.names(m) if self.p(0.5) else [None] * m
                fl = [F(y, self.pick(PLAIN)) for y in nm]
                at.append(D(self.pick(["", "", "%d:" % i, "{}=", "v"]) + "/".join("{" + self.rkey(y, j) + "}" for j, y in enumerate(nm))))
            else:
                at.append(S(regex="%d" % i + self.rx([])))
            if self.p(0.2):
                at.append(S(ignore=True))
            vs.append(Var(x, fl, at))
        return W(vs, [D(style=style)] if style else [], derive=("Display", "FromStr") if self.p(0.7) else ("FromStr",))

    def c08(self):
        """fields that keep a default, at every level that can say so"""
        r = self.r

        def body(n, top):
            nm = self.names(n) if self.p(0.6) else [None] * n
            fl, fmt, df = [], [], []
            for i, x in enumerate(nm):
                k = self.rkey(x, i)
                c = r.random()
                f = F(x, self.pick(PLAIN))
                if c < 0.35:
                    f.ty = self.pick(sorted(NP))
                    if self.p(0.6) and top:
                        pass
                    else:
                        f.attrs.append(S(default=True))
                    for pth in r.sample(NP[f.ty], r.choice([0, 1, 1, 2])):
                        fmt.append(k + "." + pth)
                elif c < 0.6:
                    if not top or self.p(0.4):
                        if x is not None and self.p(0.25):
                            df.append(x[2:] if x.startswith("r#") and self.p(0) else x)
                        else:
                            f.attrs.append(S(default=True))
                    if self.p(0.3):
                        fmt.append(k)
                else:
                    fmt.append(k)
                    if self.p(0.2):
                        f.attrs.append(S(default=True))
                fl.append(f)
            r.shuffle(fmt)
            return fl, "".join("{" + k + "}" + self.pick(["-", "/", ""]) for k in fmt), [x for x in df if not x.startswith("r#")], [f for f in fl if f.name in df and f.name.startswith("r#")]
        if self.p(0.7):
            top = self.p(0.5)
            fl, fmt, df, raw = body(r.choice([1, 2, 3, 4, 6, 11]), top)
            for f in raw:
                f.attrs.append(S(default=True))
            at = [D(fmt)] + ([S(default=True)] if top else []) + ([S(default_fields=df)] if df else [])
            return W(Var("S", fl), at, derive=("Display", "FromStr", "Default") if top else ("Display", "FromStr"))
        vs = []
        for x in self.vnames(r.choice([2, 3])):
            fl, fmt, df, raw = body(r.choice([1, 2, 3]), False)
            for f in raw:
                f.attrs.append(S(default=True))
            vs.append(Var(x, fl, [D(x + ":" + fmt)] + ([S(default_fields=df)] if df else [])))
        return W(vs, derive=("Display", "FromStr"))

    def c09(self):
        r = self.r

        def body(n):
            nm = self.names(n) if self.p(0.65) else [None] * n
            nm = [x for x in nm] if n else []
            fl = [F(x, self.pick(PLAIN)) for x in nm]
            order = list(range(n))
            r.shuffle(order)
            for f in fl:
                if self.p(0.1):
                    f.attrs.append(S(default=True))
            used = [i for i in order if not any("default" in a[1] for a in fl[i].attrs) or self.p(0.5)]
            args = [f"{nm[i] if nm[i] is not None else i}: {fl[i].ty}" for i in r.sample(range(n), n)]
            return fl, "".join("{" + self.rkey(nm[i], i) + "}" + self.pick(["-", "/"]) for i in used), new(self.pick(["plain", "option", "result"]), *args), \
                [self.rkey(nm[i], i) for i in used]
        if self.p(0.65):
            fl, fmt, nw, keys = body(r.choice([0, 1, 2, 3, 5, 8, 12]))
            if self.p(0.3):
                return W(Var("S", fl), [S(regex=self.rx(keys)), S(new=nw)], derive=("FromStr",))
            return W(Var("S", fl), [D("<" + fmt), S(new=nw)], derive=("Display", "FromStr"))
        vs = []
        for x in self.vnames(r.choice([2, 3, 4])):
            fl, fmt, nw, keys = body(r.choice([0, 1, 2, 3]))
            vs.append(Var(x, fl, [D(x + ":" + fmt)] + ([S(new=nw)] if self.p(0.6) else [])))
        return W(vs, derive=("Display", "FromStr"))

    def c10(self):
        r = self.r

        def body(n):
            nm = self.names(n) if self.p(0.6) else [None] * n
            fl = []
            for x in nm:
                w1, w2 = self.wants(), self.wants()
                k = r.random()
                at, ty = [], self.pick(PLAIN + ["crate::usr::N"])
                if k < 0.3:
                    at = [D(**{"with": w1})]
                elif k < 0.5:
                    at = [D(**{"with": w1}), S(**{"with": w2})]
                elif k < 0.65:
                    at, ty = [S(**{"with": w2})], self.pick(PLAIN)
                elif k < 0.8:
                    at = [D(self.lit() + "{}" + self.lit(), **{"with": w1})]
                else:
                    at, ty = [], self.pick(PLAIN)
                r.shuffle(at)
                if at and self.p(0.15):
                    at.append(D(opt=True))
                    ty = f"Option<{ty}>"
                fl.append(F(x, ty, *at))
            o = list(range(n))
            r.shuffle(o)
            return fl, "".join("{" + self.rkey(nm[i], i) + "}" + self.pick(["-", "/", ""]) for i in o)
        if self.p(0.65):
            fl, fmt = body(r.choice([1, 2, 3, 5, 11]))
            return self.rearrange(W(Var("S", fl), [D(fmt)]))
        vs = []
        for x in self.vnames(r.choice([1, 2, 3])):
            fl, fmt = body(r.choice([1, 2, 3]))
            vs.append(Var(x, fl, [D(x + ":" + fmt)]))
        return self.rearrange(W(vs))

    def c11(self):
        r = self.r

        def body(n):
            nm = self.names(n) if self.p(0.6) else [None] * n
            fl = []
            for x in nm:
                ty = self.pick(PLAIN)
                at = []
                if self.p(0.75):
                    k = r.random()
                    at = [D(opt=True)] if k < 0.4 else [D(self.lit() + "{}" + self.pick(["", self.lit()]), opt=True)]
                    if self.p(0.15):
                        at.append(D(**{"with": self.wants()}))
                    elif self.p(0.15):
                        at.append(S(regex_infer=True))
                    elif self.p(0.15):
                        at.append(S(regex=self.rx([], 1)))
                    if self.p(0.1):
                        at.append(S(default=True))
                    ty = self.pick(["Option<%s>", "Option<%s>", "std::option::Option<%s>", "::core::option::Option<%s>"]) % ty
                fl.append(F(x, ty, *at))
            o = list(range(n))
            r.shuffle(o)
            return fl, "".join("{" + self.rkey(nm[i], i) + "}" + self.pick(["-", "/", ""]) for i in o)
        if self.p(0.65):
            fl, fmt = body(r.choice([1, 2, 3, 5]))
            return self.rearrange(W(Var("S", fl), [D(fmt)]))
        vs = []
        for x in self.vnames(r.choice([1, 2, 3])):
            fl, fmt = body(r.choice([1, 2, 3]))
            vs.append(Var(x, fl, [D(x + ":" + fmt)]))
        return self.rearrange(W(vs))

    def c21(self):
        r = self.r
        I = S(regex_infer=True)

        def body(n):
            nm = self.names(n) if self.p(0.6) else [None] * n
            fl = []
            for x in nm:
                at = []
                k = r.random()
                if k < 0.3:
                    at.append(I)
                elif k < 0.45:
                    at.append(D(**{"with": self.wants()}))
                elif k < 0.55:
                    at.append(S(**{"with": self.wants()}))
                elif k < 0.65:
                    at.append(S(regex=self.pick(FIELD_RE)))
                if self.p(0.2):
                    at.append(D(self.lit() + "{}" + self.lit()))
                if self.p(0.1):
                    at.append(I)
                r.shuffle(at)
                fl.append(F(x, self.pick(PLAIN), *at))
            o = list(range(n))
            r.shuffle(o)
            return fl, "".join("{" + self.rkey(nm[i], i) + "}" + self.pick(["-", "/", ""]) for i in o), [self.rkey(x, i) for i, x in enumerate(nm)]
        if self.p(0.65):
            fl, fmt, keys = body(r.choice([1, 2, 3, 5]))
            at = [I] if self.p(0.4) else []
            if self.p(0.2):
                return W(Var("S", [F(f.name, f.ty, *[a for a in f.attrs if "fmt" not in a[1] and "regex" not in a[1]]) for f in fl]), at + [S(regex=self.rx(keys))], derive=("FromStr",))
            return W(Var("S", fl), [D(fmt)] + at)
        vs = []
        for x in self.vnames(r.choice([1, 2, 3])):
            fl, fmt, _ = body(r.choice([1, 2]))
            vs.append(Var(x, fl, [D(x + ":" + fmt)] + ([I] if self.p(0.3) else [])))
        return W(vs, [I] if self.p(0.25) else [])

    def c22(self):
        """which of several attributes applies"""
        r = self.r
        w = self.pick([self.c22s, self.c22e])()
        return self.rearrange(w)

    def c22s(self):
        r = self.r
        n = r.choice([1, 2, 3])
        nm = self.names(n) if self.p(0.6) else [None] * n
        keys = [self.rkey(x, i) for i, x in enumerate(nm)]
        fl = []
        for x in nm:
            at = []
            for _ in range(r.choice([0, 1, 2, 3])):
                at.append(self.pick([D(self.lit() + "{}"), D(self.lit() + "{}"), S(regex=self.pick(FIELD_RE)), D(**{"with": self.wants()}), S(**{"with": self.wants()})]))
            fl.append(F(x, self.pick(PLAIN), *at))
        top = []
        for _ in range(r.choice([1, 1, 2])):
            r.shuffle(keys)
            top.append(D("".join("{" + k + "}" + self.pick(["-", "/"]) for k in keys)))
        if self.p(0.35):
            for _ in range(r.choice([1, 2])):
                top.append(S(regex=self.rx(keys)))
        r.shuffle(top)
        return W(Var("S", fl), top)

    def c22e(self):
        r = self.r
        n = r.choice([0, 1, 2])
        nm = self.names(n) if self.p(0.5) else [None] * n
        keys = [self.rkey(x, i) for i, x in enumerate(nm)]

        def fm():
            r.shuffle(keys)
            return D(self.pick(["", "{}", "<{}>"]) + self.lit() + "".join("{" + k + "}" + self.pick(["-", "/"]) for k in keys))

        def level(need):
            at = []
            if need or self.p(0.4):
                at += [fm() for _ in range(r.choice([1, 1, 2]))]
            if self.p(0.3):
                at += [D(style=self.pick(STYLES)) for _ in range(r.choice([1, 2]))]
            if self.p(0.25):
                at += [S(regex=self.rx(keys + [""])) for _ in range(r.choice([1, 2]))]
            r.shuffle(at)
            return at
        top = level(self.p(0.5))
        has = any("fmt" in a[1] for a in top)
        vs = []
        for x in self.vnames(r.choice([1, 2, 3, 4])):
            vs.append(Var(x, [F(y, self.pick(PLAIN), *([D(self.lit() + "{}")] if self.p(0.2) else [])) for y in nm], level(not has and n > 0)))
        return W(vs, top)

    def special(self):
        """text made of characters that mean something in a regular expression, in a format string or in braces"""
        s = "".join(self.pick(list(".|()[]{}+*?^$\\\\/-&~#,:<>=!\"' \n\t01aAzé_%") + [self.anychar()]) for _ in range(self.r.choice([1, 1, 1, 2, 2, 3, 4])))
        return s.replace("{", "{{").replace("}", "}}")

    def c19(self):
        """patterns: literal variants of every length beside variants with fields"""
        r = self.r
        if self.p(0.25):
            m = r.choice([0, 1, 1, 2, 3])
            nm = self.names(m) if self.p(0.5) else [None] * m
            fl = [F(y, self.pick(PLAIN), *([S(regex=self.pick(FIELD_RE))] if self.p(0.2) else [])) for y in nm]
            fmt = self.special() + self.special().join("{" + self.rkey(y, j) + "}" for j, y in enumerate(nm)) + self.special()
            return W(Var("S", fl, kind=None if m else self.pick(["unit", "named", "tuple"])), [D(fmt)], derive=("FromStr",) if self.p(0.3) else ("Display", "FromStr"))
        vs, style = [], self.pick(STYLES + [None] * 4)
        n = r.choice([1, 2, 2, 3, 4, 7])
        kinds = [r.choice(["lit", "lit", "name", "field", "field", "regex", "ignore"]) for _ in range(n)]
        if n > 1 and self.p(0.7):
            kinds[0], kinds[-1] = "lit", "field"
            r.shuffle(kinds)
        for x, k in zip(self.vnames(n), kinds):
            at, fl = [], []
            if k == "lit":
                at.append(D(self.special()))
            elif k == "field":
                m = r.choice([1, 1, 2])
                nm = self.names(m) if self.p(0.5) else [None] * m
                fl = [F(y, self.pick(PLAIN)) for y in nm]
                at.append(D(self.special() + self.special().join("{" + self.rkey(y, j) + "}" for j, y in enumerate(nm)) + self.pick(["", self.special()])))
            elif k == "regex":
                at.append(S(regex=self.rx([])))
            elif k == "ignore":
                at.append(S(ignore=True))
                if self.p(0.5):
                    at.append(D(self.special()))
            vs.append(Var(x, fl, at))
        return W(vs, [D(style=style)] if style else [], derive=("Display", "FromStr") if not any(k == "regex" for k in kinds) and self.p(0.5) else ("FromStr",))

    def c02(self):
        """what could reach past the ends of the input: branches, flags and anchors at the top of a pattern"""
        r = self.r
        m = r.choice([0, 1, 1, 2])
        nm = self.names(m) if self.p(0.5) else [None] * m
        keys = [self.rkey(y, j) for j, y in enumerate(nm)]
        if self.p(0.5) and m < 2:
            fl = [F(y, self.pick(["String", "u8", "crate::usr::U"] if False else PLAIN), *([S(regex=self.toprx())] if self.p(0.8) else [])) for y in nm]
            fmt = self.pick(["", self.special(), self.lit()]) + "".join("{" + k + "}" for k in keys) + self.pick(["", self.special(), self.lit()])
            return W(Var("S", fl, kind=None if m else self.pick(["unit", "named", "tuple"])), [D(fmt)], derive=("FromStr",) if self.p(0.3) else ("Display", "FromStr"))
        if self.p(0.5):
            return W(Var("S", [F(y, self.pick(PLAIN)) for y in nm], kind=None if m else self.pick(["unit", "named", "tuple"])), [S(regex=self.toprx(keys))], derive=("FromStr",))
        vs = []
        for x in self.vnames(r.choice([1, 2, 3])):
            k = r.random()
            vs.append(Var(x, [], [] if k < 0.3 else [D(self.special())] if k < 0.5 else [S(regex=self.toprx())]) if k < 0.8 else
                      Var(x, [F(None, self.pick(PLAIN), *([S(regex=self.toprx())] if self.p(0.5) else []))], [D(self.pick(["{0}", self.special() + "{0}", "{0}" + self.special()]))]))
        return W(vs, derive=("FromStr",))

    def toprx(self, keys=()):
        body = [self.rx(list(keys) if i == 0 else [], 1) for i in range(self.r.choice([1, 1, 2, 3]))]
        s = "|".join(body)
        return self.pick(["%s", "%s", "(?m)%s", "(?s)%s", "(?ms)%s", "(?i)%s", "(?R)%s", "(?m:%s)", "^%s", "%s$", "^%s$", "\\A%s\\z", "|%s", "%s|", "(%s)", "(?U)%s", "(?m)^%s$", "(?:)%s", "(?-u)%s" if False else "%s"]) % s

    def rich(self):
        return self.rearrange(Gen.witness(self))

    def one(self, pid):
        mk = getattr(self, pid.lower(), None) or self.rich
        for _ in range(200):
            try:
                w = mk()
                if self.valid(w):
                    return w
            except (ValueError, KeyError, AssertionError):
                pass
        raise RuntimeError("generator " + pid)


def pool(pid, seed, n):
    g = Focus(seed * 7919 + int(pid[1:]))
    out = []
    special = hasattr(Focus, pid.lower())
    for i in range(n):
        w = g.one(pid)
        w.name = "F%d" % i
        w.tags = (pid,) if special else ()
        out.append(w)
    return out
