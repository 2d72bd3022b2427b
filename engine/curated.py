"""Fixed witness types, by topic.  `tags` names the properties a witness was written for: any disagreement on it counts for them."""
import itertools

from gen import STYLES, VNAMES
from model import D, F, S, Var, W, WA, WB, WS, With, new

WC = With('crate::usr::WC(3, "k")', "usr::WC")
U, P2, Q, P3, N = ("crate::usr::" + x for x in ("U", "P2", "Q", "P3", "N"))
META = [".", "*", "+", "?", "|", "(", ")", "[", "]", "^", "$", "\\", "#", "&", "-", "~", " ", "\t", "\n", "\r", "{{", "}}", "/", "\"", "'", "<", ">",
        "!", "%", "@", "`", ",", ";", ":", "=", "_", "0", "k", "K", "ſ", "é", "\u00a0", "\u2028", "\0", "\x7f", "日", "😀"]
DSL = dict(D=D, S=S)


def both():
    return ("Display", "FromStr")


def pool():
    out = []

    def st(tags, fields, *attrs, kind=None, **k):
        out.append(W(Var("S", fields, kind=kind), attrs, tags=tags.split(), **k))

    def en(tags, vs, *attrs, **k):
        out.append(W(vs, attrs, tags=tags.split(), **k))

    def V(name, fields=(), *attrs, kind=None):
        return Var(name, fields, attrs, kind=kind)

    f = F
    # ---------------------------------------------------------------- C01 / C05 fields, orders, paths
    for p in itertools.permutations("abc"):
        st("C01 C05 C27", [f("a", "u8"), f("b", "u16"), f("c", "u32")], D("-".join("{%s}" % x for x in p)))
    st("C01 C05 C27", [f(None, t) for t in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "usize", "isize", "f32")],
       D(",".join("{%d}" % i for i in (12, 3, 11, 0, 10, 1, 9, 2, 8, 4, 7, 5, 6))))
    st("C01 C05 C27", [f(None, "String") for _ in range(12)], D(",".join("{%d}" % i for i in range(12))))
    st("C01 C05 C27", [f(x, "String") for x in "lkjihgfedcba"], D("/".join("{%s}" % x for x in "bdfhjlacegik")))
    en("C01 C05 C27", [V("A", [f(None, "String") for _ in range(11)], D("A" + "|".join("{%d}" % i for i in (10, 9, 1, 0, 2, 8, 3, 7, 4, 6, 5)))),
                       V("B", [f(x, "String") for x in ("a10", "a9", "a1", "a0", "a2")], D("B{a0}-{a1}-{a2}-{a9}-{a10}"))])
    st("C01 C05 C27", [f("r#type", "u8"), f("r#match", "u16"), f("r#fn", "u32")], D("{match}:{r#type}:{fn}"))
    en("C01 C05 C27", [V("A", [f("r#type", "u8"), f("r#in", "u16")], D("{in}:{r#type}")), V("r#B", [f("r#as", "u8")], D("<{as}>"))])
    st("C01 C27", [f("a", "u8")], D("{{{a}}}"))
    st("C01 C27", [f("a", "u8")], D("{{a}}{a}{{}}{{{{"))
    st("C01 C27", [f(None, "u8")], D("}}{{{0}}}{{"))
    st("C01 C27", [], D("{{}}"))
    st("C01 C27", [], D(""))
    st("C01 C27", [], D("a{{b}}c"), kind="named")
    st("C01 C27", [], D("lit.*"), kind="tuple")
    st("C01 C27 C05", [f("a", "u8")])
    st("C01 C27 C05", [f(None, "String")])
    st("C01 C27 C05", [f("r#use", "String")])
    st("C01 C05 C27", [f("a", "T")], generics="<T>")
    st("C01 C05 C27", [f("a", "T"), f("b", "Vec<T>", S(default=True))], D("x{a}"), generics="<T>")
    st("C01", [f("a", "&'a str"), f("b", "&'a &'a T")], D("{b}{a}"), generics="<'a, T>", derive=("Display",))
    st("C01", [f("a", "[u8; N]"), f("b", "u8")], D("{b:?}{a:?}"), generics="<const N: usize>", derive=("Display",))
    st("C01", [f("a", "Box<u8>"), f("b", "std::rc::Rc<String>"), f("c", "&'static dyn core::fmt::Display")], D("{c}{b}{a}{b}"), derive=("Display",))
    st("C01 C05", [f("a", "u8"), f("b", "u16")], D("{a}{b}{a}{a}"), derive=("Display",))
    st("C01 C05 C27", [f("a", P2, S(default=True)), f("b", P2, S(default=True))], D("{a.x}-{b.y}-{a.y}-{b.x}"))
    st("C01 C05 C27", [f("a", P3, S(default=True))], D("{a.p.x}-{a.q.1}-{a.q.0}-{a.type}-{a.p.y}"))
    st("C01 C05 C27", [f(None, Q, S(default=True)), f(None, P3, S(default=True))], D("{1.q.0}-{0.0}-{1.q.1}-{0.1}-{1.p.y}-{1.r#type}"))
    en("C01 C05 C27", [V("A", [f("a", P3, S(default=True)), f("b", Q, S(default=True))], D("A{b.1}-{a.p.x}-{b.0}-{a.type}")),
                       V("B", [f(None, P2, S(default=True)), f(None, "u8")], D("B{0.y}-{1}-{0.x}"))])
    # a field's own format
    st("C01 C05 C27", [f("a", "u8", D("<{}>")), f("b", "u16", D("[{}]"))], D("{b}{a}"))
    st("C01 C05 C27", [f("a", P2, D("{x}/{y}"), S(default=True)), f("x", "u8"), f("y", "u16", D("y{}"))], D("{y}-{x}-{a}"))
    st("C01 C05 C27", [f("x", P3, D("{type}+{p.x}+{q.1}"), S(default=True)), f("r#type", "u8"), f("p", "u16")], D("{p}-{x}-{type}"))
    en("C01 C05 C27", [V("A", [f("x", P2, D("{y}+{x}"), S(default=True)), f("y", "u8", D("={}"))], D("{x}{y}")),
                       V("B", [f(None, Q, D("{1}+{0}"), S(default=True)), f(None, "u8", D("={}"))], D("{}{1}{0}"))])
    st("C01", [f("a", "u8", D("{}{}"))], D("{a}:{a}"), derive=("Display",))
    st("C01 C27", [f("a", "u8", D("")), f("b", "u8", D("lit"))], D("{b}{a}"), derive=("Display",))
    st("C01", [f("a", "u8", D("{}a")), f("b", "Option<u8>", D("b{}b", opt=True))], D("{b}{a}{b}"), derive=("Display",))
    # enums: own format, the enum's, the name
    en("C01 C07 C22 C27", [V("A"), V("Bb", [f(None, "u8", S(default=True))]), V("Cc", [f("a", "u8")], D("{}={a}")), V("D", (), D("own"))], D("x{}y"))
    en("C01 C07 C22 C27", [V("A"), V("B", (), D("{}{}")), V("C", (), D("<{}>")), V("D", (), D(""))])
    en("C01 C07 C27", [V("A", (), kind="tuple"), V("B", (), kind="named"), V("C")], D("[{}]"))
    en("C01 C07 C05", [V("A", [f("a", "u8"), f("b", "u16")]), V("Bx", [f("b", "u8"), f("a", "u32")])], D("{}:{a}-{b}"))
    en("C01 C07 C05", [V("A", [f(None, "u8"), f(None, "u16")]), V("B2", [f(None, "u32"), f(None, "u64")])], D("{}:{1}-{0}"))
    en("C01 C07", [V("OnlyOne")])
    en("C01", [V("r#Type"), V("r#Yes", [f(None, "u8")], D("{}{0}"))])
    en("C07 C02", [], derive=("FromStr",))
    out.append(W([], [], tags=["C01", "C19"], derive=("Display", "FromStr")))
    # ---------------------------------------------------------------- C03 literals at every place, C02 whole input
    for i in range(0, len(META), 4):
        ms = META[i:i + 4]
        m = "".join(ms)
        st("C02 C03 C27", [f("a", "u8"), f("b", "u16", D(m + "{}" + m))], D(m + "{a}" + m + "{b}" + m))
        en("C02 C03 C07 C27", [V("A", (), D("A" + m)), V("B", [f(None, "u8")], D(m + "{0}B" + m)), V("C", [f("x", "Option<u8>", D(m + "{}" + m, opt=True))], D("C{x}"))], D(m + "{}"))
        st("C02 C03", [], D(m))
        st("C02 C03 C20", [f("a", "u8", S(regex="[a-z]"), D(m + "{}" + m)), f("b", "u8", D("{}" + m))], D("{a}" + m + "{b}"))
    st("C02 C03", [f("a", "String")], D("{a}"))
    st("C02", [f("a", "String"), f("b", "String")], D("{a}{b}"))
    st("C02", [f("a", "String")], D("{a}x"))
    st("C02", [f("a", "String")], D("x{a}"))
    st("C02", [f("a", "String")], S(regex="(?<a>.*)"), derive=("FromStr",))
    st("C02", [f("a", "String")], S(regex="(?m)^(?<a>.*)$"), derive=("FromStr",))
    st("C02", [f("a", "String")], S(regex="x(?<a>a|ab)|y"), derive=("FromStr",))
    st("C02", [f("a", "String"), f("b", "String")], S(regex="(?<a>a|ab)(?<b>c|bcd)"), derive=("FromStr",))
    en("C02 C07", [V("A", [f(None, "String")], S(regex="a|b(?<0>.)|c")), V("B", [f(None, "u8")], D("{0}"))], derive=("FromStr",))
    st("C02 C20", [f("a", "u8", S(regex="a|b")), f("b", "u8", S(regex="|c"))], D("{a}{b}"))
    # ---------------------------------------------------------------- C12 styles
    ids = [v for v in VNAMES] + ["A", "AB", "ABC", "AaBb", "Aa1Bb2", "A1", "A1b", "A_B", "A__B", "aB", "HTMLParser", "getHTTP2", "Z9z9Z9", "ǅa", "ªb", "A1B2C3",
                                 "ParseJSON5Now", "X_1_Y", "_Private_", "mixedCase_Snake", "XYZAbc", "ЖжЖж", "ßA", "Ⅷa", "r#Fn", "r#async_Fn"]
    ids = list(dict.fromkeys(ids))
    import model
    for s in STYLES + [None]:
        names = {}
        for x in ids:
            names.setdefault(model.style_name(s, x), x)
        en("C12", [V(x) for n, x in names.items() if n], *([D(style=s)] if s else []))
        en("C12 C27", [V("FooBar", [f(None, "u8")], D("{}({0})"), *([D(style=s)] if s else [])), V("BazQux9"), V("r#Yield_Now", (), D("<{}>"))], D(style="kebab-case"))
        if s:
            en("C12 C22", [V("FooBar", (), D(style=t)) if False else Var("V%sFooBar%d" % ("X" * (i % 3), i), (), [D(style=t)]) for i, t in enumerate(STYLES)], D(style=s))
            en("C12 C03 C20", [V("FooBarBAZ", [f(None, "u8")], S(regex="(?<>)-(?<0>[0-9]+)")), V("HTTPGet1", [f("x", "u8")], S(regex="(?x) (?P<x>[0-9]+) (?P<>) "))],
               D(style=s), derive=("FromStr",))
    en("C12", [V("Aa", (), D("{:>8}")), V("Bb", (), D("{:*^9.2}", style="none")), V("Cc", (), D("{:.1}"))], D(style="SNAKE_CASE"), derive=("Display",))
    # ---------------------------------------------------------------- C13 format parameters
    TS = {"u8": ["", "?", "x?", "X?", "o", "x", "X", "b", "e", "E"], "i64": ["", "?", "x?", "X?", "o", "x", "X", "b", "e", "E"],
          "f64": ["", "?", "e", "E"], "String": ["", "?", "x?", "X?"], "bool": ["", "?"], "char": ["", "?"]}
    for ty, tr in TS.items():
        for pre in ["", "<", ">", "^", "*^", "}<"[1:], "+", "-", "#", "0", "5", "05", "#010", "*>+#08", "é<7", ".3", "8.3", "=^+#012.4", "+<5", "#>6", "0>4", "?>5", ".>5", "1<2", "$^3", " <3", "\u3000>4", "\t<5", "\u00a0^6", "\u2003>5", "\r<4", "日^+#09.2", "\u200b>7", "\0<3"]:
            if ty in ("bool", "char", "String") and ("0" in pre and pre != "0>4" and pre != "#010" or "+" in pre and pre != "+<5"):
                pass
            st("C13", [f("a", ty), f(None if False else "b", ty)], D("".join("{a:%s%s}" % (pre, t) for t in tr) + "{b:%s%s}|{a}" % (pre, tr[-1])), derive=("Display",))
    st("C13", [f("a", "&'static u8"), f("b", "Box<u8>"), f("c", "*const u8")], D("{a:p}{b:p}{c:p}{a:#p}{c:020p}{a}"), derive=("Display",))
    st("C13", [f(None, "&'static u8"), f(None, P2)], D("{0:p}{1:?}{1.x:#x}{1.y:>5}{1:#?}"), derive=("Display",))
    en("C13", [V("A", [f("a", "u8"), f("b", "&'static u8")], D("{a:x}{b:p}{a:#?}{b:>4}")), V("B", [f(None, "f64")], D("{:>5}{0:8.3e}")), V("C")], D("{:^9}"), derive=("Display",))
    st("C13", [f("a", "u8")], D("{:?}{:#?}{a}{:x?}"), derive=("Debug", "Display"))
    en("C13", [V("A", [f(None, "u8")], D("{:?}-{0}")), V("B", (), D("{:#?}"))], derive=("Debug", "Display"))
    st("C13", [f("a", "u8", D("{:x}")), f("b", "u16", D("[{:>5}]")), f("c", P2, D("{x:#b}|{y:08}"))], D("{c}{b}{a}"), derive=("Display",))
    st("C13 C11", [f("a", "Option<u8>", D(opt=True)), f("b", "Option<u16>", D("[{:>5}]", opt=True)), f("c", "Option<f64>", D(opt=True))],
       D("{c:8.3e}{b}{a:#x}{a:>5}{a}{a:?}{c:+}"), derive=("Display",))
    st("C13 C11", [f("a", "Option<&'static u8>", D(opt=True)), f("b", "Option<T>", D(opt=True))], D("{a:p}{b:?}{b:>3}"), generics="<T>", derive=("Display",))
    st("C13 C10", [f("a", "u8", D(**{"with": WC})), f("b", "u8", D("<{:>4}>", **{"with": WA}))], D("{a:>5}{b}{a:+#08.2}{a}"), derive=("Display",))
    st("C13", [f("a", "T"), f("b", "Vec<T>")], D("{a:e}{a:X}{b:?}{a:o}"), generics="<T>", derive=("Display",))
    # ---------------------------------------------------------------- C11 optional
    for ty in ("u8", "String", U, "T"):
        g = dict(generics="<T>") if ty == "T" else {}
        o = f"Option<{ty}>"
        st("C11 C27", [f("a", o, D(opt=True)), f("b", "u8")], D("{a}-{b}"), **g)
        st("C11 C27", [f("a", o, D("a={}", opt=True)), f("b", "u8")], D("{b}{a}"), **g)
        st("C11 C27", [f("a", o, D("a={},", opt=True)), f("b", o, D("b={}", opt=True))], D("<{b}{a}>"), **g)
        st("C11", [f("a", o, D("a={}", opt=True))], **g)
        st("C11", [f(None, o, D("{}.", opt=True)), f(None, "u8")], D("{0}{1}"), **g)
        en("C11 C27", [V("A", [f(None, o, D("?{}", opt=True))], D("{}{0}")), V("B", [f("x", o, D(opt=True)), f("y", o, D("+{}+", opt=True))], D("{}{y}{x}")), V("C")], **g)
        st("C11 C20", [f("a", o, D(opt=True)), f("b", "u8")], S(regex="(?:a(?<a>[a-z]*),)?(?<b>.*)"), derive=("FromStr",), **g)
        if ty != "T":
            st("C11 C21", [f("a", o, D("a={}", opt=True), S(regex_infer=True)), f("b", o, D(opt=True))], D("{a}/{b}"), S(regex_infer=True))
        if ty != "T":
            st("C11 C08", [f("a", o, D(opt=True), S(default=True)), f("b", "u8")], D("{b}"))
            st("C11 C08", [f("a", o, D("<{}>", opt=True)), f("b", "u8")], D("{a}"), S(default=True), derive=("Display", "FromStr", "Default"))
            st("C11 C09", [f("a", o, D("<{}>", opt=True)), f("b", "u8")], D("{a}{b}"), S(new=new("option", "b: u8", f"a: {o}")))
    st("C11", [f("a", "Option<Option<u8>>", D(opt=True))], D("{a:?}"), derive=("Display",))
    st("C11", [f("a", "std::option::Option<u8>", D("[{}]", opt=True)), f("b", "core::option::Option<u8>", D(opt=True)), f("c", "::std::option::Option<u8>", D("({})", opt=True))], D("{a}{c},{b}"))
    st("C11 C10", [f("a", "Option<u8>", D("[{}]", opt=True, **{"with": WA})), f("b", f"Option<{N}>", D(opt=True, **{"with": WB}))], D("{a},{b}"))
    st("C11 C10", [f("a", "Option<u8>", D(opt=True), S(**{"with": WC}))], D("x{a}"))
    st("C11 C20 C21", [f("a", "Option<u8>", D("[{}]", opt=True), S(regex="[0-9]+")), f("b", "Option<u8>", D(opt=True), S(regex="a|b"))], D("{a}{b}"))
    # ---------------------------------------------------------------- C10 custom formats
    for a1, a2 in [((D(**{"with": WA}),), ()), ((D(**{"with": WA}), S(**{"with": WB})), ()), ((S(**{"with": WB}), D(**{"with": WA})), ()), ((S(**{"with": WC}),), ()),
                   ((D("<{}>", **{"with": WC}),), ()), ((D("<{}>", **{"with": WA}), S(**{"with": WB})), ()), ((D(**{"with": WA}), D(**{"with": WB})), ()),
                   ((S(**{"with": WA}), S(**{"with": WB})), ()), ((D(**{"with": WA}), S(regex_infer=True)), ()), ((D(**{"with": WA}), S(regex="[a-z]+")), ())]:
        ndisp = any(k == "display" and "with" in d for k, d in a1)
        ty = "u8"
        st("C10 C21 C22", [f("a", ty, *a1), f("b", "u8")], D("{a}-{b}"))
        st("C10 C21", [f(None, "u8"), f(None, N if ndisp and not any("regex" in d or "regex_infer" in d for _, d in a1) else ty, *a1)], D("{1}-{0}"))
        en("C10 C21 C22", [V("A", [f("a", ty, *a1)], D("{}{a}")), V("B", [f(None, "u8"), f(None, ty, *a1)], D("{1}:{0}"))])
        st("C10 C20", [f("a", ty, *[x for x in a1 if "regex" not in x[1]]), f("b", "u8")], S(regex="(?<b>[0-9]+)x(?<a>[a-z]+)"), derive=("FromStr",))
    st("C10", [f("a", "T", D(**{"with": WA})), f("b", "Vec<T>", D(**{"with": WB}))], D("{a}{b}"), generics="<T>")
    st("C10", [f("a", "&'a str", D(**{"with": WS})), f("b", "&'a &'a u8", D("[{}]", **{"with": WS})), f("c", "&'a mut u8", D(**{"with": WS}))], D("{c}{a}{b}"),
       generics="<'a>", derive=("Display",))
    st("C10", [f("a", "(&'a (&'a str))", D(**{"with": WS})), f("b", "Option<&'a u8>", D("[{}]", opt=True, **{"with": WS}))], D("{a}{b}"), generics="<'a>", derive=("Display",))
    en("C10", [V("A", [f(None, "&'a str", D(**{"with": WS})), f(None, "Option<&'a str>", D(opt=True, **{"with": WS}))], D("{1}{0}"))], generics="<'a>", derive=("Display",))
    st("C10", [f("a", "&'a str", D(**{"with": WA})), f("b", "&'a &'a u8", D("[{}]", **{"with": WB}))], D("{a}{b}"), generics="<'a>", derive=("Display",))
    st("C10 C08", [f("a", "u8", D(**{"with": WA}), S(default=True)), f("b", "u8")], D("{b}"))
    st("C10 C09", [f("a", N, D(**{"with": WA})), f("b", "u8")], D("{b}-{a}"), S(new=new("result", f"a: {N}", "b: u8")))
    # ---------------------------------------------------------------- C08 defaults
    st("C08", [f("a", "u8", S(default=True)), f("b", "u16")], D("{b}"))
    st("C08", [f("a", "u8", S(default=True)), f("b", "u16")], D("{b}-{a}"))
    st("C08", [f(None, "u8"), f(None, "String", S(default=True)), f(None, "u16")], D("{2}{0}"))
    st("C08", [f("a", "u8"), f("b", "u16"), f("c", "u32")], D("{b}"), S(default=True), derive=("Display", "FromStr", "Default"))
    st("C08", [f("a", "u8"), f("b", "u16", S(default=True)), f("c", "u32")], D("{a}"), S(default=True), derive=("Display", "FromStr", "Default"))
    st("C08", [f("a", "u8"), f("b", "u16")], D("lit"), S(default=True), derive=("Display", "FromStr", "Default"))
    st("C08", [f(None, "u8"), f(None, "u16"), f(None, P2)], D("{1}-{2.y}"), S(default=True), derive=("Display", "FromStr", "Default"))
    st("C08 C05", [f("a", P3, S(default=True)), f("b", P2, S(default=True))], D("{a.p.y}-{b.x}"))
    st("C08 C05", [f("a", P3), f("b", P2), f("c", "u8")], D("{a.q.1}-{b.x}"), S(default=True), derive=("Display", "FromStr", "Default"))
    st("C08 C20", [f("a", P3, S(default=True)), f("b", "u8", S(default=True))], S(regex="(?<a.p.x>[0-9]+)/(?<a.type>.*)"), derive=("FromStr",))
    st("C08 C20", [f(None, P3), f(None, "u8")], S(regex="(?<0.p.x>[0-9]+)/(?<1>.*)"), S(default=True), derive=("FromStr", "Default"))
    # captured whole and by component
    st("C08 C05 C20", [f("a", P2, S(default=True)), f("b", "u8")], S(regex="(?<a>[0-9]+)/(?<a.x>[0-9]+)-(?<b>.)"), derive=("FromStr",))
    st("C08 C05 C20", [f("a", P3), f("b", P2, S(default=True))], S(regex="(?<a.p.x>[0-9]+)(?<b.y>.)(?<a>[0-9]+)/(?<b>.)"), S(default=True), derive=("FromStr", "Default"))
    st("C08 C05", [f("a", P2, S(default=True)), f("b", Q)], D("{a}/{a.y}/{b.0}-{b}"), derive=("FromStr",))
    en("C08 C05", [V("A", [f("a", P2, S(default=True)), f("b", P2)], D("{a.y}/{a}-{b}/{b.x}")), V("B", [f(None, P2)], D("B{0}/{0.x}"))], derive=("FromStr",))
    en("C08", [V("A", [f("a", "u8", S(default=True)), f("b", "u16")], D("{b}A")), V("B", [f(None, "String", S(default=True)), f(None, P2, S(default=True))], D("B{1.x}")),
               V("C", [f(None, "u8", S(default=True))], D("C"))])
    st("C08", [f("a", "u8"), f("b", "u16"), f("c", "u16")], D("{b}"), S(default_fields=["a", "c"]))
    en("C08", [V("A", [f("a", "u8"), f("b", "u16")], D("{b}"), S(default_fields=["a"])), V("B", [f("a", "u16"), f("b", "u8")], D("B{a}"), S(default_fields=["b"]))])
    en("C08", [V("A", [f("a", "u8"), f("b", "u16")], D("{b}")), V("B", [f("a", "u16"), f("b", "u8")], D("B{b}"))], S(default_fields=["a"]))
    st("C08 C11", [f("a", "Option<u8>", S(default=True)), f("b", "u8")], D("{b}"))
    # ---------------------------------------------------------------- C09 new
    for k in ("plain", "option", "result"):
        st("C09", [f("a", "u8"), f("b", "u16")], D("{b}-{a}"), S(new=new(k, "a: u8", "b: u16")))
        st("C09", [f("a", "u8"), f("b", "u16")], D("{a}-{b}"), S(new=new(k, "b: u16", "a: u8")))
        st("C09", [f(None, "u8"), f(None, "u16"), f(None, "u32")], D("{2}-{0}-{1}"), S(new=new(k, "2: u32", "0: u8", "1: u16")))
        st("C09", [f("c", "u8"), f("p", "u16"), f("s", "u32"), f("value", "u64")], D("{s}-{c}-{p}-{value}"), S(new=new(k, "c: u8", "p: u16", "s: u32", "value: u64")))
        st("C09", [f("r#type", "u8"), f("r#match", "u16")], D("{match}-{type}"), S(new=new(k, "r#type: u8", "r#match: u16")))
        st("C09", [], D("lit"), S(new=new(k)), kind="unit")
        st("C09", [f("a", "u8")], S(new=new(k, "a: u8")))
        st("C09", [f("a", "u8"), f("b", "u16")], S(regex="(?<b>[a-z]+)(?<a>[0-9]+)"), S(new=new(k, "a: u8", "b: u16")), derive=("FromStr",))
        st("C09 C08", [f("a", "u8", S(default=True)), f("b", "u16")], D("{b}"), S(new=new(k, "a: u8", "b: u16")))
        st("C09 C08", [f("a", P2, S(default=True)), f("b", "u16")], D("{b}-{a.y}"), S(new=new(k, f"a: {P2}", "b: u16")))
        en("C09 C07", [V("A", [f("a", "u8"), f("b", "u16")], D("A{b}-{a}"), S(new=new(k, "a: u8", "b: u16"))), V("B", [f(None, "u8")], D("B{0}")),
                       V("C", (), S(new=new(k))), V("D", [f(None, "u8"), f(None, "u16")], D("{0}={1}"), S(new=new(k, "1: u16", "0: u8")))])
        en("C09 C07", [V("A", [f("a", "u8")], D("{a}"), S(new=new(k, "a: u8"))), V("B", [f(None, "String")], D("{0}!"))])
    # ---------------------------------------------------------------- C07 ignore, order
    for m in itertools.product((0, 1), repeat=3):
        def ig(i, *a):
            return a + ((S(ignore=True),) if m[i] else ())
        en("C07 C19", [V("A", (), *ig(0)), V("B", [f(None, "u8")], *ig(1, D("b{0}"))), V("C", [f("x", "String")], *ig(2, S(regex="c(?<x>.*)"), D("{x}")))])
        en("C07 C19", [V("A", (), *ig(0)), V("B", (), *ig(1)), V("C.D"[:1] + "x", (), *ig(2, D("c|.")))])
    en("C07", [V("A", [f(None, N)], D("a"), S(ignore=True)), V("B")])
    en("C07", [V("A", [f(None, "u8")], D("{0}")), V("B", [f(None, "f32")], D("{0}f")), V("C", [f(None, "String")], D("c{0}")), V("D")])
    en("C07 C05", [V("A", [f("x", "u8"), f("y", "u16")], D("{x},{y}")), V("B", [f("x", "u16"), f("y", "u8")], D("{x};{y}")), V("C", [f("y", "u8"), f("x", "u16")], D("{y}/{x}"))])
    # ---------------------------------------------------------------- C20 regular expressions
    T3 = [f(None, "u8"), f(None, "u16"), f(None, "u32")]
    for r in ["(?<a>[a-z]*)-(?P<b>[0-9]+)", "(?P<b>x)(?<a>y)", "(x)(?<a>.)(y)(?P<b>.)", "((?<a>.))((?P<b>.))", "\\((?<a>.)\\)(?<b>.)", "\\\\(?<a>.)\\\\(?<b>.)",
              "\\(?<(?<a>.)>(?<b>.)", "\\\\\\(?<a>(?<a>.)(?<b>.)", "(?:(?<a>.)|(?<b>x))", "(?<a>a|b)|(?<b>c)", "(?i)(?<a>k)(?-i)(?<b>k)", "[(?<z>](?<a>.)(?<b>.)",
              "[](?<z>](?<a>.)[^](?<z>](?<b>.)", "](?<a>.)[(?<z>](?<b>.)", "[x]][(?<z>](?<a>.)(?<b>.)", "(?<a>(x)(y(z)))(?<b>(?:q))", "(?s)(?<a>.)(?-s:.)(?<b>.)", "(?x) (?<a> a b ) # c\n (?<b> \\  )", "\\x28?<a>(?<a>.)(?<b>\\p{L})",
              "(?<a>\\d+)\\s(?<b>\\w*?)", "^(?<a>.*)$(?<b>)", "(?<a>[\\](?<b>])(?<b>.)", "(?<b>(?<a>.).)", "\\[(?<a>.)\\](?<b>[[:alpha:]])", "(?<a>[a-z&&[^q]])(?<b>[[x](?<a>[y]])"]:
        st("C20", [f("a", "u8"), f("b", "u16")], S(regex=r), derive=("FromStr",))
        en("C20", [V("Vx", [f("a", "u8"), f("b", "u16")], S(regex=r)), V("Wx", [f("b", "u8"), f("a", "u16")], S(regex="W" + r))], derive=("FromStr",))
    st("C20", T3, S(regex="(?<2>.)(?<0>x)(?P<1>.*)"), derive=("FromStr",))
    st("C20", [f(None, "u8") for _ in range(11)], S(regex="".join("(?<%d>.)(u)?" % i for i in range(10, -1, -1))), derive=("FromStr",))
    st("C20 C05", [f("a", P3), f("b", P2)], S(regex="(?<b.x>[0-9]+)(?P<a.q.0>.)(?<a.p.y>.)(?P<b.y>.)(?<a.type>.)"), S(default=True), derive=("FromStr", "Default"))
    st("C20 C05", [f("a", P2), f("a_x", "u8")], S(regex="(?<a.x>[0-9]+)(?P<a_x>.)(?<a.y>.)"), S(default=True), derive=("FromStr", "Default"))
    en("C20", [V("Aa", (), S(regex="<(?<>)>")), V("Bb", (), S(regex="(?P<>)x")), V("Cc", [f(None, "u8")], S(regex="(?<0>[0-9]*)(?:(?<>)|none)"))], D(style="snake_case"), derive=("FromStr",))
    en("C20 C22", [V("A"), V("Bx"), V("C", (), D("own")), V("D", (), S(regex="d+"))], S(regex="[(?<>)]?(?<>)"), derive=("FromStr",))
    # regex of a field
    for r in ["a|b", "[0-9]+", "(?i)k", "(x)|(y)(z)?", "", "a(?:b|c)*?", "(?<>x|y)", "x(?<>[0-9])y", "(?P<>.)(q)?", "\\(\\)", "[(?<]"]:
        fs = S(regex=r)
        st("C20 C21", [f("a", "u8", fs), f("b", "u16")], D("{a}-{b}"))
        st("C20 C21", [f(None, "u16"), f(None, "u8", fs)], D("{1}-{0}"))
        en("C20 C21", [V("A", [f("a", "u8", fs)], D("A{a}")), V("B", [f(None, "u8", fs)], D("B{0}"))])
        if "?<" not in r:
            st("C20 C21", [f("a", "u8", fs, D("<{}>")), f("b", "u16")], D("{b}-{a}"))
    st("C20 C05", [f("a", P2, S(regex="(?<x>[0-9]+)/(?<y>.*)"), S(default=True)), f("x", "u8"), f("y", "u16")], D("{x}-{a}-{y}"), derive=("FromStr",))
    st("C20 C05", [f("a", P3, S(regex="(?<p.y>[0-9]+)/(?<type>.*)"), S(default=True)), f("b", "u8")], D("{b}-{a}"), derive=("FromStr",))
    st("C20 C21", [f("a", "u8", S(regex="[0-9]+"), S(regex_infer=True)), f("b", "u8", S(regex="k"), D("({})", **{"with": WA}))], D("{a}{b}"))
    # a field's regex applies only when the field is reached through a format
    st("C20", [f("a", "u8", S(regex="never")), f("b", "u16")], S(regex="(?<a>[a-z])(?<b>.)"), derive=("FromStr",))
    # ---------------------------------------------------------------- C21 inferred patterns at every level
    I = S(regex_infer=True)
    for lv in itertools.product((0, 1), repeat=3):
        a = [f("a", "u8", *([I] if lv[2] else [])), f("b", "f64", D(**{"with": WA})), f("c", "String", S(regex="[a-z]+")), f("d", U, D("[{}]"))]
        st("C21", a, D("{a}-{b}-{c}-{d}"), *([I] if lv[0] else []))
        en("C21", [V("A", [f("a", "u8", *([I] if lv[2] else [])), f("b", "bool")], D("{a}{b}"), *([I] if lv[1] else [])), V("B", [f(None, "char"), f(None, "i64", D(**{"with": WB}))], D("{1}{0}."))],
           *([I] if lv[0] else []))
    st("C21 C08", [f("a", P2, S(default=True)), f("b", "u8")], D("{a.x}-{b}"), I)
    st("C21 C20", [f("a", "u8"), f("b", "String")], S(regex="(?<a>.*)(x)?(?<b>.+)"), I, derive=("FromStr",))
    # ---------------------------------------------------------------- C22 attribute scope
    st("C22", [f("a", "u8", D("1{}"), D("2{}")), f("b", "u8", S(regex="a"), S(regex="b"))], D("{a}{b}"), D("{b}-{a}"))
    st("C22", [f("a", "u8", S(regex="[0-9]"), D("<{}>")), f("b", "u8", S(default=True))], S(regex="(?<a>x)"), D("{a}|{b}"))
    st("C22", [f("a", "u8")], S(regex="no(?<a>x)"), S(regex="yes(?<a>x)"), D("{a}"))
    st("C22 C10", [f("a", "u8", D(**{"with": WA}), D("<{}>"))], D("{a}"))
    en("C22 C07", [V("A", [f("a", "u8")], S(regex="x(?<a>.)"), D("{a}!")), V("B", [f("a", "u8")], D("b{a}")), V("C", [f("a", "u16")], S(regex="c(?<a>.)"))], D("d{a}"))
    en("C22 C07", [V("A", [f("a", "u8")], D("va{a}")), V("B", [f("a", "u8")]), V("C", [f("a", "u16")], S(regex="c(?<a>.)"), D("z{a}"))], S(regex="e(?<a>.)(?<>)"), D("d{a}"))
    en("C22 C12", [V("FooA", (), D(style="UPPERCASE"), D(style="lowercase")), V("FooB"), V("FooC", (), D(style="none")), V("FooD", (), S(regex="(?<>)d"))], D(style="kebab-case"), D(style="snake_case"))
    en("C22 C09", [V("A", [f("a", "u8")], D("{a}"), S(new=new("plain", "a: u8")), S(new=new("option", "a: u8")))])
    # ---------------------------------------------------------------- sizes: nothing is special about the 10th, 17th, 33rd or 257th of anything
    for n in (18, 35, 67):
        order = [(i * 11 + 5) % n for i in range(n)]
        st("C01 C05 C27", [f("f%d" % i, ("u8", "String", "u16")[i % 3]) for i in range(n)], D(";".join("{f%d}" % i for i in order)))
        st("C01 C05 C27", [f(None, ("u8", "String", "u16")[i % 3]) for i in range(n)], D("/".join("{%d}" % i for i in order)))
        en("C01 C07 C12 C22", [V("Vr%dXy" % i) for i in range(n)], D(style="snake_case"))
        en("C01 C05 C07", [V("V%d" % i, [f("a", "u8" if i in (n // 2, n - 1) else "String"), f("b", "String")], D("%s{b}.{a}" % (chr(0x61 + i % 26) * (1 + i // 26)))) for i in range(n)])
        st("C08", [f("f%d" % i, "u8", *([S(default=True)] if i % 3 == 1 else [])) for i in range(n)], D(".".join("{f%d}" % i for i in range(n) if i % 3 == 0)),
           S(default_fields=["f%d" % i for i in range(n) if i % 3 == 2]))
        st("C11 C27", [f("f%d" % i, "Option<u8>", D(opt=True)) if i in (n // 2, n - 1) else f("f%d" % i, "u8") for i in range(n)], D("|".join("{f%d}" % i for i in range(n))))
        st("C10 C27", [f("f%d" % i, "u8", D(**{"with": WA if i % 2 else WB})) for i in range(n)], D("|".join("{f%d}" % i for i in range(n))))
        st("C20", [f(None, "u8") for _ in range(n)], S(regex="".join("(?<%d>.)(u)?" % i for i in reversed(range(n)))), derive=("FromStr",))
        st("C01 C03 C13", [f("a", "u8")], D("x" * n + ".{a:%d.%d}" % (n, n) + "{{" * n + "{a}" + "(é" * n), derive=("Display",))
        st("C01 C03 C27", [f("a", "u8")], D("x." * n + "{a}" + "{{" * n + "(é" * n))
        en("C01 C12 C03", [V("Ab" * n), V("Long" * n + "Name", (), D("<{}>"))], D(style="kebab-case"))
    en("C01 C07", [V("Z%d" % i) for i in range(300)])
    st("C20 C29", [f("a", "u8"), f("b", "u8")], S(regex="(" * 12 + "(?<a>.)" + "x)" * 12 + "(?:" * 12 + "(?<b>.)" + "y)" * 12), derive=("FromStr",))
    # the same type deriving one trait only
    ones = []
    for w in out:
        if w.derive == both() and set(w.tags) & {"C22", "C10", "C11", "C27"} and not set(w.tags) & {"C03", "C12"}:
            for d in both():
                import copy
                x = copy.copy(w)
                x.derive = (d,)
                x.tags = ["C22"]
                ones.append(x)
    out += ones[::2]
    # attributes of FromStr present on a type deriving Display only are rejected by rustc: none used there
    for w in out:
        if "FromStr" not in w.derive:
            for v in (w.body if w.enum else [w.body]):
                v2 = v
        if w.derive == ("Display",) or "FromStr" not in w.derive:
            w.attrs = [a for a in w.attrs if a[0] == "display"]
            nb = []
            for v in (w.body if w.enum else [w.body]):
                nb.append(Var(v.name, [F(x.name, x.ty, *[a for a in x.attrs if a[0] == "display"]) for x in v.fields],
                              [a for a in v.attrs if a[0] == "display"], kind=v.kind))
            w.body = nb if w.enum else nb[0]
    for i, w in enumerate(out):
        w.name = "C%d" % i
    return out
