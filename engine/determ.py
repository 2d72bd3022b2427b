"""C31: what a derive generates is a function of the item it is applied to.  Effect and determinism analysis of parse-display-derive's MIR: no input other
than the item (environment, files, clock, random numbers, positions, addresses), no state carried from one expansion to the next, and no iteration over a
hash table whose order can reach the result."""
import json
import re

import pipeline as P

HASH = re.compile(r"(?:std::collections|hashbrown|std::collections::hash)::(?:hash_map::|hash_set::|hash::map::|hash::set::|map::|set::)?Hash(?:Map|Set)\b|std::collections::hash_(?:map|set)::|hashbrown::")
HITER = re.compile(r"hash_(?:map|set)::(?:Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b")
OWNH = re.compile(r"^(?:&(?:'\w+ )?(?:mut )?)?std::collections::Hash(?:Map|Set)\b")
ORDERED = re.compile(r"^(?:&mut )?(?:std::collections::(?:HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap)|std::option::Option<\(\)>|std::result::Result<\(\))")
SORTS = {"sort", "sort_by", "sort_by_key", "sort_by_cached_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key"}
# consumers whose result does not depend on the order
FREE = {"any", "all", "count", "min", "max", "sum", "product", "len", "is_empty", "size_hint", "is_subset", "is_superset", "is_disjoint", "contains", "eq", "clone", "drop", "by_ref", "fmt_len"}
# adaptors whose meaning depends on the order
POS = {"enumerate", "take", "skip", "step_by", "scan", "zip", "map_while", "take_while", "skip_while", "peekable", "nth", "last", "position", "next_chunk", "array_chunks", "map_windows", "rev",
       "fold", "reduce", "try_fold", "rfold"}
SET = {"insert", "remove", "entry", "or_insert", "or_default", "or_insert_with", "extend", "get_mut", "push_heap", "replace", "take", "retain", "next", "borrow_mut", "as_mut"}
BAD = [(re.compile(p), w) for p, w in [
    (r"^std::env::(?!Args\b)", "reads the process environment"), (r"^std::fs::|^std::path::Path::(?:exists|try_exists|metadata|is_file|is_dir|read_dir|canonicalize|read_link|symlink_metadata|is_symlink)\b",
                                                                  "reads the file system"),
    (r"^std::time::(?:SystemTime|Instant)::(?:now|elapsed|duration_since)\b|^std::time::.*::now$", "reads the clock"), (r"^std::process::(?!abort|exit)", "looks at processes"),
    (r"^std::thread::(?:current|spawn|available_parallelism|scope|sleep)|^std::thread::Builder|^std::thread::Thread::id", "depends on threads"), (r"^std::net::", "uses the network"),
    (r"^std::random::|^(?:rand|getrandom|fastrand)::", "uses random numbers"), (r"RandomState(?: as [\w:]+)?>?::(?:new|default|build_hasher|hash_one)$|hash::RandomState::(?:new|build_hasher|hash_one)",
                                                                              "hashes with the process's random keys"),
    (r"^proc_macro::tracked|^proc_macro::tracked_env|tracked_path", "reads the environment"), (r"^std::io::(?:stdin|Stdin|read_to_string)", "reads the standard input"),
    (r"^proc_macro2?::Span::(?:start|end|line|column|byte_range|file|local_file|source_file|source_text|parent|source)$|^proc_macro2?::extra::", "depends on where the item is written"),
    (r"^std::any::type_name|^core::any::type_name", None)]]
RSTATE = re.compile(r"RandomState")
ATOM = re.compile(r"^(?:std|core)::sync::atomic::")
READ = {"load", "fetch_add", "fetch_sub", "swap", "fetch_or", "fetch_and", "fetch_xor", "fetch_max", "fetch_min", "fetch_update", "compare_exchange", "compare_exchange_weak", "try_update", "update"}
MUTST = re.compile(r"\b(?:Atomic\w*|Mutex|RwLock|RefCell|Cell|UnsafeCell|ReentrantLock|SyncUnsafeCell)\b")
CACHE = re.compile(r"(?:Hash|BTree|Index)(?:Map|Set)\b")
ONCE = re.compile(r"\b(?:OnceLock|OnceCell|LazyLock|LazyCell|Once)\b")
LOCAL = ("parse_display_derive",)


def last(d):
    """the function's own name: `a::B::<T>::f::<U>` -> f"""
    while True:
        n = re.sub(r"<[^<>]*>", "", d.replace("->", ""))
        if n == d:
            break
        d = n
    return d.rstrip(":").rsplit("::", 1)[-1]


def calls(o):
    """the function a call names"""
    if isinstance(o, dict):
        if "def" in o and "c" in o:
            return o
        for v in o.values():
            r = calls(v)
            if r:
                return r
    elif isinstance(o, list):
        for v in o:
            r = calls(v)
            if r:
                return r
    return None


def fnrefs(o):
    if isinstance(o, dict):
        if "def" in o and "c" in o:
            yield o
        for v in o.values():
            yield from fnrefs(v)
    elif isinstance(o, list):
        for v in o:
            yield from fnrefs(v)


def succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "sw":
        return [b for _, b in t[3]] + [t[4]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] >= 0 else []
    if k == "assert":
        return [t[3]]
    return []


class Fn:
    def __init__(self, f, T):
        self.f, self.T = f, T
        self.b = f["b"]
        n = len(self.b)
        self.su = [[x for x in succ(b["t"]) if 0 <= x < n] for b in self.b]
        pre = [[] for _ in range(n)]
        for i, ss in enumerate(self.su):
            for s in ss:
                pre[s].append(i)
        self.pre = pre
        # blocks from which the function can return
        live, w = set(), [i for i, b in enumerate(self.b) if b["t"][0] == "ret"]
        while w:
            x = w.pop()
            if x in live:
                continue
            live.add(x)
            w += pre[x]
        self.live = live

    def t(self, i):
        return self.T[int(i)]["s"]

    def reach(self, b):
        s, w = set(), list(self.su[b])
        while w:
            x = w.pop()
            if x not in s:
                s.add(x)
                w += self.su[x]
        return s

    def loop(self, b):
        """blocks of the cycles through b"""
        fw = self.reach(b)
        if b not in fw:
            return set()
        bw, w = set(), [b]
        while w:
            x = w.pop()
            if x not in bw:
                bw.add(x)
                w += self.pre[x]
        return fw & bw

    def calls(self):
        for i, b in enumerate(self.b):
            if b["t"][0] == "call" and not b.get("cu"):
                yield i, b["t"]


def used(fn, place, bi):
    """the value of a local is looked at somewhere else than in drops and storage statements"""
    l = str(place[0] if isinstance(place, list) else place)

    def mentions(o):
        if isinstance(o, list):
            # operands: ["c"|"m", place]; places: [local, projections]
            if len(o) == 2 and o[0] in ("c", "m") and isinstance(o[1], list):
                return str(o[1][0]) == l
            return any(mentions(x) for x in o)
        if isinstance(o, dict):
            return any(mentions(x) for x in o.values())
        return False
    for i, b in enumerate(fn.b):
        for s in b["s"]:
            if s[0] == "=" and (mentions(s[2]) or s[2][0] in ("ref", "disc", "raw") and str((s[2][-1] if s[2][0] != "disc" else s[2][1])[0]) == l):
                return True
        t = b["t"]
        if t[0] == "sw" and mentions(t[1]) or t[0] == "call" and mentions(t[2]):
            return True
    return str(l) == "0"


class An:
    def __init__(self, j, crates, ctx="the expansion"):
        self.j, self.T = j, j["types"]
        self.fns = [f for f in j["fns"] if f.get("kr") in crates]
        self.viol, self.und = {}, []
        self.sites = self.hashsites = 0
        self.ctx = ctx

    def hit(self, what, f, sp, why):
        w = self.name(f)
        self.viol.setdefault(f"{what} in {w}", f"{why}\n  in {f['c']}\n  at {sp}")

    @staticmethod
    def name(f):
        return re.sub(r"\{closure#\d+\}", "{closure}", re.sub(r"<'_>|::<'a>|'a ", "", f["c"]))

    def run(self):
        for f in self.fns:
            fn = Fn(f, self.T)
            for bi, t in fn.calls():
                self.sites += 1
                if bi in fn.live:
                    self.call(fn, bi, t)
            for b in fn.b:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "cast" and ("PointerExposeProvenance" in s[2][1] or "PtrToPtr" not in s[2][1] and "Expose" in s[2][1]):
                        self.hit("an address becomes a number", f, s[3], f"a pointer is cast to an integer: its value differs between runs, {self.ctx} must not depend on it")
                    if s[0] == "=" and s[2][0] == "tls":
                        pass
            # functions passed as values
        for s in self.j["statics"]:
            self.static(s)
        return self

    # ------------------------------------------------------------------------------------------------ state
    def static(self, s):
        ty = self.T[int(s["ty"])]["s"]
        if s.get("mut"):
            self.viol.setdefault(f"mutable static {s['p']}", f"static mut {s['p']}: {ty}: an expansion can depend on earlier ones")

    def call(self, fn, bi, t):
        f, T = fn.f, self.T
        r = calls(t[1])
        if r is None:
            return
        names = [re.sub(r"^[<&]*\w+::(?=proc_macro2?::)", "", x) for x in (r.get("rd") or "", r["def"], r["c"])]
        at = [fn.t(x) for x in t[9]]
        dt = fn.t(t[7])
        m = r.get("m") or last(r["def"])
        sp = t[5]
        for rx, w in BAD:
            if w and any(rx.search(n) for n in names):
                self.hit(f"{w}: {m}", f, sp, f"calls {r['c']}: {self.ctx} must depend on the item alone")
                return
        for a in fnrefs(t[2]):
            for rx, w in BAD:
                if w and any(rx.search(re.sub(r"^\w+::(?=proc_macro2?::)", "", x)) for x in (a["def"], a.get("rd") or "")):
                    self.hit(f"{w}: {last(a['def'])}", f, sp, f"passes {a['c']} on: {self.ctx} must depend on the item alone")
        self.state(fn, bi, t, r, names, at, dt, m, sp)
        targs = [T[int(x)]["s"] for x in r.get("ta", [])]
        if m in ("new_debug", "new_pointer") and targs:
            x = targs[0] if len(targs) == 1 else targs[-1]
            if m == "new_pointer":
                self.hit("an address is written", f, sp, f"{{:p}} writes an address; {self.ctx} must not depend on it")
            elif HASH.search(x):
                self.hit("a hash table is written in its own order", f, sp, f"{{:?}} of {x} writes the entries in hash order, which differs between runs")
            elif re.search(r"proc_macro2?::(?:Span|Ident|TokenStream|TokenTree|Group|Literal|Punct)\b", x):
                self.hit("positions are written", f, sp, f"{{:?}} of {x} writes source positions: {self.ctx} would depend on where the item stands")
        self.order(fn, bi, t, r, at, dt, m, sp, targs)

    def state(self, fn, bi, t, r, names, at, dt, m, sp):
        f = fn.f
        recv = at[0] if at else ""
        if ATOM.search(names[1]) or ATOM.search(names[0]):
            if m in READ and used(fn, t[3], bi):
                self.hit(f"state kept between expansions ({m})", f, sp, f"the result of {r['c']} is used: it depends on what was expanded before")
            return
        if re.search(r"std::thread::(?:local::)?LocalKey", names[1]):
            ta = [self.T[int(x)]["s"] for x in r.get("ta", [])]
            inner = ta[0] if ta else ""
            if MUTST.search(inner) and not CACHE.search(inner) and not ONCE.search(inner):
                if m in ("with", "get", "take", "replace", "with_borrow", "with_borrow_mut", "try_with") and used(fn, t[3], bi):
                    self.hit(f"state kept between expansions ({m})", f, sp, f"{r['c']} reads thread-local state of type {inner}: it depends on what was expanded before")
            elif MUTST.search(inner):
                self.und.append(f"thread-local cache in {self.name(f)}")
            return
        if re.search(r"(?:OnceLock|OnceCell|once_cell)", names[1]) and m in ("get_or_init", "get_or_try_init", "get_mut_or_init") and "static" in json.dumps(self.roots(fn, t[2][0])):
            ty = self.T[int(t[9][1])] if len(t[9]) > 1 else {}
            if ty.get("k") == "closure" and ty.get("up"):
                self.hit("the first expansion's value is kept", f, sp, f"{r['c']} in a static is filled by a closure that captures {', '.join(self.T[x]['s'] for x in ty['up'])}: later expansions reuse the first one's value")
        if re.search(r"(?:OnceLock|OnceCell)", names[1]) and m in ("set", "get", "take", "try_insert") and "static" in json.dumps(self.roots(fn, t[2][0])):
            self.hit(f"state kept between expansions ({m})", f, sp, f"{r['c']} on a static: it depends on what was expanded before")
        if m in ("lock", "try_lock", "read", "write", "borrow", "borrow_mut", "get", "replace", "take", "swap", "get_mut", "with_mut") and re.search(r"&(?:'\w+ )?(?:mut )?(?:std|core)::(?:sync|cell)::(?:\w+::)*(Mutex|RwLock|RefCell|Cell)<", recv) \
                and "static" in json.dumps(self.roots(fn, t[2][0])):
            if CACHE.search(recv):
                self.und.append(f"cache in a static, in {self.name(f)}")
            else:
                self.hit(f"state kept between expansions ({m})", f, sp, f"{r['c']} on a static of type {recv}: {self.ctx} depends on what was expanded before")

    def roots(self, fn, op, depth=0, seen=None):
        """operands an operand's local is computed from"""
        seen = set() if seen is None else seen
        out = [op]
        if isinstance(op, list) and len(op) == 2 and op[0] in ("c", "m") and depth < 12:
            l = op[1][0]
            if l in seen:
                return out
            seen.add(l)
            for b in fn.b:
                for s in b["s"]:
                    if s[0] == "=" and s[1][0] == l:
                        rv = s[2]
                        if rv[0] in ("ref", "raw"):
                            out += self.roots(fn, ["c", rv[-1]], depth + 1, seen)
                        else:
                            for o in rv[1:]:
                                if isinstance(o, list):
                                    out += self.roots(fn, o, depth + 1, seen)
                t = b["t"]
                if t[0] == "call" and t[3][0] == l and calls(t[1]) and re.search(r"deref|borrow|as_ref|force", calls(t[1])["def"]):
                    for o in t[2]:
                        out += self.roots(fn, o, depth + 1, seen)
        return out

    # ------------------------------------------------------------------------------------------------ hash order
    def order(self, fn, bi, t, r, at, dt, m, sp, targs):
        f = fn.f
        src = [i for i, a in enumerate(at) if HITER.search(a) and "::Entry" not in a]
        own = [i for i, a in enumerate(at) if OWNH.search(a)]
        tr = r.get("tr", "")
        if not src and not (own and (tr.endswith(("IntoIterator", "Extend", "FromIterator")) or m in ("extend", "from_iter", "append_all", "append_separated", "append_terminated", "zip", "chain"))):
            return
        if r.get("kr") in ("parse_display_derive", "parse_display", "parse_display_with"):
            return                                  # the callee is analysed by itself, instantiated
        self.hashsites += 1
        if HITER.search(dt) and "Option<" not in dt.split("hash_")[0] or m in ("into_iter", "iter", "keys", "values", "drain"):
            if m in POS:
                self.hit(f"hash order decides ({m})", f, sp, f"{r['c']} on an iterator over a hash table: which entries it concerns differs between runs")
            elif m in ("map", "filter", "filter_map", "flat_map", "inspect", "cloned", "copied", "chain", "into_iter", "iter", "keys", "values", "drain", "flatten", "fuse", "by_ref"):
                self.impure(fn, t, r, m, sp)
            return
        if m in FREE:
            return
        if m in ("min_by_key", "max_by_key", "min_by", "max_by", "find", "find_map", "try_for_each", "partition", "unzip"):
            self.und.append(f"{m} over a hash table in {self.name(f)}")
            return
        if m in POS:
            self.hit(f"hash order decides ({m})", f, sp, f"{r['c']} on an iterator over a hash table: its result differs between runs")
            return
        if m in ("collect", "from_iter", "extend"):
            to = dt if m in ("collect", "from_iter") else at[0]
            core = re.sub(r"^std::(?:option::Option|result::Result)<", "", to.replace("&mut ", ""))
            if ORDERED.search(core):
                return
            if m == "extend" and own == [0] and not src:
                return
            if re.match(r"(?:std::vec::Vec|alloc::vec::Vec|std::boxed::Box<\[|std::collections::VecDeque)", core) and self.sorted(fn, core):
                return
            self.hit(f"hash order reaches {core.split('<')[0]}", f, sp, f"{r['c']}: the entries of a hash table arrive in {to} in hash order, which differs between runs, and are not sorted in this function")
            return
        if m == "next":
            lp = fn.loop(bi)
            if not lp:
                if any(re.search(r"::len$|::is_empty$", (calls(x[1]) or {}).get("def", "")) for _, x in fn.calls()):
                    self.und.append(f"first entry of a hash table in {self.name(f)}")
                else:
                    self.hit("hash order decides (next)", f, sp, f"{r['c']} takes the first entry of a hash table: which one differs between runs")
                return
            self.body(fn, lp, sp)
            return
        if m == "for_each":
            self.impure(fn, t, r, m, sp)
            return
        if any("TokenStream" in a for a in at) or m in ("append_all", "append_separated", "append_terminated"):
            self.hit(f"hash order reaches the generated code ({m})", f, sp, f"{r['c']}: entries of a hash table are written in hash order, which differs between runs")
            return
        self.und.append(f"{m} over a hash table in {self.name(f)}")

    def sorted(self, fn, core):
        el = re.search(r"<(.*)>$", core)
        for _, x in fn.calls():
            c = calls(x[1])
            if c and last(c["def"]) in SORTS:
                return True
        return False

    def body(self, fn, lp, sp):
        """a loop over a hash table: may only fill sets and maps"""
        f = fn.f
        for i in sorted(lp):
            t = fn.b[i]["t"]
            if t[0] != "call" or fn.b[i].get("cu"):
                continue
            c = calls(t[1])
            at = [fn.t(x) for x in t[9]]
            mm = (c.get("m") or last(c["def"])) if c else "?"
            for a in at:
                if a.startswith("&mut ") and not HITER.search(a) and not ORDERED.search(a):
                    if re.match(r"&mut (?:std::vec::Vec|std::string::String|proc_macro2?::TokenStream|alloc::|std::collections::VecDeque|syn::|parse_display_derive::|\[)", a) and not self.sorted(fn, a[5:]):
                        self.hit(f"a loop in hash order does {mm}", f, t[5], f"the loop at {sp} runs over a hash table and calls {c['c'] if c else '?'} on {a}: the order of the results differs between runs")
                        return

    def impure(self, fn, t, r, m, sp):
        """closures given to an adaptor: what they write to through captured references"""
        for x in t[9][1:]:
            ty = self.T[int(x)]
            if ty.get("k") != "closure":
                continue
            for u in ty.get("up", ()):
                s = self.T[u]["s"]
                if s.startswith("&mut ") and re.match(r"&mut (?:std::vec::Vec|std::string::String|proc_macro2?::TokenStream|usize|u\d+|i\d+)", s) and not self.sorted(fn, s[5:]):
                    if re.match(r"&mut (?:usize|u\d+|i\d+)", s) and m == "for_each":
                        continue
                    self.hit(f"hash order reaches a captured value ({m})", fn.f, sp, f"{r['c']}: the closure runs in hash order and changes {s}")
                    return


def analyse(names=("parse_display_derive",), crates=("parse_display_derive",), ctx="the expansion"):
    P.forget()
    d = P.crate("detm", "#![allow(warnings)]\nuse parse_display::Display;\n#[derive(Display)] #[display(\"a\")] pub struct A;\n")
    ok, errs, raw = P.check(d, "detm", dump=names)
    if not ok:
        raise P.Broken("the smallest use of the derive does not compile: " + (errs[0].get("rendered", "") if errs else raw)[:1000])
    out = []
    for n in names:
        out.append(An(json.load(open(P.facts(n))), crates, ctx).run())
    return out


def run(rep, pid, tier, seed):
    for a in analyse():
        for k, t in a.viol.items():
            rep.violation(k, t)
        rep.undecided += sorted(set(a.und))
        rep.cov.update(functions=len(a.fns), call_sites=a.sites, hash_order_sites=a.hashsites, statics=sorted({s["p"] + ": " + a.T[int(s["ty"])]["s"] for s in a.j["statics"]}),
                       functions_analysed=sorted({a.name(f) for f in a.fns})[:200],
                       rule="In every function and closure of parse-display-derive that can return: no call that reads the environment, files, clock, threads, random numbers, source positions or "
                            "addresses; no state in a static or thread-local that is read (write-once cells must be filled by a closure that captures nothing); every iterator over a HashMap/HashSet "
                            "must end in an order-insensitive operation, a set or map, or a vector that the function sorts")
    rep.assume += ["syn, quote, proc-macro2, regex and regex-syntax are deterministic", "rustc's MIR is the program that runs",
                   "a use of a hash table the rules do not know (find, min_by_key) or a keyed cache gives no verdict (listed as undecided)"]
