"""C30: the release preparation script, analysed path by path with a typestate monitor.

The script is compiled as a library crate, its MIR is interpreted abstractly from `main` (calls inlined, everything that is
not a constant is a symbolic term, loops are followed to a fixpoint with recency abstraction), and the monitor tracks
  * what is known about "--dry-run" among the arguments and whether every argument was looked at,
  * which paths were written, which were added to the list of changed files, and whether that list is printed.
Nothing is executed."""
import glob
import os
import re
import traceback

import pipeline as P
from absint import UNINIT, UNIT, Eng, Frame, Panic, Prog, St, Unsupported, V, mk, reset
from reng import mentions, none, some, subst

ARGS = "ARGS"
FLAG = "--dry-run"
WRITE_FS = ("write", "copy", "rename", "remove_file", "remove_dir", "remove_dir_all", "create_dir", "create_dir_all", "hard_link",
            "soft_link", "set_permissions", "set_times")
READ_PROG = {"git": ("log", "diff", "status", "show", "rev-parse", "describe", "ls-files", "ls-tree", "cat-file", "rev-list", "grep", "blame",
                     "diff-tree", "diff-index", "merge-base", "for-each-ref", "shortlog", "--version"),
             "cargo": ("metadata", "--version", "tree", "locate-project", "pkgid", "version"), "date": None, "echo": None, "cat": None, "uname": None}
IDENT = re.compile(r"(?:::|^)(to_path_buf|clone|to_owned|as_path|as_ref|into|from|borrow|deref|as_str|to_string|into_iter|iter|as_slice|as_deref|"
                   r"cloned|copied|by_ref|peekable|fuse|collect|skip|deref_mut|as_mut|iter_mut|into_boxed_path|as_os_str|rev|enumerate|must_use|"
                   r"as_mut_slice|to_vec|into_vec|into_boxed_slice|into_path_buf|as_bytes)$")
ADAPT = {"map": "imap", "filter": "ifilt", "filter_map": "ifmap", "inspect": "iinsp"}


def ARGSYM():
    return mk("sym", ARGS)


LOOK = ("split", "chars", "bytes", "splitn", "split_once", "matches", "char_indices", "parse", "from_str", "as_bytes", "into_bytes", "rsplit", "strip_prefix", "pop", "remove",
        "swap_remove", "last", "first", "get", "index", "split_first", "split_last", "nth")


def mname(c):
    """last path segment without generic arguments"""
    out, d = "", 0
    for ch in c:
        if ch in "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    out = re.sub(r":{3,}", "::", out).rstrip(":")
    return out.rsplit("::", 1)[-1]


class Ghost:
    """typestate: an immutable record"""
    __slots__ = ("d", "h")
    INIT = dict(dry="unknown", exh=False, started=False, unchk=False, curchk=True, written=(), reported=(), iterated=(), cur=(), fuzzy=(), looked=False)

    def __init__(self, d=None):
        self.d = d or dict(self.INIT)
        self.h = tuple(sorted((k, v) for k, v in self.d.items()))

    def set(self, **k):
        d = dict(self.d)
        d.update(k)
        return Ghost(d)

    def __getattr__(self, k):
        return self.d[k]

    def __eq__(self, o):
        return isinstance(o, Ghost) and self.h == o.h

    def __hash__(self):
        return hash(tuple((k, v) for k, v in self.h))


def liveness(f):
    """block -> locals live at entry (or whose address may be used: never dropped)"""
    if "_live" in f:
        return f["_live"]
    addr = set()

    def uses(x, out):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("m", "c") and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                place(x[1], out)
                return
            for y in x:
                uses(y, out)

    def place(p, out):
        out.add(p[0])
        for s in p[1:]:
            if isinstance(s, list) and s and s[0] == "i":
                out.add(s[1])
    n = len(f["b"])
    gen, kill, suc = [], [], []
    for b in f["b"]:
        g, k = set(), set()

        def use(s):
            for x in s:
                if x not in k:
                    g.add(x)
        for s in b["s"]:
            if s[0] == "=":
                r = s[2]
                u = set()
                if r[0] == "ref":
                    place(r[2], u)
                    if "*" not in r[2]:
                        addr.add(r[2][0])
                elif r[0] == "raw":
                    place(r[1], u)
                    if "*" not in r[1]:
                        addr.add(r[1][0])
                elif r[0] == "disc":
                    place(r[1], u)
                else:
                    uses(r, u)
                if len(s[1]) > 1:
                    place(s[1], u)
                use(u)
                if len(s[1]) == 1:
                    k.add(s[1][0])
        t = b["t"]
        u = set()
        if t[0] in ("sw", "assert"):
            uses([t[1]], u)
        elif t[0] == "call":
            uses([t[1]], u)
            uses(t[2], u)
            if len(t[3]) > 1:
                place(t[3], u)
        elif t[0] == "ret":
            u.add(0)
        use(u)
        if t[0] == "call" and len(t[3]) == 1:
            k.add(t[3][0])
        gen.append(g)
        kill.append(k)
        suc.append(list(Eng.succ(t)))
    live = [set(g) for g in gen]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for j in suc[i]:
                if 0 <= j < n:
                    o |= live[j]
            nl = gen[i] | (o - kill[i])
            if nl != live[i]:
                live[i] = nl
                ch = True
    f["_live"] = (live, addr)
    return f["_live"]


def refcells(v, out):
    if isinstance(v, V):
        if v.op == "ref":
            out.add(v.a[0])
        for x in v.a:
            refcells(x, out)
    elif isinstance(v, tuple):
        for x in v:
            refcells(x, out)


def subterms(v, out):
    if isinstance(v, V):
        if v in out:
            return
        out.add(v)
        for x in v.a:
            subterms(x, out)
    elif isinstance(v, tuple):
        for x in v:
            subterms(x, out)


def depth(v, memo={}):
    if isinstance(v, tuple):
        return max([depth(x) for x in v] or [0])
    if not isinstance(v, V):
        return 0
    return 1 + max([depth(x) for x in v.a] or [0])


def size(v, lim=200):
    n = 0
    todo = [v]
    while todo and n < lim:
        x = todo.pop()
        n += 1
        if isinstance(x, V):
            todo.extend(x.a)
        elif isinstance(x, tuple):
            todo.extend(x)
    return n


class PEng(Eng):
    LIMIT = 40000          # states of one function activation
    TOTAL = 200000

    def __init__(self, prog):
        super().__init__(prog)
        self.total = 0
        self.viol = {}
        self.und = set()
        self.giveup = set()
        self.stack = []
        self.writes = {}
        self.ends = 0
        self.printed = set()      # sources whose element is printed somewhere
        self.skipped = {}         # sources with an iteration that prints nothing
        self.fnseen = set()
        self.itered = set()
        self.afmemo = {}
        self.outer = []           # values held by callers outside the state at hand
        self.forgot = set()
        self.eqs = set()
        self.memo = {}
        self.late = []
        self.blurred = set()
        self.moved = set()        # sequences advanced so far
        self.lists = set()        # lists that hold paths of written files
        self.drops = {}           # list -> operation that removes entries
        self._reach()

    # ------------------------------------------------------------------ call graph
    def _reach(self):
        fns = self.p.fns
        callees = {}
        self.effects = set()      # functions that reach a change of the outside world
        self.hot = set()          # functions from which an effect, a command, a print or the flag can be reached
        for i, f in fns.items():
            cs = set()

            def scan(x):
                if isinstance(x, dict):
                    if "fn" in x or "fnp" in x:
                        fr = x.get("fn") or x.get("fnp")
                        if isinstance(fr, dict):
                            if "id" in fr:
                                cs.add(fr["id"])
                            if self.effect_name(fr):
                                self.effects.add(i)
                            if self.effect_name(fr) or fr["c"].startswith(("std::process::Command", "std::env::args")) or mname(fr["c"]) in ("_print",):
                                self.hot.add(i)
                    if x.get("str") == FLAG:
                        self.hot.add(i)
                    if "prom" in x:
                        cs.add(x["prom"])
                    for y in x.values():
                        scan(y)
                elif isinstance(x, list):
                    if len(x) == 5 and x[:2] == ["agg", "clo"]:
                        for j, g in fns.items():
                            if g.get("cl") and g["def"] == x[4]:
                                cs.add(j)
                    for y in x:
                        scan(y)
            scan(f["b"])
            callees[i] = cs
        ch = True
        while ch:
            ch = False
            for i, cs in callees.items():
                for w in (self.hot, self.effects):
                    if i not in w and cs & w:
                        w.add(i)
                        ch = True
        self.rec = set()
        for i in fns:
            seen, todo = set(), list(callees[i])
            while todo:
                j = todo.pop()
                if j not in seen and j in callees:
                    seen.add(j)
                    todo.extend(callees[j])
            if i in seen:
                self.rec.add(i)

    @staticmethod
    def effect_name(fr):
        c = fr["c"]
        m = mname(c)
        if c.startswith("std::fs::") and "<" not in c.split("::")[2] and m in WRITE_FS and not c.startswith(("std::fs::File::", "std::fs::OpenOptions::")):
            return "path"
        if c.startswith("std::fs::File::") and m in ("create", "create_new", "create_buffered"):
            return "path"
        if c.startswith("std::fs::File::") and m in ("set_len", "set_permissions", "set_times", "set_modified"):
            return "file"
        if c.startswith("std::fs::OpenOptions::") and m == "open":
            return "open"
        if c.startswith("std::fs::DirBuilder::") and m == "create":
            return "path"
        if c.startswith(("std::os::unix::fs::", "std::os::windows::fs::")) and m in ("symlink", "chown", "symlink_file", "symlink_dir"):
            return "path"
        if c.startswith("std::process::Command::") and m in ("output", "status", "spawn", "exec"):
            return "cmd"
        return None

    # ------------------------------------------------------------------ terms
    def n(self, v, st):
        """value with references followed and stripped"""
        return self.nn(self.snap(v, st))

    def nn(self, v, memo=None):
        if not isinstance(v, V):
            return tuple(self.nn(x) for x in v) if isinstance(v, tuple) else v
        while v.op in ("rv", "deref", "box"):
            v = v.a[0]
        if v.op in ("str", "int", "bool", "ch", "fn"):
            return v
        if not v.a or all(not isinstance(x, (V, tuple)) for x in v.a):
            return v
        return mk(v.op, *[self.nn(x) for x in v.a], ty=v.ty)

    def core(self, v):
        """term without calls that do not change what it stands for"""
        while True:
            if v.op == "call" and IDENT.search(v.a[0]) and len(v.a) > 1:
                v = v.a[1]
            elif v.op in ("rv", "deref", "box"):
                v = v.a[0]
            elif v.op in ("adt",) and len(v.a) == 3 and v.a[0].rsplit("::", 1)[-1] in ("Some", "Option", "Cow"):
                v = v.a[2]
            else:
                return v

    def src(self, it, st):
        """identity of a sequence"""
        v = self.core(self.n(it, st))
        if v.op in ("imap", "ifilt", "ifmap", "iinsp"):
            return self.src(v.a[0], st)
        if v.op == "call" and v.a[0] in ("std::env::args", "std::env::args_os"):
            return mk("sym", ARGS)
        return v

    def cap(self, v, site):
        if size(v, 500) >= 500 or depth(v) > 26:
            return mk("wide", str(site), ty=v.ty)
        return v

    # ------------------------------------------------------------------ control
    def key(self, st, bi):
        return bi, frozenset(st.mem.items()), frozenset(st.facts.items()), st.ev

    def gc(self, st, uid, keep, extra=()):
        """drop dead cells and facts nobody can ask about again"""
        live = set()
        todo = []
        for c in st.mem:
            if c[0] != uid or keep is None or c[1] in keep:
                todo.append(c)
        refs = set()
        for x in extra:
            refcells(x, refs)
        todo.extend(refs)
        while todo:
            c = todo.pop()
            if c in live or c not in st.mem:
                continue
            live.add(c)
            r = set()
            refcells(st.mem[c], r)
            todo.extend(r)
        for c in [c for c in st.mem if c not in live]:
            del st.mem[c]
        if st.facts:
            sub, its = set(), set()
            for v in list(st.mem.values()) + list(extra):
                top = self.values(v)
                sub |= top
                its |= {self.core(x) for x in top}
            if keep is None:
                self.join_done(st, sub, its)
            nf = {}
            for k, d in st.facts.items():
                if self.args_fact(k) or k.a and k.a[0] is ARGSYM():
                    nf[k] = d
                elif k.op in ("seen", "empty", "eq"):
                    pass
                elif k in sub or k.op in ("disc", "bin") and any(
                        isinstance(x, V) and x in sub and x.op not in ("str", "int", "bool", "ch", "tup", "sym", "zst") for x in k.a):
                    nf[k] = d
            st.facts = nf

    @staticmethod
    def values(v):
        """terms held as values (not as part of how another value was computed)"""
        out, todo = set(), [v]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
            elif isinstance(x, V) and x not in out:
                out.add(x)
                if x.op in ("adt", "tup", "arr", "clo", "rv", "part", "upd", "imap", "ifilt", "ifmap", "iinsp", "not", "deref", "box", "disc", "bin", "eq") or \
                        x.op == "call" and IDENT.search(x.a[0]):
                    todo.extend(x.a)
        return out

    def join_done(self, st, sub, its):
        """a loop over these elements is over: one set of facts for all of them"""
        for k in [k for k in st.facts if k.op == "seen"]:
            src = k.a[0]
            if src is ARGSYM() or src in its or mk("el", src, "cur") in sub:
                continue
            e = st.ev
            self.advance(src, st)
            st.ev = e
            st.facts.pop(k, None)

    def inner(self, k):
        out = set()
        subterms(k, out)
        return out

    def branches(self, v, vals, tyi, st):
        out = []
        for s, o in super().branches(v, vals, tyi, st):
            s.pc = ()
            if list(vals) == [0] and o == "else":
                o = 1
                for k, d in list(s.facts.items()):
                    if d == "else":
                        s.facts[k] = 1
            out.append((s, o))
        return out

    def args_fact(self, k):
        r = self.afmemo.get(k)
        if r is None:
            s = self.inner(k)
            r = self.afmemo[k] = any(x.op == "el" and x.a[0] is ARGSYM() for x in s) and not any(
                x.op == "call" and (x.a[0] == "fmt" or x.a[0].startswith("std::fs")) for x in s)
        return r

    def args_fact0(self, k):
        return any(x.op == "el" and x.a[0].op == "sym" and x.a[0].a[0] == ARGS for x in self.inner(k))

    def _run(self, f, args, st):
        uid = self.depth
        fr = Frame(f, uid)
        self.stack.append(f)
        self.fnseen.add(f["c"])
        live, addr = liveness(f)
        try:
            for i, a in enumerate(args):
                st.mem[(uid, i + 1)] = a
            outs, seen, cnt = [], set(), 0
            work = [(st, 0)]
            while work:
                st, bi = work.pop()
                self.gc(st, uid, live[bi])
                k = self.key(st, bi)
                if k in seen:
                    continue
                seen.add(k)
                cnt += 1
                self.total += 1
                if cnt > self.LIMIT or self.total > self.TOTAL:
                    raise Unsupported("too many states in " + f["c"])
                for s2, b2 in self.block(f, fr, st, bi, outs):
                    work.append((s2, b2))
            fin, done = [], set()
            for s2, v in outs:
                if isinstance(v, Panic):
                    continue
                v = self.snap_uid2(v, s2, uid)
                for c in [c for c in s2.mem if c[0] == uid]:
                    del s2.mem[c]
                self.gc(s2, None, None, (v,))
                if f["id"] in self.effects and s2.ev.reported:
                    # the entry matters again only for a path that is still at hand
                    held = set()
                    for x in list(s2.mem.values()) + self.outer:
                        held |= {self.core(y) for y in self.values(x)}
                    rp = tuple(x for x in s2.ev.reported if x[0] in held)
                    if len(rp) != len(s2.ev.reported):
                        self.forgot |= set(o for q, o in s2.ev.reported)
                        s2.ev = s2.ev.set(reported=rp)
                k = (self.key(s2, -1), v)
                if k not in done:
                    done.add(k)
                    fin.append((s2, v))
            return fin
        finally:
            self.stack.pop()

    def snap_uid2(self, v, st, uid):
        """references to cells of the frame that ends become values"""
        r = set()
        refcells(v, r)
        return self.snap(v, st) if any(c[0] == uid for c in r) else v

    def block(self, f, fr, st, bi, outs):
        b = f["b"][bi]
        for s in b["s"]:
            if s[0] == "=":
                v = self.rvalue(s[2], fr, st, s[1])
                if len(s[1]) == 1:
                    self.typed(v, f["l"][s[1][0]])
                self.write(self.place(s[1], fr, st), self.cap(v, (f["c"], bi)), st)
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [(st, t[1])]
        if k == "drop":
            return [(st, t[2])]
        if k == "ret":
            outs.append((st, self.resolve(st.mem.get((fr.uid, 0), UNIT), st)))
            return []
        if k in ("unr", "resume", "term"):
            return []
        if k == "sw":
            v = self.operand(t[1], fr, st)
            if v.op == "infeasible":
                return []
            tg = {int(x[0]): x[1] for x in t[3]}
            return [(s2, tg.get(o, t[4])) for s2, o in self.branches(v, list(tg), t[2], st)]
        if k == "assert":
            v = self.operand(t[1], fr, st)
            exp = int(t[2])
            if v.op == "bool" and int(v.a[0]) != exp:
                return []
            return [(st, t[3])]
        if k == "call":
            self.site = (f["c"], bi)
            self.sp = t[6] or t[5]
            r = []
            for s2, v in self.call(t, fr, st):
                if isinstance(v, Panic):
                    continue
                if t[4] >= 0:
                    v = self.cap(v, (f["c"], bi))
                    self.typed(v, t[7])
                    self.write(self.place(t[3], fr, s2), v, s2)
                    r.append((s2, t[4]))
            return r
        raise Unsupported("terminator " + k)

    def typed(self, v, ty):
        if v.ty is None and v.op in ("el", "out", "eq", "has", "obj", "wide"):
            v.ty = ty
            return v
        return super().typed(v, ty)

    def write(self, pl, v, st):
        if pl[0] == "val":
            return
        try:
            super().write(pl, v, st)
        except Unsupported:
            st.mem[pl[0]] = mk("wide", "write through " + str(self.site))

    def rvalue(self, r, fr, st, dst):
        v = super().rvalue(r, fr, st, dst)
        if r[0] == "disc":
            v = self.nn(v) if v.op == "disc" else v
        return self.n(v, st) if v.op in ("un", "bin") else v

    def binop(self, op, a, b):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and not (a.op == b.op and a.op in ("int", "bool", "ch")):
            return self.cmp(op, a, b)
        return super().binop(op, a, b)

    def cmp(self, op, a, b):
        a, b = self.nn(a), self.nn(b)
        if op == "Ne":
            return mk("not", mk("bin", "Eq", a, b))
        return mk("bin", op, a, b)

    def snap(self, v, st, d=0):
        if d > 40:
            return mk("wide", "cyclic")
        return super().snap(v, st, d)

    # ------------------------------------------------------------------ monitor
    def where(self):
        for f in reversed(self.stack):
            if f["kr"] == self.p.crate:
                return f["c"].split("::{closure", 1)[0].split("::", 1)[-1]
        return "?"

    def violation(self, kind, text):
        w = self.where()
        self.viol.setdefault(f"{kind} in {w}", f"{text}\n  in function {w} at {self.sp}, call chain " +
                             " > ".join(f["c"].split("::", 1)[-1] for f in self.stack if f["kr"] == self.p.crate))

    def event(self, st, what, path=None):
        """something outside the process changes"""
        g = st.ev
        self.writes.setdefault(f"{what} in {self.where()}", 0)
        self.writes[f"{what} in {self.where()}"] += 1
        if g.dry == "yes":
            self.violation("dry run changes something", f"{what} is reached on a path on which an argument equals {FLAG}")
        elif g.dry != "no" and g.started and (not g.exh or g.unchk):
            vs = self.validated(st)
            if not (g.exh and g.unchk == "validated?" and vs is not None):
                self.violation("argument not looked at", f"{what} is reached on a path on which an argument that may be {FLAG} was never compared with it")
        r = self.validated(st)
        if r is None:
            self.und.add(f"version check before {what} in {self.where()}")
        elif r is not True:
            self.violation("write without a version check", f"{what} is reached although {r}")
        if path is not None:
            p = self.core(self.n(path, st))
            got = [o for q, o in g.reported if p is q]
            self.lists |= set(got)
            if not got:
                if p not in g.written:
                    st.ev = g.set(written=tuple(sorted(g.written + (p,), key=id)))

    def validated(self, st):
        """is an argument known to be three dot-separated numbers?  True / reason why not / None"""
        cands = {}
        for k, d in st.facts.items():
            for x in self.inner(k):
                if x.op == "el" and x.a[0].op == "sym" and x.a[0].a[0] == ARGS:
                    cands.setdefault(x, []).append((k, d))
        useful = {e: [(k, d) for k, d in fs if not (k.op == "eq" or k.op == "disc" and k.a[0] is e)] for e, fs in cands.items()}
        useful = {e: fs for e, fs in useful.items() if fs}
        if not useful:
            if st.ev.looked or any(not any(x.op == "el" for x in self.inner(k)) and any(x is ARGSYM() for x in self.inner(k)) and k.op not in ("seen", "empty")
                                   for k in st.facts):
                return None              # something was tested, but not in a way that is followed
            return "no argument was checked to be a version"
        best = "no argument was checked to be a version"
        for e, fs in useful.items():
            r = self.three_numbers(e, fs)
            if r is True or r is None:
                return r
            best = r
        return best

    def three_numbers(self, e, fs):
        n, lens, odd = None, [], []
        digits, weak, parsed, nonempty_ok = [], [], 0, False
        for k, d in fs:
            if k.op == "empty":
                if d and any(x.op == "call" and mname(x.a[0]) == "split" for x in self.inner(k)):
                    return True          # no part at all: cannot have three
                continue
            if k.op == "bin" and k.a[0] in ("Eq", "Lt", "Le", "Gt", "Ge") and {k.a[1].op, k.a[2].op} >= {"int"}:
                c = k.a[1] if k.a[1].op == "int" else k.a[2]
                t = k.a[2] if k.a[1].op == "int" else k.a[1]
                if self.islen(t):
                    lens.append((k.a[0], c.a[0], bool(d), k.a[1].op == "int"))
                    continue
            if self.islen(k):
                lens.append(("Eq", d, True, False))
                continue
            r = self.digit(k, d)
            if r is True:
                digits.append(k)
            elif r is False:
                weak.append(k)
            elif k.op == "disc" and k.a[0].op == "call" and mname(k.a[0].a[0]) in ("parse", "from_str"):
                parsed += 1
            elif k.op == "call" and mname(k.a[0]) == "is_empty" or k.op == "eq":
                continue
            elif k.op == "disc" and k.a[0].op in ("el",):
                continue
            else:
                odd.append(k)
        poss = [x for x in range(0, 12) if all(self.cmpint(o, *((c, x) if fl else (x, c))) == d for o, c, d, fl in lens)]
        if odd and (poss != [3] or not digits):
            return None
        if not lens:
            return "the number of dot-separated parts of the version argument is not checked" if digits or weak or parsed else "the version argument is not checked"
        if poss != [3]:
            return f"the version argument may have a number of dot-separated parts other than 3 (accepted: {poss})"
        if digits and not weak:
            return True
        if digits:
            return None
        if weak:
            return "the parts of the version argument are accepted by a check weaker than 'all digits'"
        return "the parts of the version argument are not checked to consist of digits"

    @staticmethod
    def cmpint(o, a, b):
        return {"Eq": a == b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[o]

    def islen(self, t):
        if not isinstance(t, V):
            return False
        s = self.inner(t)
        return (t.op == "call" and mname(t.a[0]) in ("len", "count") or t.op == "un") and any(
            x.op == "call" and mname(x.a[0]) in ("split", "split_terminator") for x in s)

    def digit(self, k, d):
        """does this fact say the character under examination is a digit?  True / False (weaker) / None"""
        s = self.inner(k)
        onch = any(x.op == "el" and x.a[0].op == "call" and mname(x.a[0].a[0]) in ("chars", "bytes", "as_bytes") for x in s) or \
            any(x.op == "el" and x.a[0].op == "el" for x in s)
        if k.op == "call":
            m = mname(k.a[0])
            if m == "is_ascii_digit" or m == "is_digit" and k.a[-1].op == "int" and k.a[-1].a[0] == 10:
                return True if d else None
            if m in ("is_numeric", "is_alphanumeric", "is_ascii_alphanumeric", "is_ascii_hexdigit", "is_ascii", "is_digit", "is_ascii_graphic", "is_alphabetic",
                     "is_whitespace", "is_ascii_punctuation", "is_control", "is_ascii_alphabetic"):
                return False
        if k.op == "bin" and onch:
            c = [x for x in k.a[1:] if x.op in ("ch", "int")]
            if len(c) == 1:
                v = c[0].a[0]
                v = ord(v) if isinstance(v, str) else v
                return True if 47 <= v <= 58 else False
        if onch and k.op == "el":
            v = ord(d) if isinstance(d, str) else d
            return (True if v in range(48, 58) else False) if isinstance(v, int) else None
        return None

    # ------------------------------------------------------------------ sequences
    def advance(self, src, st):
        """the element under the iterator becomes an old one; what is known of all of them is kept"""
        self.moved.add(src)
        cur, old = mk("el", src, "cur"), mk("el", src, "old")
        if src is ARGSYM():
            # an argument kept in a variable is one particular argument: it gets a name of its own
            sub = set()
            for v in list(st.mem.values()) + self.outer:
                subterms(v, sub)
            if cur in sub:
                i = 0
                while mk("el", src, "kept%d" % i) in sub:
                    i += 1
                old = mk("el", src, "kept%d" % i)
        old.ty = cur.ty
        seen = mk("seen", src)
        memo = {}
        m = {cur: old}
        for c, v in list(st.mem.items()):
            w = subst(v, m, memo)
            if w is not v:
                st.mem[c] = w
        rel = isargs = src is ARGSYM()
        rel = rel or self.args_fact(src)
        curf = {subst(k, m, memo): d for k, d in st.facts.items() if mentions(k, cur)}
        oldf = {k: d for k, d in st.facts.items() if mentions(k, old) and not mentions(k, cur)}
        rest = {k: d for k, d in st.facts.items() if not mentions(k, cur) and not mentions(k, old)}
        if not rel or st.facts.get(seen) is None:
            pass                                    # nothing was taken before
        elif isargs:
            if old.a[1] != "old":
                rest.update(curf)
        elif st.facts[seen] == 3:                   # no element is current
            rest.update(oldf)
        elif st.facts[seen] == 1:
            rest.update(curf)
        else:
            rest.update({k: d for k, d in oldf.items() if curf.get(k) == d})
        n = rest.pop(seen, None)
        if rel:
            rest[seen] = 1 if n is None else 2
        st.facts = rest
        g = st.ev
        ch = {}
        for nm in ("written", "reported"):
            if nm == "written":
                ch[nm] = tuple(sorted({subst(p, m, memo) for p in g.written}, key=id))
            else:
                ch[nm] = tuple((p, o) for p, o in g.reported if not mentions(p, cur) and not mentions(p, old))
        st.ev = g.set(**ch)

    def next(self, it, st, t, again=0):
        """-> [(state, None or value)]"""
        v = it
        while v.op in ("ref", "rv"):
            v = self.resolve(self.read((v.a[0], v.a[1]), st) if v.op == "ref" else v.a[0], st)
        while v.op == "call" and IDENT.search(v.a[0]) and len(v.a) > 1 and isinstance(v.a[1], V):
            w = v.a[1]
            while w.op in ("ref", "rv"):
                w = self.resolve(self.read((w.a[0], w.a[1]), st) if w.op == "ref" else w.a[0], st)
            if w.op in ("imap", "ifilt", "ifmap", "iinsp"):
                v = w
                break
            v = w
        if v.op in ("imap", "ifilt", "ifmap", "iinsp"):
            out = []
            for s, x in self.next(v.a[0], st, t):
                if x is None:
                    out.append((s, None))
                    continue
                a = [mk("rv", x)] if v.op in ("ifilt", "iinsp") else [x]
                for s2, r in self.apply_value(v.a[1], a, s, t, self.sp):
                    if isinstance(r, Panic):
                        continue
                    if v.op == "imap":
                        out.append((s2, r))
                    elif v.op == "iinsp":
                        out.append((s2, x))
                    elif v.op == "ifilt":
                        for s3, o in self.branches(r, [0], None, s2):
                            if o not in (0, False):
                                out.append((s3, x))
                            elif again < 2:
                                out += self.next(it, s3, t, again + 1)
                    else:
                        d = self.disc(self.resolve(r, s2), None)
                        for s3, o in self.branches(d, [0, 1], None, s2):
                            if o == 1:
                                out.append((s3, self.field(self.resolve(r, s3), 1, 0)))
                            elif again < 2:
                                out += self.next(it, s3, t, again + 1)
            return out
        src = self.src(v, st)
        isargs = src.op == "sym" and src.a[0] == ARGS
        if v.op == "adt" and "Range" in v.a[0]:
            src = mk("rng", self.n(v, st))
        g = st.ev
        # leave the current element
        if g.started and isargs and not g.curchk:
            cur0 = mk("el", src, "cur")
            sub = set()
            for x in list(st.mem.values()) + self.outer:
                subterms(x, sub)
            known = cur0 in sub or g.curchk is None or any(mentions(k, cur0) and not (k.op == "disc" and k.a[0] is cur0) for k in st.facts)
            st.ev = st.ev.set(unchk="validated?" if known and g.unchk is not True else True)
        pend = dict(st.ev.cur)
        if src in pend and pend[src] is False:
            self.skipped.setdefault(src, (self.where(), self.sp))
        first = mk("seen", src) not in st.facts
        self.advance(src, st)
        cur = mk("el", src, "cur")
        end = st.copy()
        if mk("seen", src) in end.facts:
            end.facts[mk("seen", src)] = 3
        if first and (isargs or self.args_fact(src)):
            end.facts[mk("empty", src)] = 1
        if isargs:
            end.ev = end.ev.set(exh=True, started=True, curchk=True)
            chain = self.inner(self.n(it, st))
            prog = first and not any(x.op == "call" and mname(x.a[0]) in ("skip", "nth", "skip_while", "advance_by", "filter", "filter_map") for x in chain)
            st.ev = st.ev.set(started=True, curchk=prog)
        pend = dict(st.ev.cur)
        pend.pop(src, None)
        end.ev = end.ev.set(cur=tuple(sorted(pend.items(), key=lambda x: id(x[0]))))
        if self.isobj(src):
            pend[src] = False
            st.ev = st.ev.set(cur=tuple(sorted(pend.items(), key=lambda x: id(x[0]))), iterated=tuple(sorted(set(st.ev.iterated) | {src}, key=id)))
            end.ev = end.ev.set(iterated=tuple(sorted(set(end.ev.iterated) | {src}, key=id)))
        return [(end, None), (st, cur)]

    def isobj(self, v):
        return v.op == "obj" or v.op == "call" and any(x.op == "obj" for x in self.inner(v))

    # ------------------------------------------------------------------ calls
    def apply(self, fn, args, st, t, sp, argtys):
        d, c = fn["def"], fn["c"]
        m = fn.get("m") or mname(c)
        tr = fn.get("tr", "")
        if "ctor" in fn:
            return [(st, mk("adt", fn["ctor"][0], fn["ctor"][1], *args, ty=t[7] if t else None))]
        if self.is_panic(fn) or c.startswith("std::process::abort"):
            return []
        if c == "std::process::exit":
            a = self.n(args[0], st)
            if a.op == "int" and a.a[0] == 0:
                self.finish(st)
            return []
        if tr in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn"):
            tup = self.resolve(args[1], st)
            a2 = list(tup.a) if tup.op == "tup" else []
            return self.apply_value(args[0], a2, st, t, sp)
        r = self.special(fn, args, st, t, sp, argtys, c, m, tr)
        if r is not None:
            return r
        body = self.p.fns.get(fn.get("id"))
        if body is not None and fn.get("id") not in self.giveup:
            own = body["kr"] == self.p.crate
            hot = fn["id"] in self.hot
            if not (fn["id"] in self.rec and (not hot or any(x is body for x in self.stack))) and (hot or not own or self.decides(body)):
                sv, tot = st.copy(), self.total
                lim = self.LIMIT
                try:
                    if not hot:
                        self.LIMIT = 300
                    return self.framed(body, list(args), st) if own else self.run(body, list(args), st)
                except Unsupported:
                    if hot:
                        raise
                    self.giveup.add(fn["id"])
                    self.total = tot
                    st = sv
                finally:
                    self.LIMIT = lim
        return self.opaque_apply(fn, args, st, t, argtys, c, m)

    def framed(self, body, args, st):
        """call with only the part of the state the callee can see; the same call in the same visible state is analysed once"""
        cells, todo, refs = set(), [], set()
        for a in args:
            refcells(a, refs)
        todo = list(refs)
        while todo:
            c = todo.pop()
            if c not in cells and c in st.mem:
                cells.add(c)
                r = set()
                refcells(st.mem[c], r)
                todo.extend(r)
        sub = set()
        for x in list(args) + [st.mem[c] for c in cells]:
            sub |= self.values(x)
        mine = {k: d for k, d in st.facts.items() if self.args_fact(k) or any(x is ARGSYM() for x in self.inner(k)) or k in sub or any(isinstance(x, V) and x in sub for x in k.a)}
        rest = {k: d for k, d in st.facts.items() if k not in mine}
        restmem = {c: v for c, v in st.mem.items() if c not in cells}
        s = St()
        s.mem = {c: st.mem[c] for c in cells}
        s.facts = dict(mine)
        s.ev = st.ev
        held = set()
        if st.ev.reported:
            for x in list(restmem.values()) + self.outer:
                held |= {self.core(y) for y in self.values(x)}
        hk = frozenset(p for p, _ in st.ev.reported if p in held)
        k = (body["id"], self.depth, tuple(args), self.key(s, 0), hk, tuple(x["id"] for x in self.stack if x["id"] in self.rec))
        got = self.memo.get(k)
        if got is None:
            o, mv = self.outer, self.moved
            self.outer = o + list(restmem.values())
            self.moved = set()
            try:
                r = self.run(body, list(args), s)
            finally:
                self.outer = o
                inner, self.moved = self.moved, mv | self.moved
            got = ([(x.copy(), v) for x, v in r], inner)
            self.memo[k] = got
        else:
            self.moved |= got[1]
        if got[1]:
            rs = set()
            for x in restmem.values():
                subterms(x, rs)
            if any(mk("el", q, "cur") in rs for q in got[1]):
                return self.run(body, list(args), st)
        out = []
        for x, v in got[0]:
            n = x.copy()
            n.mem = {**restmem, **n.mem}
            n.facts = {**rest, **n.facts}
            out.append((n, v))
        return out

    def decides(self, f):
        """can its result steer a branch?"""
        s = self.T[f["l"][0]]["s"]
        return s == "bool" or s.startswith(("std::option::Option", "std::result::Result")) or f.get("cl")

    def closures(self, args, st):
        out = []
        for a in args:
            v = a
            while v.op in ("ref", "rv"):
                v = self.resolve(self.read((v.a[0], v.a[1]), st) if v.op == "ref" else v.a[0], st)
            if v.op == "clo" or v.op == "fn":
                out.append(v)
        return out

    def interesting(self, v, st):
        """does calling it matter: an effect, the flag, a print, or a list of changed files captured by reference"""
        if v.op == "fn":
            fr = self.fnref[v.a[0]]
            return fr.get("id") in self.hot or bool(self.effect_name(fr))
        b = self.closure_body(v)
        if b is None:
            return False
        return b["id"] in self.hot or any(x.op == "obj" for x in self.inner(self.n(v, st)))

    def opaque_apply(self, fn, args, st, t, argtys, c, m):
        states = [st]
        for v in self.closures(args, st):
            if not self.interesting(v, st):
                continue
            src = self.src(args[0], st) if args else mk("sym", "?")
            b = self.closure_body(v) if v.op == "clo" else None
            na = (b["n"] - 1) if b else 1
            # called any number of times: none, once, twice
            cur = list(states)
            for _ in range(2):
                nxt = []
                for s in cur:
                    s = s.copy()
                    self.advance(src, s)
                    a = [mk("el", src, "cur")] + [mk("wide", "acc")] * (na - 1)
                    for s2, r in self.apply_value(v, a[:na] if na else [], s, t, self.sp):
                        if not isinstance(r, Panic):
                            nxt.append(s2)
                states += nxt
                cur = nxt
        out = []
        for s in states:
            sn = [self.n(a, s) for a in args]
            v = mk("call", c if not IDENT.search("::" + m) else "::" + m, *sn, ty=t[7] if t else None)
            v = self.cap(v, self.site)
            if argtys:
                for i, (a, ty) in enumerate(zip(args, argtys)):
                    tt = self.T[ty]
                    if tt.get("k") == "ref" and tt.get("mut") and a.op == "ref":
                        w = self.n(a, s)
                        if any(x.op == "obj" for x in self.inner(w)):
                            self.blur(s, w)
                        else:
                            self.changed((a.a[0], a.a[1]), i, s)
            if s.ev.curchk is False and any(self.T[ty].get("k") == "ref" and self.T[ty].get("mut") for ty in argtys or ()) and \
                    any(x.op == "el" and x.a[0] is ARGSYM() for y in sn for x in self.inner(y)):
                s.ev = s.ev.set(curchk=None)         # stored somewhere
            for w in self.closures(args, s):
                self.havoc(w, v, s)
            if any(x.op == "obj" for x in sn) and c.startswith(self.p.crate + "::"):
                for x in sn:
                    self.blur(s, x)
            if not s.ev.looked and any(self.argish(x) for y in sn[:1] for x in self.inner(y)) and \
                    (m in LOOK or sn and self.argish(self.core(sn[0])) and any(self.T[ty].get("k") == "ref" and self.T[ty].get("mut") for ty in (argtys or ())[:1])):
                s.ev = s.ev.set(looked=True)
            out.append((s, v))
        return self.dedup(out)

    @staticmethod
    def argish(x):
        return x is ARGSYM() or x.op == "call" and x.a[0] in ("std::env::args", "std::env::args_os")

    def blur(self, st, v):
        """the lists in v are changed in a way that is not followed"""
        os_ = {x for x in self.inner(v) if x.op == "obj"}
        self.blurred |= os_
        st.ev = st.ev.set(fuzzy=tuple(sorted(set(st.ev.fuzzy) | os_, key=id)))

    def changed(self, pl, i, s):
        """a value nobody models was changed in place"""
        v = mk("out", self.site[0], self.site[1], i)
        s.facts = {k: d for k, d in s.facts.items() if not mentions(k, v)}
        self.write(pl, v, s)

    def dedup(self, rs):
        seen, out = set(), []
        for s, v in rs:
            k = (self.key(s, 0), v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        return out

    def havoc(self, w, v, s):
        """a closure that was possibly called may have changed what it captured by unique reference"""
        if w.op != "clo":
            return
        ty = self.T[w.a[1]]
        ups = ty.get("up") or []
        for i, x in enumerate(w.a[2:]):
            if x.op == "ref" and (i >= len(ups) or self.T[ups[i]].get("mut")):
                old = self.read((x.a[0], x.a[1]), s)
                if not any(y.op == "obj" for y in self.inner(self.n(old, s))):
                    self.changed((x.a[0], x.a[1]), 100 + i, s)

    def special(self, fn, args, st, t, sp, argtys, c, m, tr):
        ret = t[7] if t else None
        eff = self.effect_name(fn)
        if eff == "cmd":
            cmd = self.n(args[0], st)
            if not self.readonly(cmd):
                self.event(st, "running " + self.cmdname(cmd))
            return [(st, self.cap(mk("call", c, cmd, ty=ret), self.site))]
        if eff == "open":
            o = self.n(args[0], st)
            set_ = [x for x in self.inner(o) if x.op == "call" and mname(x.a[0]) in ("write", "append", "create", "truncate", "create_new")]
            if set_ or o.op != "call":
                self.event(st, "opening a file for writing", args[1])
            return [(st, mk("call", c, o, self.n(args[1], st), ty=ret))]
        if eff == "file":
            self.event(st, c)
            return None
        if eff == "path":
            what = c.split("::<")[0]
            self.event(st, what, args[1] if m in ("copy", "rename", "hard_link", "symlink") else args[0])
            if m == "rename":
                self.event(st, what, args[0])
            return [(st, mk("call", what, *[self.n(a, st) for a in args[:1]], ty=ret))]
        if c.startswith(("std::process::Command::", "std::fs::OpenOptions::")) and m not in ("new",):
            # builder methods: the receiver is changed in place and returned
            if args and args[0].op == "ref":
                old = self.n(args[0], st)
                new = mk("call", c.split("::<")[0], old, *[self.brief(self.n(a, st)) for a in args[1:]])
                self.write((args[0].a[0], args[0].a[1]), new if m in ("arg", "args") or c.startswith("std::fs") else old, st)
                return [(st, args[0])]
            return None
        if "fmt::rt::Argument" in c or c.startswith(("std::fmt::Arguments", "core::fmt::Arguments")):
            return [(st, mk("call", "fmt", *[self.n(a, st) for a in args], ty=ret))]
        if m in ("_print", "_eprint") and "io" in c:
            if m == "_print":
                ts = set()
                for a in args:
                    ts |= self.inner(self.n(a, st))
                pend = dict(st.ev.cur)
                for x in ts:
                    if x.op == "el" and x.a[1] == "cur" and x.a[0] in pend:
                        pend[x.a[0]] = True
                        self.printed.add(x.a[0])
                for a in args:
                    for x in self.outside_el(self.n(a, st)):
                        self.printed.add(("whole", x))
                st.ev = st.ev.set(cur=tuple(sorted(pend.items(), key=lambda x: id(x[0]))))
            return [(st, UNIT)]
        if tr == "std::cmp::PartialEq" and m in ("eq", "ne") and len(args) == 2:
            a, b = self.n(args[0], st), self.n(args[1], st)
            r = self.equal(a, b, st)
            if r is not None:
                return [(s, mk("bool", bool(x) ^ (m == "ne"))) for s, x in r]
            return None
        if m == "next" and tr.endswith("Iterator"):
            out = []
            for s, x in self.next(args[0], st, t):
                out.append((s, none() if x is None else some(x)))
            return out
        if tr.endswith("Iterator") and m in ADAPT and len(args) == 2:
            vs = self.closures(args[1:], st)
            if vs and (self.interesting(vs[0], st)):
                return [(st, mk(ADAPT[m], args[0], vs[0], ty=ret))]
        if m in ("any", "all", "find", "position", "find_map", "for_each", "try_for_each") and tr.endswith("Iterator") and len(args) == 2:
            return self.search(m, args, st, t, ret)
        if m in ("collect", "count", "last", "fold", "sum") and args:
            v = args[0]
            while v.op in ("ref", "rv"):
                v = self.resolve(self.read((v.a[0], v.a[1]), st) if v.op == "ref" else v.a[0], st)
            if v.op in ("imap", "ifilt", "ifmap", "iinsp"):
                return self.drain(v, st, t, m, ret)
        if m == "contains" and len(args) == 2:
            b = self.n(args[1], st)
            if self.core(b).op == "str" and self.core(b).a[0] == FLAG:
                s = self.src(args[0], st)
                if s.op == "sym" and s.a[0] == ARGS:
                    return self.whole(st)
        if re.match(r"(std|alloc)::(vec::Vec|collections::)", c) and m in ("new", "with_capacity", "default") or \
                tr == "std::default::Default" and "vec::Vec<" in c:
            if "Path" in c:
                return [(st, mk("obj", self.where(), str(sp), ty=ret))]
        if args and args[0].op in ("ref", "rv") and re.match(r"(std|alloc|core|<?std)::|^<", c):
            o = self.core(self.n(args[0], st))
            if o.op == "obj":
                r = self.listop(o, fn, args, st, t, c, m)
                if r is not None:
                    return r
        if m in ("into_iter", "iter", "by_ref", "as_slice", "deref", "deref_mut", "as_mut_slice", "peekable", "fuse") and args:
            v = args[0]
            w = v
            while w.op in ("ref", "rv"):
                w = self.resolve(self.read((w.a[0], w.a[1]), st) if w.op == "ref" else w.a[0], st)
            if w.op in ("imap", "ifilt", "ifmap", "iinsp"):
                return [(st, v)]
            o = self.core(self.n(v, st))
            if o.op == "obj" and m in ("deref_mut", "as_mut_slice") and v.op == "ref":
                return [(st, v)]
        return None

    def outside_el(self, v):
        """lists that occur in v as a whole"""
        out, todo = set(), [v]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
            elif isinstance(x, V) and x.op == "obj":
                out.add(x)
            elif isinstance(x, V) and x.op != "el":
                todo.extend(x.a)
        return out

    def listop(self, o, fn, args, st, t, c, m):
        g = st.ev
        ret = t[7] if t else None
        if m in ("push", "insert", "push_back"):
            p = self.core(self.n(args[-1], st))
            ch = dict(reported=tuple(sorted(set(g.reported) | {(p, o)}, key=lambda x: (id(x[0]), id(x[1])))))
            if p in g.written:
                self.lists.add(o)
                ch["written"] = tuple(x for x in g.written if x is not p)
                ch["iterated"] = g.iterated
            st.ev = g.set(**ch)
            v = UNIT if m != "insert" else self.cap(mk("call", c, o, p, ty=ret), self.site)
            return [(st, v)]
        if m in ("extend", "append", "extend_from_slice"):
            for a in args:
                self.blur(st, self.n(a, st))
            return [(st, UNIT)]
        if m in ("sort", "sort_unstable", "dedup", "reserve", "shrink_to_fit", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key",
                 "sort_by_cached_key", "reverse"):
            return [(st, UNIT)]
        if m in ("clear", "truncate", "retain", "pop", "remove", "swap_remove", "drain", "split_off", "retain_mut", "pop_if", "dedup_by_key", "dedup_by") and \
                "Vec" in c:
            if m == "drain":
                return None
            if m in ("dedup_by_key", "dedup_by", "retain", "retain_mut"):
                k = self.keeps(m, o, args, st)
                if k is not False:
                    if k is None:
                        self.und.add(f"what {m} removes from the list of changed files")
                    return [(st, UNIT)]
            self.drops.setdefault(o, (m, self.where(), self.sp))
            return [(st, UNIT if m in ("clear", "truncate", "retain", "retain_mut", "dedup_by_key", "dedup_by") else self.cap(mk("call", c, o, ty=ret), self.site))]
        return None

    def keeps(self, m, o, args, st):
        """does the closure remove only entries that occur twice? (None: not known)"""
        vs = self.closures(args[1:], st)
        if not vs:
            return None
        cur, prev = mk("const", "#entry", vs[0]), mk("const", "#next entry", vs[0])  # any two entries
        try:
            rs = self.apply_value(vs[0], [mk("rv", cur)] + ([mk("rv", prev)] if m == "dedup_by" else []), st.copy(), None, self.sp)
        except Unsupported:
            return None
        rs = [(s, self.core(self.n(r, s))) for s, r in rs or []]
        if not rs:
            return None
        if m == "dedup_by_key":
            if all(r is cur for s, r in rs):
                return True
            terms = [r for s, r in rs]
        elif m == "dedup_by":
            terms = []
            for s, r in rs:
                if r.op == "bool" and not r.a[0]:
                    continue
                eqs = [k for k in self.eqs if self.inner(k) & {cur, prev}] + [x for x in self.inner(r) if x.op == "eq"]
                if any({self.core(x) for x in k.a} == {cur, prev} for k in eqs):
                    continue
                terms += eqs + [r]
            if not terms:
                return True
        else:
            if all(r.op == "bool" and r.a[0] or r.op == "call" and mname(r.a[0]) in ("insert", "replace") and any(self.core(x) is cur for x in r.a[1:]) for s, r in rs):
                return True
            if any(x.op == "call" and re.search(r"(Set|Map)\b", x.a[0]) for s, r in rs for y in [r] + list(s.facts) for x in self.inner(y)):
                return None
            return False
        if any(x.op == "call" and mname(x.a[0]) in ("file_name", "file_stem", "extension", "parent", "len", "starts_with", "ends_with", "is_file", "exists")
               for y in terms for x in self.inner(y)):
            return False
        return None

    def equal(self, a, b, st):
        a, b = self.core(a), self.core(b)
        if a is b and a.op not in ("wide",):
            return [(st, True)]
        if a.op == "str" and b.op == "str":
            return [(st, a.a[0] == b.a[0])]
        for x, y in ((a, b), (b, a)):
            if x.op == "str" and x.a[0] == FLAG:
                g = st.ev
                if self.args_fact(y):
                    cur = y.op == "el" and y.a[1] == "cur"
                    if g.dry == "no":
                        return [(st.copy() if 0 else st, False)]
                    k = mk("eq", y, x)
                    if k in st.facts:
                        return [(st, bool(st.facts[k]))]
                    yes = st.copy()
                    yes.facts[k] = 1
                    yes.ev = g.set(dry="yes", curchk=True if cur else g.curchk)
                    st.facts[k] = 0
                    if cur:
                        st.ev = g.set(curchk=True)
                    return [(yes, True), (st, False)]
        if a.op == "str" or b.op == "str":
            x, y = (a, b) if a.op == "str" else (b, a)
            k = mk("eq", y, x)
        else:
            if a.op in ("adt", "tup") or b.op in ("adt", "tup"):
                return None
            x, y = sorted((a, b), key=id)
            k = mk("eq", x, y)
            if a.op == "const" or b.op == "const" or any(z.op == "const" and z.a[0] == "#entry" for z in self.inner(k)):
                self.eqs.add(k)
        if k in st.facts:
            return [(st, bool(st.facts[k]))]
        if any(z.op in ("obj", "wide", "out") for z in self.inner(k)):
            return [(st.copy(), True), (st, False)]
        yes = st.copy()
        yes.facts[k] = 1
        st.facts[k] = 0
        return [(yes, True), (st, False)]

    def whole(self, st):
        """does any argument equal the flag?"""
        g = st.ev
        if g.dry == "yes":
            return [(st, mk("bool", True))]
        if g.dry == "no":
            return [(st, mk("bool", False))]
        yes = st.copy()
        yes.ev = g.set(dry="yes")
        st.ev = g.set(dry="no")
        return [(yes, mk("bool", True)), (st, mk("bool", False))]

    def search(self, m, args, st, t, ret):
        vs = self.closures(args[1:], st)
        if not vs:
            return None
        out = []
        was = st.ev.dry
        g0 = st.ev
        src = self.src(args[0], st)
        isargs = src.op == "sym" and src.a[0] == ARGS
        if isargs and m in ("any", "position", "find", "all"):
            # over the whole list of arguments: not a step of the loop over them
            s0 = st.copy()
            self.advance(src, s0)
            el = mk("el", src, "cur")
            a = [mk("rv", el)] if m == "find" else [el]
            hit = {}
            for s, r in self.apply_value(vs[0], a, s0, t, self.sp):
                for s2, o in self.branches(r, [0], None, s):
                    hit.setdefault(0 if o in (0, False) else 1, []).append(s2)
            flagq = any(mk("eq", el, mk("str", FLAG)) in s.facts for ss in hit.values() for s in ss) or was != "unknown"
            pos = [s for s in hit.get(1, [])]
            neg = [s for s in hit.get(0, [])]
            allf = m == "all"
            res = []
            for s in (neg if allf else pos):
                if m == "find":
                    res.append((s, some(el)))
                elif m == "position":
                    res.append((s, some(mk("call", "position", src, ty=None))))
                else:
                    res.append((s, mk("bool", not allf)))
            for s in (pos if allf else neg):
                # holds for every element
                k = mk("eq", el, mk("str", FLAG))
                if s.facts.get(k) == 0 and was == "yes":
                    continue
                if s.facts.get(k) == 0:
                    s.ev = s.ev.set(dry="no")
                elif flagq and was == "unknown" and s.ev.dry == "yes" and s.facts.get(k) == 1:
                    pass
                res.append((s, none() if m in ("find", "position") else mk("bool", allf)))
            return self.dedup(res)
        work = [(st, 0)]
        for _ in range(2):
            nw = []
            for s, i in work:
                for s2, x in self.next(args[0], s, t):
                    if x is None:
                        if i == 0 and m in ("all", "any"):
                            continue          # (vacuous: the same result as a search that ends there)
                        out.append((s2, {"all": mk("bool", True), "any": mk("bool", False), "for_each": UNIT,
                                         "try_for_each": mk("adt", "std::result::Result", 0, UNIT)}.get(m) or none()))
                        continue
                    a = [mk("rv", x)] if m == "find" else [x]
                    for s3, r in self.apply_value(vs[0], a, s2, t, self.sp):
                        if isinstance(r, Panic):
                            continue
                        if m == "for_each":
                            nw.append((s3, 1))
                            continue
                        if m in ("try_for_each", "find_map"):
                            d = self.disc(self.resolve(r, s3), None)
                            for s4, o in self.branches(d, [0, 1], None, s3):
                                if o == 1:
                                    out.append((s4, self.resolve(r, s4)))
                                else:
                                    nw.append((s4, 1))
                            continue
                        for s4, o in self.branches(r, [0], None, s3):
                            o = 0 if o in (0, False) else 1
                            stop = (m == "all") != bool(o)
                            if stop:
                                out.append((s4, {"all": mk("bool", False), "any": mk("bool", True), "find": some(x),
                                                 "position": some(self.cap(mk("call", "position", src), self.site))}[m]))
                            else:
                                nw.append((s4, 1))
            work = nw
        for s, i in work:
            for s2, x in self.next(args[0], s, t):
                if x is None:
                    out.append((s2, {"all": mk("bool", True), "any": mk("bool", False), "for_each": UNIT,
                                     "try_for_each": mk("adt", "std::result::Result", 0, UNIT)}.get(m) or none()))
        return self.dedup(out)

    def drain(self, v, st, t, m, ret):
        out, work, seen = [], [st], set()
        n = 0
        while work:
            s = work.pop()
            k = self.key(s, 0)
            if k in seen:
                continue
            seen.add(k)
            n += 1
            if n > 200:
                raise Unsupported("adaptor")
            for s2, x in self.next(v, s, t):
                if x is None:
                    out.append((s2, self.cap(mk("call", "::" + m if m == "collect" else m, self.n(v.a[0], s2), mk("sym", v.op), ty=ret), self.site)))
                else:
                    work.append(s2)
        return self.dedup(out)

    # ------------------------------------------------------------------ commands
    def brief(self, v):
        """keep the constants of a command line"""
        if v.op == "str" or v.op == "bool":
            return v
        if v.op in ("arr", "tup"):
            return mk(v.op, *[self.brief(x) for x in v.a])
        w = self.core(v)
        if w is not v:
            return self.brief(w)
        if v.op == "call" and mname(v.a[0]) in ("box_new", "from", "new"):
            return mk("call", v.a[0], *[self.brief(x) for x in v.a[1:]])
        return mk("sym", "?")

    def cmdname(self, cmd):
        s = self.cmdstrs(cmd)
        return "command " + " ".join(s[:3]) if s else "a command"

    def cmdstrs(self, v):
        if v.op == "str":
            return [v.a[0]]
        if v.op == "call":
            m = mname(v.a[0])
            if m in ("current_dir", "env", "envs", "stdin", "stdout", "stderr", "env_remove", "env_clear"):
                return self.cmdstrs(v.a[1])
            if m in ("new", "arg", "args", "from", "into", "to_owned", "to_string", "clone", "into_iter", "iter", "to_vec", "into_vec", "box_new", "as_ref"):
                return [s for x in v.a[1:] for s in self.cmdstrs(x)]
            return ["?"]
        if v.op in ("arr", "tup"):
            return [s for x in v.a for s in self.cmdstrs(x)]
        return ["?"]

    def readonly(self, cmd):
        s = self.cmdstrs(cmd)
        if not s:
            return False
        p = s[0].rsplit("/", 1)[-1]
        if p in ("powershell", "pwsh", "powershell.exe", "sh", "bash", "cmd"):
            rest = [x for x in s[1:] if not x.startswith(("-", "/"))]
            return bool(rest) and all(re.match(r"(Get-Date|date)\b[^;&|>]*$", x) for x in rest)
        if p not in READ_PROG:
            return False
        ok = READ_PROG[p]
        if ok is None:
            return True
        rest = s[1:]
        i = 0
        while i < len(rest) and rest[i] in ("-C", "-c", "--git-dir", "--work-tree", "--no-pager"):
            i += 1 if rest[i] == "--no-pager" else 2
        return i < len(rest) and rest[i] in ok and not any(x.startswith("--output") for x in rest)

    # ------------------------------------------------------------------ end of the program
    def finish(self, st):
        self.ends += 1
        g = st.ev
        if g.written:
            if True:
                self.sp = ""
                self.late.append((g.fuzzy, "a path of the program that ends successfully writes " +
                                     ", ".join(repr(p)[:160] for p in g.written) + " and does not add that path to the list of changed files"))
        for p, o in g.reported:
            if o not in self.lists:
                continue
            if o in self.printed or ("whole", o) in self.printed:
                continue
            self.und.add("list of changed files is printed in a way that is not understood") if (o in g.fuzzy or o in g.iterated) else None
        self.itered |= set(g.iterated)


def analyse(rep):
    fs = sorted(glob.glob(os.path.join(P.REPO, ".codex/skills/*/scripts/prepare_release.rs")) or
                glob.glob(os.path.join(P.REPO, "**/prepare_release.rs"), recursive=True))
    if not fs:
        rep.undecided.append("prepare_release.rs not found")
        rep.cov.update(explanation="the script is not there", functions=0)
        return
    src = open(fs[0], encoding="utf8").read()
    m = re.match(r"\A#![^\n]*\n---(?:cargo)?\n(.*?)\n---\n", src, re.S)
    src = "\n" * (m.group(0).count("\n") if m else 0) + (src[m.end():] if m else src)
    ed = re.search(r'edition\s*=\s*"(\d+)"', m.group(1)) if m else None
    P.forget()
    d = P.crate("prep", "#![allow(warnings)]\n" + src.replace("\n", "", 1), dep="", edition=ed.group(1) if ed else "2024")
    ok, errs, raw = P.check(d, "prep", dump=("prep",))
    if not ok:
        raise P.Broken("the release script does not compile: " + (errs[0].get("rendered", "") if errs else raw)[:1500])
    prog = Prog(P.facts("prep"))
    main = next((f for f in prog.fns.values() if f["c"] == "prep::main"), None)
    if main is None:
        rep.undecided.append("no main")
        return
    reset()
    eng = PEng(prog)
    eng.site = ("", 0)
    eng.sp = ""
    st = St()
    st.ev = Ghost()
    unfinished = None
    try:
        for s, v in eng.run(main, [], st):
            if v.op == "adt" and v.a[0].endswith("Result") and v.a[1] == 1:
                continue
            eng.finish(s)
    except Unsupported as x:
        unfinished = str(x)
    except RecursionError:
        unfinished = "recursion"
    except Exception as x:
        if os.environ.get("PD_DEBUG"):
            raise
        unfinished = f"{type(x).__name__}: {x}"
    for k, t in eng.viol.items():
        rep.violation(k, t + f"\n  file {os.path.relpath(fs[0], P.REPO)}")
    for o, (m, w, sp) in eng.drops.items():
        if o in eng.lists:
            rep.violation(f"list of changed files loses entries in {w}", f"{m} is called on the list of changed files at {sp}")
    # what is printed at the end
    def shown(o):
        return any(x == ("whole", o) if isinstance(x, tuple) else x is o or mentions(x, o) for x in eng.printed)

    for fz, t in eng.late:
        if any(shown(o) for o in fz):
            eng.und.add("report of written files")
        elif not eng.printed and not eng.lists:
            eng.und.add("report of written files: no printed list found")
        else:
            rep.violation("a written file is not reported", t + f"\n  file {os.path.relpath(fs[0], P.REPO)}")
            break
    for o in sorted(eng.lists, key=str):
        it = any(x is o or mentions(x, o) for x in eng.itered)
        if ("whole", o) in eng.printed:
            continue
        pr = [x for x in eng.printed if not isinstance(x, tuple) and (x is o or mentions(x, o))]
        if not pr:
            its = [x for x in eng.printed]
            if not it and unfinished is None and not any(isinstance(x, V) and mentions(x, o) for x in its):
                if not eng.und and o not in eng.blurred:
                    rep.violation("list of changed files is never printed", f"the list built in {o.a[0]} is filled with changed files and never read")
            continue
        for x in pr:
            if x is not o and any(y.op == "call" and mname(y.a[0]) in ("filter", "take", "skip_while", "take_while", "step_by", "skip", "filter_map") for y in eng.inner(x)):
                rep.violation("part of the changed files is not printed", f"the loop that prints the changed files runs over {x!r}")
            if x in eng.skipped:
                w, sp = eng.skipped[x]
                rep.violation("part of the changed files is not printed", f"an iteration of the loop over the changed files in {w} prints nothing")
    if unfinished:
        rep.undecided.append("main: " + unfinished)
    rep.undecided += sorted(eng.und)
    rep.cov.update(functions=len(eng.fnseen), states=eng.total, effect_sites=sorted(eng.writes), successful_ends=eng.ends,
                   functions_analysed=sorted(x for x in eng.fnseen if x.startswith("prep::"))[:60],
                   explanation=f"The release script's MIR, interpreted abstractly from main with calls inlined: {len(eng.fnseen)} functions, {eng.total} abstract states, "
                   f"{len(eng.writes)} sites that change files or run a state-changing command. Rule: such a site is unreachable on any path on which an argument equals --dry-run, or on "
                   "which no argument passed a check that implies three dot-separated digit strings; and on each path that ends successfully every written path was added to a list that "
                   "is printed completely.")
    rep.assume += ["rustc's MIR is the program that runs", "read-only commands are the listed git/cargo subcommands and Get-Date/date",
                   "a construct the abstract domain does not know gives no verdict (listed as undecided)"]
    return eng


def run(rep, pid, tier, seed):
    analyse(rep)
