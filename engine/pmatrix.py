"""Properties decided on the witness matrix (translation validation of the generated impls)."""
import itertools
import re

import check as C
import focus
import matrix as X
import model as M
import pipeline as P

# kinds of disagreement that break each property, on whichever witness they appear
KINDS = {
    "C01": {"text", "value", "extra", "missing", "variant", "name", "dpanic"},
    "C02": {"anchor", "gate", "body"},
    "C03": {"literal"},
    "C04": {"conv", "spurious"},
    "C05": {"route", "capture", "nested"},
    "C06": {"panic"},
    "C07": {"variant", "missing", "ignore", "gate", "ctor", "variant-try"},
    "C08": {"default", "nested"},
    "C09": {"new", "new-missing"},
    "C10": {"with"},
    "C11": {"opt"},
    "C12": {"name"},
    "C13": {"spec"},
    "C19": set(),
    "C20": set(),
    "C21": {"infer", "greedy", "subst"},
    "C22": set(),
    "C26": {"state", "effect"},
    "C27": set(),
    "C28": {"werr", "spurious-fmt-err"},
}
# impls a property speaks about
IMPLS = {"C01": ("Display",), "C12": ("Display", "FromStr", "FromStrRegex"), "C13": ("Display",), "C28": ("Display",), "C19": ("FromStrRegex",),
         "C02": ("FromStr",), "C03": ("FromStr", "FromStrRegex"), "C04": ("FromStr",), "C05": ("Display", "FromStr"), "C06": ("FromStr",), "C07": ("FromStr", "FromStrRegex"),
         "C08": ("FromStr",), "C09": ("FromStr",), "C20": ("FromStr", "FromStrRegex"), "C21": ("FromStr", "FromStrRegex"), "C26": ("FromStr",)}
# a property for which every disagreement of one impl counts
ALLOF = {"C19": "FromStrRegex"}
LEVEL = "translation_validation"


def applies(pid, w, impl, kinds):
    if impl not in IMPLS.get(pid, ("Display", "FromStr", "FromStrRegex")):
        return False
    if ALLOF.get(pid) == impl:
        return True
    if pid in w.tags:
        return True
    if kinds & KINDS[pid]:
        return True
    # features that only some witnesses have
    if pid == "C20" and kinds & {"capture", "regex", "body"} and "C20" in X.feats(w):
        return True
    if pid == "C27" and {"Display", "FromStr"} <= set(w.derive) and not ({"C20"} & X.feats(w)) and kinds & {"value", "route", "text", "literal"}:
        return True
    return False


def own(pid, tier, seed):
    """witnesses generated for this property, and others with a richer vocabulary"""
    for k in range(1 if tier == "quick" else 8):
        special = hasattr(focus.Focus, pid.lower())
        if special:
            yield "witf", focus.pool(pid, seed + 1000 * k, 400 if tier == "quick" else 700)
        yield "witf", focus.pool("C01", seed + 1000 * k + int(pid[1:]) * 50, (250 if special else 650) if tier == "quick" else (500 if special else 1000))


def run(rep, pid, tier, seed):
    P.forget()
    programs = paths = oblig = tagged = 0
    samples = []
    fns = set()
    for name, ws in itertools.chain(X.pools(tier, seed), own(pid, tier, seed)):
        ws, fails = X.compile(name, ws)
        for f in fails:
            tags = set(f.w.tags) or X.feats(f.w)
            if pid in tags:
                rep.violation("compile: " + sig(f.w), "a type the documentation allows no longer compiles:\n" + M.rust(f.w) + "\n" + f.text[:900])
        if not ws:
            continue
        only = IMPLS.get(pid)
        res, prog = X.analyse(name, ws, only=only)
        programs += len(ws)
        for r in res:
            oblig += 1
            paths += r.stats.get("paths", 0) or 1
            if pid in r.w.tags:
                tagged += 1
            if r.undecided:
                if pid in r.w.tags or not r.w.tags:
                    rep.undecided.append(f"{r.w.name} {r.impl}: {r.undecided}")
                continue
            for f in r.findings:
                if applies(pid, r.w, r.impl, f.kinds):
                    rep.violation(f"{r.impl} of {sig(r.w)}: {f.what}"[:400],
                                  f"generated {r.impl} of\n{M.rust(r.w)}\n  {f.what}\n  kinds: {', '.join(sorted(f.kinds))}; at {f.sp} in {f.fn}")
            if len(samples) < 6 and (pid in r.w.tags) and (tagged % 37 == 1):
                samples.append(dict(source=M.rust(r.w), impl=r.impl, **{k: v for k, v in r.stats.items() if k in ("fn", "paths", "pattern")}))
        if pid in EXTRA:
            EXTRA[pid](rep, name, ws, res, prog)
    if not samples:
        samples = [dict(source=M.rust(ws[0]), impl="Display")]
    rep.cov.update(programs=programs, disagreements_checked=paths, impls_compared=oblig, impls_of_witnesses_written_for_this_property=tagged,
                   rule="each generated impl (MIR after macro expansion, calls into /repo's runtime inlined) is reduced by abstract interpretation to the values it "
                        "writes, matches and builds on every path, and compared with the meaning the documentation gives its attributes; patterns are compared as "
                        "automata. Kinds that count here: " + ", ".join(sorted(KINDS[pid])) + "; any disagreement on a witness written for this property",
                   samples=samples)
    rep.assume += ["rustc's MIR is the program that runs", "std, core, regex and regex-syntax behave as documented (summarised, not analysed)",
                   "the reference meaning in engine/model.py states the documentation"]
    if len(rep.undecided) > oblig // 2:
        print(f"{len(rep.undecided)} of {oblig} impls could not be decided: " + "; ".join(rep.undecided[:3]))


STATE = re.compile(r"^std::(env::|time::|fs::|io::(stdin|stdout|stderr)|process::|net::|sync::(atomic|Mutex|RwLock|mpsc|poison::(mutex|rwlock)))|^(std|core)::(cell::(RefCell|Cell|UnsafeCell)|sync::atomic)|RandomState|^std::hash::random|^std::thread::")
CHANGING = re.compile(r"\b(RefCell|Cell|UnsafeCell|Mutex|RwLock|Atomic\w*|Once|LazyStorage|EagerStorage)\b")


def once_only(ty):
    return re.search(r"\b(OnceCell|OnceLock|LazyCell|LazyLock)\b", ty) and not re.search(r"\b(RefCell|Cell|UnsafeCell|Mutex|RwLock|Atomic\w*)\b", ty)


def state(rep, name, ws, res, prog):
    """C26, on every generated function whether or not its value is understood: no static that can change after it is first written, no ambient state"""
    mine = re.compile(r"^[<&]*%s(::\w+)*::" % re.escape(name))
    n = 0
    for s in prog.statics:
        if not mine.match(s["p"]) or "::usr::" in s["p"]:
            continue
        n += 1
        ty = prog.T[s["ty"]]["s"]
        if s["mut"] or CHANGING.search(ty) and not once_only(ty):
            w = next((w for w in ws if re.search(r"\b%s\b" % re.escape(w.name), s["p"])), None)
            rep.violation("generated code keeps state between calls: %s" % re.sub(r".*::", "", s["p"]), "static %s: %s%s" % (s["p"], ty, "\n  of " + M.rust(w) if w else ""))
    for f in prog.fns.values():
        if not mine.match(f["c"]) or "usr::" in f["c"]:
            continue
        n += 1
        for b in f["b"]:
            t = b["t"]
            if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                r = t[1][1]["fn"]
                d = r.get("rd") or r["def"]
                if STATE.search(d) and not (d.startswith("std::thread::local") and once_only(r["c"])):
                    rep.violation("generated code uses outside state: " + d, "%s calls %s at %s" % (f["c"], d, t[6] or t[5]))
    rep.cov["generated_functions_and_statics_searched_for_state"] = rep.cov.get("generated_functions_and_statics_searched_for_state", 0) + n


EXTRA = {"C26": state}


def sig(w):
    """short stable description of a witness"""
    return " ".join(M.rust(w).split())[:220].replace(w.name, "T") if w.name else "?"
