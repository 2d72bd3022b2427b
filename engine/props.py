"""Which analyses decide which property."""
import bounds
import determ
import hygiene
import lints
import malformed
import pmatrix
import release
import runtime
import surface

CHECKS = {}


def add(pid, level, *run, **k):
    CHECKS[pid] = dict(level=level, run=list(run), **k)


RT = ("C06", "C10", "C11", "C19", "C21", "C26", "C28")
RTN = " The runtime functions behind it are analysed on their own as well, for every input and caller: all paths and loop iterations up to a fixpoint."
for _p in pmatrix.KINDS:
    if _p in RT:
        add(_p, "translation_validation", pmatrix.run, runtime.run)
    else:
        add(_p, "translation_validation", pmatrix.run)
RULE = "abstract interpretation of the runtime crates' MIR to a fixpoint over all paths and loop iterations, with a typestate monitor on what is written and symbolic terms for what is called, stored and returned"
add("C18", "other", runtime.run, tech="constant propagation on MIR to each type's pattern, then inclusion of regular languages decided on automata",
    note="Decides, for all values at once, that the language Display can write is inside the pattern and the pattern inside the type's FromStr syntax. Trusts the table of what core's Display and FromStr "
         "implementations write and read, and regex-syntax's parse of the pattern.")
add("C23", "other", runtime.run, tech=RULE,
    note="Complete over iteration counts and write failures for the functions it understands; trusts str::split and the Iterator adaptors as documented. A construct outside the abstract domain gives no verdict (counted as undecided), not an alarm.")
add("C25", "other", runtime.run, tech=RULE,
    note="Every path of the conversion impls and function-based formats, for all values and functions. Constructs outside the abstract domain give no verdict (counted as undecided).")
add("C29", "other", runtime.run, tech="abstract interpretation of the pattern-substitution code's MIR: the recursion over the syntax tree is checked node kind by node kind, with the recursive call as induction hypothesis",
    note="Covers every syntax tree of any depth by induction. Trusts regex-syntax's parser, its Ast layout and its printer. Constructs outside the abstract domain give no verdict (counted as undecided).")
add("C14", "translation_validation", bounds.run,
    tech="translation validation: the predicates rustc computes for every generated impl header, compared with the documented bound rule over a family of generic types",
    note="Decides the where clause completely for each witness (name-resolved predicates, no execution). The family is finite: 500 generic types per run (thorough 3,260) over type/variant/field bound(..), "
         "`..`, inner formats, helpers, Option fields, regex-only formats and 17 field types.")
SC = "translation validation in hostile surroundings: witness types compiled in scopes/crates/configurations where only fully qualified core/runtime names work, generated MIR compared with the reference semantics"
add("C15", "translation_validation", hygiene.run_c15, tech=SC,
    note="About 1,050 witness programs per run (thorough: 4x) in seven kinds of scope. Decides name resolution and meaning for each program completely; a name collision outside the listed names and scopes is missed.")
add("C16", "translation_validation", hygiene.run_c16, tech=SC,
    note="About 1,290 witness programs per run whose crate knows the runtime only as `pd`; complete for each program (an unresolved or mis-resolved path cannot compile or changes the analysed calls).")
add("C17", "translation_validation", hygiene.run_c17, tech="crate-graph query plus translation validation: witness types compiled under #![no_std] with default features off; rustc's list of loaded crates must not contain std or alloc",
    note="The crate-list argument is complete for the runtime crates (nothing reachable can allocate if neither alloc nor std is loaded). The derive half covers about 1,300 witness programs per run.")
add("C24", "other", malformed.run, tech="compile-fail witnesses: items with exactly one planted fault must be refused by rustc with an error located in the item and without a crash of the macro",
    note="About 10,500 malformed items per run (thorough: about 50,000) in 25 kinds of fault: a catalogue of faults times positions, and faults planted in every witness of the matrix. Complete for each item; "
         "the ways to be malformed are unbounded, so a kind of fault outside the catalogue is missed.")
add("C30", "other", release.run, tech="path-sensitive typestate analysis of the release script's MIR, interprocedural from main, over symbolic terms with a ghost monitor (dry run, version checked, written, reported)",
    note="Every path of the script for every argument list and repository state, loops to a fixpoint. A construct outside the abstract domain gives no verdict (listed as undecided), not an alarm. "
         "Paths are compared as terms, so two spellings of one path count as two.")
add("C31", "other", determ.run, tech="effect and determinism analysis (taint of hash iteration order, ambient reads, mutable statics) over the MIR of every function of the derive crate",
    note="Covers every function of parse-display-derive on every item. Trusts syn, quote, proc-macro2, regex-syntax and structmeta to be deterministic. Order-dependent searches over a hash table "
         "and caches keyed by the item give no verdict (counted as undecided).")
add("C32", "translation_validation", lints.run, tech="differential lint queries: rustc's lints over the expanded program, with the real derives and with stand-ins that expand to nothing",
    note="About 2,400 witness programs per run (thorough: 6x the generated ones) in seven settings, and about 900 with the lints forbidden. Decides each program completely for rustc's lints; "
         "clippy's lints and lint levels set on the item itself are outside the statement.")
add("C33", "translation_validation", surface.run, tech="query over rustc's tables of the impls and items each derive expansion defines, for a family of witness types",
    note="About 1,500 witness programs per run (thorough: 6x the generated ones), in modules, functions and constants. Complete for each program: every impl and item the expansion defines is listed by rustc.")
