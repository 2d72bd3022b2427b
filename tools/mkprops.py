#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the statements are kept)."""
import json, os, sys
D = "parse-display-derive/src/"; R = "parse-display/src/"; W = "parse-display-with/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Display writes exactly what the format says",
  "For every type that derives Display, the text written is the format read from left to right: literal text verbatim (with {{ and }} standing for one brace), and each placeholder replaced by the value it names - its own field (by name, raw name, tuple index, or nested path), the field's own format, or the variant name. Nothing is written before, between or after these pieces, in no other order, and for the variant the value actually is.",
  ["inputs", "programs"], "every deriving struct or enum, every format string, every value of the type",
  "the tests derive about a hundred types and print one or two values of each; the claim is over all formats, field shapes and values",
  [D+"lib.rs", R+"helpers.rs"],
  [("format parser", D+"lib.rs: DisplayFormat::parse"), ("format arguments", D+"lib.rs: DisplayFormat::format_args, VarBase::format_arg"), ("match arms", D+"lib.rs: derive_display_for_enum")],
  ["the generated Display::fmt"])
p("C02", "FromStr accepts only whole inputs",
  "A derived FromStr succeeds only if the entire input, from its first to its last character, is accounted for by the format or the regular expression: no prefix, suffix, extra line or trailing newline is ever ignored. An unconstrained placeholder may stand for any text, including the empty string and text with line breaks.",
  ["inputs", "programs"], "every deriving type, every input string (including multi-line ones)",
  "tests try a few strings per type; inputs with line breaks, prefixes or suffixes in every position are unbounded",
  [D+"parser_builder.rs", D+"regex_utils.rs", R+"helpers_std.rs", R+"lib.rs"],
  [("anchors", D+"regex_utils.rs: hirs_with_start_end"), ("match", D+"parser_builder.rs: build_parse_code")], ["the generated FromStr::from_str"])
p("C03", "Literal text in a format matches only itself when parsing",
  "In a derived FromStr, every literal character of a #[display(\"...\")] format and every variant name matches exactly that character and nothing else, case-sensitively, even when it has a meaning in regular expressions (. * + ? | ( ) [ ] { } ^ $ \\ # & - ~ and whitespace). This holds at every place a literal can come from: struct, enum, variant and field formats, variant names in every style, and variant names inserted into a user's regular expression.",
  ["inputs", "programs"], "every literal in every format, every input",
  "tests use a handful of metacharacters in a handful of positions",
  [D+"parser_builder.rs", D+"regex_utils.rs", D+"lib.rs"],
  [("literal pieces", D+"regex_utils.rs: push_str"), ("variant name in a regex", D+"regex_utils.rs: to_hir_with_expand"), ("string-only formats", D+"parser_builder.rs: ParseFormat::String")], ["the generated FromStr::from_str"])
p("C04", "A field that does not parse makes the whole parse fail",
  "A derived FromStr returns Ok only if every field that appears in the format was itself parsed successfully by its type's FromStr (or its custom parser) from its own piece of the input; a failed conversion is never swallowed, replaced by a default, or retried on other text, and it yields an error. Conversely, when the input matches and every such conversion (and the custom constructor, if any) succeeds, the result is Ok.",
  ["inputs", "programs"], "every deriving type, every input, every field whose conversion fails",
  "tests parse malformed text for a few fields of a few types; they cannot cover which field fails in which shape",
  [D+"parser_builder.rs"],
  [("capture expressions", D+"parser_builder.rs: build_parse_capture_expr"), ("variant attempts", D+"parser_builder.rs: build_parse_variant_code")], ["the generated FromStr::from_str"])
p("C05", "Every field receives the text of its own placeholder",
  "In a derived FromStr each field is assigned the value parsed from the text matched at its own placeholder or capture, never a neighbour's: for named, raw-named and tuple fields, any number of fields (ten and more), any order of placeholders in the format, nested paths, and struct and variant constructors alike.",
  ["inputs", "programs"], "every field layout, every placeholder order, every input",
  "tests use one to three fields, nearly always in declaration order",
  [D+"parser_builder.rs", D+"lib.rs"],
  [("capture numbering", D+"parser_builder.rs: FieldEntry::set_capture, capture_index"), ("constructors", D+"parser_builder.rs: build_construct_code"), ("field order", D+"lib.rs: FieldKey")], ["the generated FromStr::from_str"])
p("C06", "Parsing never panics because of the input",
  "For every input string a derived FromStr (with field types and custom formats that do not panic themselves) returns Ok or Err and never panics, indexes out of range, overflows or aborts. The same holds for the parsing helpers of parse-display-with.",
  ["inputs", "programs"], "every deriving type and every input string",
  "a panic needs one particular input; tests sample a few",
  [D+"parser_builder.rs", R+"helpers_std.rs", R+"helpers.rs", R+"lib.rs", W+"formats.rs"],
  [("absent capture handling", D+"parser_builder.rs: build_parse_capture_expr"), ("one-time regex construction", R+"helpers_std.rs: Parser::new")], ["the generated FromStr::from_str"])
p("C07", "Enum parsing yields a variant only for that variant's own format",
  "A derived FromStr for an enum returns a given variant only for input that matches that variant's format (its own, else the enum's, else its name), tries every variant that is not ignored, and returns an error when none matches. A variant marked #[from_str(ignore)] is never produced, takes no input away from the other variants, and does not contribute to the type's regular expression.",
  ["inputs", "programs"], "every enum, every mixture of unit, literal and data variants, every input",
  "tests use two to four variants and a few inputs",
  [D+"lib.rs", D+"parser_builder.rs"],
  [("variant loop", D+"lib.rs: derive_from_str_for_enum"), ("match arms and attempts", D+"parser_builder.rs: build_parse_variant_code"), ("format inheritance", D+"parser_builder.rs: from_variant")], ["the generated FromStr::from_str"])
p("C08", "Defaults fill exactly the fields the input does not carry",
  "With #[from_str(default)] on a field, that field takes its own type's default when it is absent from the format; with the attribute on a struct, absent fields keep the value they have in the struct's own Default and present fields are overwritten by the parsed value. A field that is present is never left at its default, and nested placeholders overwrite only the nested component they name.",
  ["inputs", "programs"], "every combination of struct-level and field-level default, present, absent and nested fields",
  "tests use one or two such structs",
  [D+"parser_builder.rs"], [("construction", D+"parser_builder.rs: build_construct_code, build_setters, build_field_init_expr")], ["the generated FromStr::from_str"])
p("C09", "#[from_str(new = ...)] builds every parsed value",
  "When #[from_str(new = expr)] is given for a struct or variant, every successful parse of it returns exactly the value that expression yields, with each variable in the expression holding the parsed value of the field of that name (_0, _1, ... for tuple fields); the plain constructor is never used instead. If the expression yields an error or None, parsing does not succeed with that struct or variant.",
  ["inputs", "programs"], "every constructor expression result (plain, Option, Result), every field naming, every input",
  "tests cover a few constructors with one or two fields",
  [D+"parser_builder.rs", R+"lib.rs"], [("construction", D+"parser_builder.rs: build_construct_code"), ("result conversion", R+"lib.rs: IntoResult")], ["the generated FromStr::from_str"])
p("C10", "Custom formats (with = ...) fully replace the field's own",
  "For a field with #[display(with = f)] or #[from_str(with = f)], Display writes that field only through f, and FromStr parses it only through f, on exactly the field's piece of text and restricted by f's pattern; the field type's own Display and FromStr are not used. #[from_str(with)] changes only parsing and takes priority there over #[display(with)].",
  ["inputs", "programs"], "every field and every user-supplied format object",
  "tests use three or four fixed format objects",
  [D+"lib.rs", D+"parser_builder.rs", R+"helpers.rs", R+"helpers_std.rs"],
  [("display side", D+"lib.rs: format_arg"), ("parse side", D+"parser_builder.rs: push_format, str_expr_to_parse_capture_expr")], ["generated fmt and from_str"])
p("C11", "Optional fields: absent shows nothing, present uses the inner type",
  "For a field with #[display(opt)], Display writes nothing at all for None and, for Some(v), writes exactly what the field's format gives for v using the inner type's own implementations, honouring the format parameters. FromStr gives None exactly when the field's piece is absent from the input, and otherwise Some of the inner type's parse result, failing if that fails.",
  ["inputs", "programs"], "every optional field position and combination with formats, nested paths, custom formats; every value",
  "tests use single optional fields with a few values",
  [D+"lib.rs", D+"parser_builder.rs", R+"helpers.rs"],
  [("display side", D+"lib.rs: format_arg_of_field; "+R+"helpers.rs: OptionFormatHelper"), ("parse side", D+"parser_builder.rs: push_field, build_parse_capture_expr")], ["generated fmt and from_str"])
p("C12", "Variant name styles follow one fixed word-splitting rule",
  "For every variant identifier and each of the thirteen styles, the displayed and parsed name is the identifier split into words at non-alphanumeric characters and at each ASCII upper-case letter not preceded by an ASCII upper-case letter, re-cased per word as the style's name shows (first word, first letter of later words, remaining letters) and joined by the style's separator; style none keeps the identifier as written. A variant's own style overrides the enum's, and Display and FromStr always use the same name.",
  ["programs"], "every identifier (any length, digits, underscores, acronyms, non-ASCII letters) in every style",
  "tests convert about fifteen identifiers",
  [D+"lib.rs"], [("style table and word splitter", D+"lib.rs: DisplayStyle::parse, DisplayStyle::apply"), ("precedence", D+"lib.rs: DisplayStyle::from_helper_attributes")], ["names in generated fmt and from_str"])
p("C13", "Format parameters reach the value unchanged",
  "Any format parameter std::format! accepts after the colon with explicit numbers (fill other than a line break, alignment, sign, #, 0, width, precision - not the `name$` forms - and the ?, x?, X?, o, x, X, p, b, e, E traits) is accepted in a placeholder and reaches the placeholder's value unchanged: the value is formatted by exactly that trait with exactly those options, and {:p} prints the address std would print. A placeholder without parameters is formatted by Display with default options.",
  ["inputs", "programs"], "every format specification, every field kind, every value",
  "tests cover a few specifications on a few types",
  [D+"lib.rs", D+"format_syntax.rs", R+"helpers.rs"],
  [("specification grammar", D+"format_syntax.rs: FormatSpec::parse, FormatType"), ("forwarding", D+"lib.rs: DisplayFormat::format_args"), ("pointers", R+"helpers.rs: fmt_pointer")], ["generated fmt"])
p("C14", "Generated impls carry exactly the needed trait bounds",
  "By default the generated impl requires, for each field used in the format whose type mentions a type parameter, the trait that placeholder uses (FromStr when parsing), and nothing for unused fields, non-generic types, or fields with a custom format or (when parsing) an inferred pattern. bound(...) replaces these at its level with exactly the listed types and predicates, `..` keeps the defaults in addition, from_str(bound) overrides display(bound) for parsing only, and the type's own where clause is always kept.",
  ["programs"], "every generic type, every placement of bound attributes",
  "tests only compile a few generic types; a superfluous or missing bound elsewhere is invisible to them",
  [D+"bound.rs", D+"lib.rs", D+"parser_builder.rs", D+"syn_utils.rs"],
  [("bound collection", D+"bound.rs: Bounds, BoundsChild"), ("default bounds", D+"lib.rs: format_arg; "+D+"parser_builder.rs: build_bounds"), ("impl header", D+"syn_utils.rs: impl_trait")], ["predicates of the generated impls"])
p("C15", "Derives work whatever names are in the user's scope",
  "A derive that compiles in an ordinary module also compiles, and means the same, where the user's own items shadow prelude names (Option, Some, Ok, Result, String, Default, format!, write! ...), where field, variant, lifetime or type-parameter names or upper-case constants equal words the expansion uses, where macro_rules produces the item, and under #![deny(warnings)] with unsafe code forbidden.",
  ["programs", "configurations"], "every user scope and naming",
  "tests contain one shadowing case; scopes and names are unbounded",
  [D+"lib.rs", D+"parser_builder.rs"], [("absolute paths in the generated code", D+"lib.rs and "+D+"parser_builder.rs: quote! templates")], ["the expansion"])
p("C16", "#[display(crate = ...)] is the only way the runtime is named",
  "Every reference that generated code makes to this crate goes through the path given by #[display(crate = path)], and through ::parse_display only when none is given; so a derive with that attribute compiles and works in a program where the crate is visible only under another name.",
  ["programs", "configurations"], "every attribute combination with a custom crate path",
  "one test uses a custom path with a single simple type",
  [D+"lib.rs", D+"parser_builder.rs"], [("crate path threading", D+"lib.rs: HelperAttributes::crate_path, CodeContext")], ["the expansion"])
p("C17", "Display works without std",
  "With default features off, the runtime crate links no std and allocates nothing, and derived Display and string-only FromStr code refers to core only, so it compiles in a #![no_std] program without an allocator.",
  ["programs", "configurations"], "every derive that the no-std build supports",
  "the no-std test run still links std into the test binary, so a stray std or alloc path in generated code goes unnoticed",
  [R+"lib.rs", R+"helpers.rs", D+"lib.rs", W+"formats.rs"], [("feature gates", R+"lib.rs"), ("generated paths", D+"lib.rs")], ["the expansion in a no_std crate"])
p("C18", "Built-in type patterns cover every displayed value",
  "For each standard type with a FromStrRegex implementation, the whole pattern matches every string that the type's Display can produce (every value, both signs, extremes, NaN and infinities, and for integers also padded with zeros to a width), and admits only strings in the syntax that type's FromStr understands. String-like types accept any string, including empty and multi-line ones, and a char any single character.",
  ["inputs"], "every value of every supported type",
  "tests try a few numbers per type",
  [R+"from_str_regex.rs"], [("patterns", R+"from_str_regex.rs")], ["FromStrRegex::from_str_regex"])
p("C19", "A derived type's own pattern describes what it parses",
  "For every type deriving FromStr, the pattern reported by FromStrRegex matches exactly the strings that its from_str accepts before converting fields: same literals, alternatives (all non-ignored variants), optional parts and field patterns, self-contained so that, embedded as a group in a larger pattern, it keeps its meaning and adds no named captures.",
  ["inputs", "programs"], "every deriving type, every string",
  "tests compare a few patterns on a few strings",
  [D+"lib.rs", D+"parser_builder.rs", R+"helpers_std.rs"], [("pattern emission", D+"parser_builder.rs: build_from_str_regex_body, build_regex_fmts_args; "+D+"lib.rs: derive_from_str_for_enum")], ["the generated FromStrRegex::from_str_regex"])
p("C20", "User regular expressions keep their meaning and their captures",
  "In #[from_str(regex = \"...\")], (?<name>), (?P<name>), tuple-index, nested and empty capture names bind to exactly the field (or variant name, or the field itself) they name, an escaped \\( is not a capture, unnamed groups never shift what a field receives, and everything else in the expression is matched as the user wrote it. A field's expression applies only to that field's part of the input.",
  ["inputs", "programs"], "every user expression and every input",
  "tests use about twenty expressions",
  [D+"parser_builder.rs", D+"regex_utils.rs"], [("capture rewriting", D+"parser_builder.rs: push_regex"), ("names to indices", D+"parser_builder.rs: build_construct_code")], ["the generated FromStr::from_str"])
p("C21", "The pattern of a field follows the documented priority",
  "The text a placeholder may match is decided by the field's regex if given, else by the pattern of its custom format, else - under regex_infer on the field, variant, enum or struct - by its type's FromStrRegex, else by the shortest-match any-text pattern. The substituted pattern is confined to its placeholder (alternatives and flags inside it do not leak, its groups do not disturb other fields).",
  ["inputs", "programs"], "every combination of pattern sources and levels",
  "tests check single combinations",
  [D+"parser_builder.rs", R+"helpers_std.rs"], [("pattern selection", D+"parser_builder.rs: push_format, FieldEntry::new"), ("substitution", R+"helpers_std.rs: Parser::new, to_ast")], ["the generated FromStr::from_str"])
p("C22", "Attribute scope and precedence are respected",
  "#[from_str(...)] attributes never change derived Display; for parsing they override #[display(...)]; a variant's format, style and constructor override the enum's and apply to that variant only; repeated attributes accumulate with the last given value winning. Deriving only one of the two traits gives the same impl as deriving both.",
  ["programs"], "every combination of attributes at type, variant and field level",
  "tests combine few attributes at a time",
  [D+"lib.rs", D+"parser_builder.rs"], [("attribute reading", D+"lib.rs: HelperAttributes::from, set_display_args, set_from_str_args"), ("variant precedence", D+"parser_builder.rs: from_variant")], ["generated fmt and from_str"])
p("C23", "Delimited collections are written and read item by item",
  "The join and delimiter formats write the items in iteration order, each through the item format, with exactly one delimiter between consecutive items and none before the first or after the last, and read by splitting at every occurrence of the delimiter, parsing every piece (empty ones too) with the item format, keeping order, and failing if any piece fails.",
  ["inputs"], "every collection length, item format, delimiter and input",
  "tests use a few short collections",
  [W+"formats.rs"], [("writing and reading", W+"formats.rs: Join")], ["DisplayFormat::write, FromStrFormat::parse"])
p("C24", "Malformed attributes are reported as located compile errors",
  "Every malformed helper attribute that a derive reads (unclosed or stray brace, unknown field or style, bad regular expression, missing or impossible format, unknown trait letter in a Display format, unknown or ill-formed option, `default` on an enum, `opt` on a field that is no Option, `{}` in a struct format, a union) is rejected with a compile error that points at user code, and is neither silently accepted nor reported as a crash of the macro. Not read: a format spec by FromStr alone, a regex overridden by that of the enclosing item, the fields of an ignored variant.",
  ["programs"], "every malformed attribute",
  "about twenty fixed compile-fail cases exist; the ways to misuse attributes are unbounded",
  [D+"lib.rs", D+"parser_builder.rs", D+"syn_utils.rs", D+"format_syntax.rs", D+"bound.rs"], [("error returns", D+"syn_utils.rs: bail!, into_macro_output")], ["compiler diagnostics"])
p("C25", "Errors and constructor results convert without loss",
  "A plain value, Some(v) and Ok(v) from a custom constructor all become success with that same value; None and Err(e) become failure, with e kept; the error type's text is the stored message and its default is the generic one. The function-based custom formats call exactly the supplied function with the given arguments and return its result unchanged.",
  ["inputs"], "every value and error",
  "tests call each conversion once or twice",
  [R+"lib.rs", R+"helpers.rs", W+"formats.rs"], [("conversions", R+"lib.rs: IntoResult, ParseError"), ("adapters", R+"helpers.rs: Formatted, parse_with; "+W+"formats.rs: fmt, fmt_display, fmt_from_str")], ["public API"])
p("C26", "Parsing depends on the input alone",
  "The result of parsing is a function of the input string and the type only: generated code and the runtime keep no state between calls other than a write-once compiled matcher per struct or variant whose content does not depend on any input (generic parameters that supply patterns aside), so earlier calls, other types and concurrent threads cannot change a result.",
  ["histories", "schedules", "programs"], "every sequence and interleaving of calls",
  "tests call each parser once or a few times in one thread",
  [D+"parser_builder.rs", R+"helpers_std.rs"], [("per-variant once cell", D+"parser_builder.rs: build_parse_code")], ["statics reachable from generated from_str"])
p("C27", "Display and FromStr read one format the same way",
  "For a type that derives both traits from the same #[display] attributes without regex overrides, the sequence of literals, variant names, fields and optional parts that FromStr matches is the sequence that Display writes, so any displayed value is matched piece by piece by its own type's parser.",
  ["inputs", "programs"], "every type deriving both traits, every value",
  "tests round-trip a few values of a few types",
  [D+"lib.rs", D+"parser_builder.rs"], [("shared format reading", D+"lib.rs: DisplayFormat, VarBase; "+D+"parser_builder.rs: push_format")], ["generated fmt and from_str"])
p("C28", "Write errors stop output and are returned",
  "When the destination reports an error at any point, derived Display and the formatting helpers write nothing further and return the error; they return success only if every piece was written successfully.",
  ["fault_sequences", "programs"], "every point at which the destination can fail",
  "no test writes into a failing destination",
  [D+"lib.rs", R+"helpers.rs", W+"formats.rs"], [("result returned from every write", D+"lib.rs: FormatArgs::build_write; "+R+"helpers.rs; "+W+"formats.rs")], ["generated fmt, Join::write"])
p("C29", "Patterns from field types lose their captures before use",
  "A pattern supplied by a field's custom format or type may contain unnamed groups; they are used for matching only, so the position and number of such groups never changes which text any field receives, while a pattern with a named group or an invalid one is refused when the matcher is built. Recursion reaches groups nested in any syntax (repetition, alternation, concatenation, group).",
  ["inputs", "programs"], "every pattern a field type can supply",
  "tests use one pattern with groups",
  [R+"helpers_std.rs"], [("capture stripping", R+"helpers_std.rs: ast_from_str, replace_ast, Parser::new")], ["helpers used by generated from_str"])
p("C30", "A dry-run release preparation changes nothing",
  "The repository's release preparation tool writes no file and runs no state-changing command when asked for a dry run, and likewise when the version argument is missing or is not three dot-separated numbers. In a real run that ends successfully, every file it changed is one it reported as changed.",
  ["inputs", "fault_sequences"], "every version argument and repository state",
  "the tool has no tests",
  [".codex/skills/prepare-release/scripts/prepare_release.rs"], [("dry-run switch", ".codex/skills/prepare-release/scripts/prepare_release.rs")], ["the tool's file writes"])
p("C31", "Deriving the same item always generates the same code",
  "The code (or the compile error) the derives produce is a function of the item they are applied to and nothing else: not of the iteration order of a hash table, environment variables, files, the clock, where the item stands in its file, the debug text of spans, or the items expanded before it in the same compilation. So builds are reproducible and an incremental or cached build means the same as a fresh one.",
  ["programs", "histories", "schedules"], "every item, every compilation, every order of expansions",
  "a test sees one expansion of each item in one process; a dependence on hash seeds, environment or earlier expansions shows only across builds, and then rarely",
  [D+"lib.rs", D+"parser_builder.rs", D+"bound.rs", D+"syn_utils.rs", D+"regex_utils.rs"],
  [("hash tables that are only looked up", D+"parser_builder.rs: ParserBuilder captures, deep_captures"), ("entry points", D+"lib.rs: derive_display, derive_from_str")], ["the expansion"])
p("C32", "The derives add no compiler warning",
  "Every lint rustc reports on a crate that derives Display or FromStr it would also report, at the same place, if the derives expanded to nothing: no warning about names, deprecated types, unused or unreachable code, unsafe code or missing documentation is caused by the generated code, and a crate that forbids these lints still compiles. Exceptions: the intended deprecation of default_fields, and what the user writes inside a helper attribute (a deprecated path there, say). Lint levels set at crate or module level.",
  ["programs"], "every deriving type, edition and crate- or module-level lint setting",
  "the tests compile a few hundred types under one lint setting, and a new warning does not fail them",
  [D+"syn_utils.rs", D+"parser_builder.rs", D+"lib.rs"], [("spans of generated code", D+"syn_utils.rs: impl_trait"), ("bindings named after fields", D+"parser_builder.rs: build_construct_code")], ["compiler diagnostics"])
p("C33", "A derive adds exactly the documented impls",
  "#[derive(Display)] adds one impl of core::fmt::Display and #[derive(FromStr)] one impl of core::str::FromStr with Err = ParseError and (with the std feature) one of FromStrRegex, for the type with all its own generic parameters, and nothing else: no other trait impl, no inherent method, and no named item, import or macro in the user's scope. So the user stays free to write any other impl or item.",
  ["programs"], "every deriving type",
  "a test fails only if it happens to define the very impl or item that was added",
  [D+"lib.rs", D+"syn_utils.rs"], [("impl headers", D+"syn_utils.rs: impl_trait"), ("expansions", D+"lib.rs: derive_display_for_struct, derive_from_str_for_struct, derive_display_for_enum, derive_from_str_for_enum")], ["the expansion"])
p("C40", "Parsing a displayed value gives the value back",
  "For every type deriving both traits with unambiguous formats, parsing the displayed text of any value returns an equal value.",
  ["inputs", "programs"], "every type and every value",
  "tests round-trip a few values",
  [D+"lib.rs", D+"parser_builder.rs"], [("shared format", D+"lib.rs: DisplayFormat")], ["round trip"])
p("C41", "Matching time stays linear in the input",
  "For a fixed type, the time to parse grows linearly with the length of the input, whatever the input.",
  ["inputs"], "every input",
  "tests use short inputs",
  [D+"parser_builder.rs", R+"helpers_std.rs"], [("regex crate", R+"helpers_std.rs: Parser")], ["run time"])
out = "".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P)
dst = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(dst, "w").write(out)
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
