"""Single source of the claimed properties: metadata for properties.jsonl / MANIFEST.json and the jobs each check runs."""
COMMON_ASSUMPTIONS = [
    "The code is executed symbolically from the LLVM bitcode rustc 1.92.0 emits for the current /repo tree (opt-level 2, debug assertions and overflow checks on, panic=abort); rustc's lowering and the pinned toolchain's libLLVM used to read the bitcode are trusted.",
    "The symbolic executor (rsx, /verif/engine) and Z3 are trusted; every run replays sampled explored paths and every counterexample in a native build of the same harness and fails on any disagreement.",
    "Allocation never fails; stdout is a sink; files and other I/O fail; threads cannot be spawned, so thread schedules are outside the claim; the clock is a constant.",
    "NaN payloads are canonical; symbolic products wider than 64 bits and i128/float conversions are concretised (case split by the solver).",
]
PROPS = {}


def prop(pid, title, statement, over, text, why, files, mech, bounds, jobs, note, **kw):
    PROPS[pid] = dict(title=title, statement=statement, quantifier=dict(over=over, text=text), why=why, files=files, mech=mech, bounds=bounds, jobs=jobs, note=note, **kw)


_VM = "vm-js does not compile with the pinned toolchain 1.92.0 in this tree (the build script leaves it out, and none of its tests are in the stable set), so there is no code to encode: a bitcode module cannot be produced from it."
NA = [  # listed but not claimed
    dict(id="N01", title="The garbage collector never frees what a program can still reach", statement="Whatever a script does, a value reachable from a root, a handle or another reachable value survives every collection, and a handle to a freed slot is detected.",
         over=["histories", "inputs"], text="every sequence of allocations, writes and collections", why="A missing root shows only when a collection falls between two particular steps.",
         files=["vm-js/src/heap.rs", "vm-js/src/handle.rs"], mech=[dict(name="mark and sweep with handles", where="vm-js/src/heap.rs")], reason=_VM),
    dict(id="N02", title="The interpreter runs scripts as ECMAScript says", statement="For every script, evaluation gives the completion, exceptions and order of side effects ECMAScript defines, within its fuel and memory limits.",
         over=["inputs"], text="every script", why="The language is too large to sample.",
         files=["vm-js/src/exec.rs", "vm-js/src/ops.rs", "vm-js/src/destructure.rs"], mech=[dict(name="tree-walking evaluation", where="vm-js/src/exec.rs")], reason=_VM),
    dict(id="N03", title="Microtasks and timers run in the order the host queued them", statement="Promise jobs run to completion before the next task, in the order they were queued, and timers in the order of their deadlines, whatever is queued or cancelled meanwhile.",
         over=["schedules", "histories"], text="every interleaving of queued jobs, timers and cancellations", why="Orders depend on interleavings.",
         files=["vm-js/src/microtasks.rs", "runtime-js/src/lib.rs", "webidl-vm-js/src/lib.rs"], mech=[dict(name="job queues", where="vm-js/src/microtasks.rs")], reason="runtime-js and webidl-vm-js depend on vm-js. " + _VM),
    dict(id="N04", title="Checking a project gives the same result on any number of threads", statement="The diagnostics and types of a project do not depend on how many worker threads check it or on how they are scheduled.",
         over=["schedules"], text="every schedule of the worker threads", why="Races need a particular schedule.",
         files=["typecheck-ts/src/program", "types-ts-interned/src/store.rs"], mech=[dict(name="parallel body checking", where="typecheck-ts/src/program")], reason="The symbolic executor runs one thread; the crates use rayon's and parking_lot's own scheduling code, whose interleavings it cannot make symbolic, and the model checkers for Rust (loom, shuttle) need the code written against them. What does not depend on threads, that identities and their order do not depend on the order of construction, is claimed as C14."),
    dict(id="N05", title="Whole programs get the diagnostics TypeScript gives them", statement="For every TypeScript program, the checker reports the errors tsc reports, at the same places.",
         over=["inputs"], text="every TypeScript program", why="Flow analysis, inference and generics interact without end.",
         files=["typecheck-ts/src/check", "typecheck-ts/src/program"], mech=[dict(name="binding, lowering, checking of bodies", where="typecheck-ts/src/check")], reason="One path through the program database (libraries, salsa queries, rayon) costs about 10^10 instructions, so only a handful of programs, not a space of them, would be within reach; and there is no reference for inference short of tsc itself, which cannot be executed symbolically. The assignability at its core is claimed as C15 against a table computed by tsc."),
]

prop("C01", "The parser is total: an AST or one located syntax error for every input",
     "For every source text, dialect and source type, parsing returns: it never panics, overflows or loops. It yields either a tree or exactly one syntax error whose range lies inside the source, is not reversed and falls on character boundaries.",
     ["inputs", "configurations"], "every UTF-8 text, each of the six dialects, script and module",
     "Tests feed chosen programs; a panic or an endless loop needs an unusual byte next to an unusual prefix (an escape cut short, a stray operator in a type position), which only covering all bytes in all contexts reaches.",
     ["parse-js/src/lex/mod.rs", "parse-js/src/parse/mod.rs", "parse-js/src/parse/expr/mod.rs", "parse-js/src/parse/expr/lit.rs", "parse-js/src/parse/stmt/mod.rs", "parse-js/src/parse/type_expr.rs", "parse-js/src/error.rs"],
     [dict(name="lexer automata and token consumption", where="parse-js/src/lex/mod.rs"), dict(name="recursive descent with checkpoint/rewind", where="parse-js/src/parse/mod.rs"), dict(name="error location", where="parse-js/src/error.rs")],
     "one arbitrary ASCII byte (symbolic) in each of 112 contexts and all 7 dialect/source-type combinations; two arbitrary ASCII bytes in 9 literal-like contexts; one of 8 non-ASCII characters next to an arbitrary ASCII byte; every pair (8 contexts) and triple of 91 tokens. Longer arbitrary texts are outside the claim.",
     [dict(group="a", entries=["ptot_ctx1", "ptot_ctx2", "ptot_uni", "ptot_tok2", "ptot_tok3"], time=300, covers=["parsed", "rejected"])],
     "Every path of the real parser over every text within the bounds; a path that does not end within the instruction limit is replayed natively and reported when it does not terminate.")
prop("C02", "Every node's source range is exact nesting: valid, inside its parent",
     "For every parsed JavaScript or JSX program, every node's range is within the source, not reversed, on character boundaries, and inside the range of the node that contains it; the whole program's range covers them all.",
     ["inputs"], "every JavaScript and JSX program",
     "Ranges are assembled by hand at each of hundreds of construction sites; the tests check a few of them, and diagnostics, span lookups and node IDs trust all of them.",
     ["parse-js/src/loc.rs", "parse-js/src/parse/mod.rs", "parse-js/src/parse/expr/mod.rs", "parse-js/src/parse/expr/lit.rs", "parse-js/src/parse/stmt/mod.rs", "parse-js/src/parse/class_or_object.rs", "parse-js/src/parse/expr/jsx.rs"],
     [dict(name="with_loc and Loc arithmetic", where="parse-js/src/parse/mod.rs"), dict(name="range of converted patterns", where="parse-js/src/parse/expr/util.rs")],
     "every pair of 103 expression templates in an async generator body, each of 56 statement templates with each expression template in 2 contexts, 42 module item templates with each expression template, every pair of 36 JSX templates or atoms. Deeper nesting and TypeScript syntax are outside the claim.",
     [dict(group="a", entries=["span_expr2", "span_stmt", "span_mod", "span_jsx"], time=400, covers=["spans"])],
     "All programs built from the templates within the bounds; every node of each is visited.")
prop("C03", "Literals denote the value ECMAScript gives them",
     "The value recorded for every string, template (cooked and raw), number, bigint and regular expression literal is the one ECMAScript defines for its source text, and a literal ECMAScript rejects in that context is rejected in the strict dialect.",
     ["inputs"], "every literal text",
     "Escapes, separators, digit forms, surrogate pairs and rounding interact; the tests sample a few combinations of each.",
     ["parse-js/src/parse/expr/lit.rs", "parse-js/src/num.rs", "parse-js/src/lex/mod.rs"],
     [dict(name="string/template cooking", where="parse-js/src/parse/expr/lit.rs"), dict(name="number parsing", where="parse-js/src/num.rs")],
     "string bodies up to 4 symbolic bytes in escape contexts, single- and two-escape strings, templates up to 4 characters, numeric literals of up to 5 characters over a digit alphabet and long ones (radix prefix, first digits, up to 65 equal digits, one of 15 endings), brace escapes with up to 14 leading zeros, bigint up to 4, regex flags and bodies up to 3; an independent decoder written from ECMA-262 is the oracle. Longer literals are outside the claim.",
     [dict(group="a", entries=["lit_str1", "lit_str2", "lit_inner", "lit_tpl", "lit_num", "lit_num2", "lit_num3", "lit_big", "lit_regex"], time=200, covers=["string", "rejected", "inner", "template", "uncooked", "number", "bigint", "regex"])],
     "All literal texts within the bounds, compared with an independent decoder.")

prop("C04", "The parser reads operators and line ends as ECMAScript's grammar does",
     "For every sequence of tokens, the tree the parser builds groups operators, calls, member accesses, conditionals, arrows and assignments as ECMAScript's grammar prescribes, ends statements at line breaks exactly where automatic semicolon insertion does, and accepts every such program the grammar accepts, in the strict dialect too.",
     ["inputs"], "every sequence of tokens and line breaks",
     "Precedence, associativity, restricted productions and cover grammars interact pairwise; a misgrouped program changes meaning silently and everything downstream (hoisting, minifying, checking) inherits it.",
     ["parse-js/src/operator.rs", "parse-js/src/parse/expr/mod.rs", "parse-js/src/parse/expr/util.rs", "parse-js/src/parse/stmt/mod.rs", "parse-js/src/parse/mod.rs"],
     [dict(name="precedence climbing", where="parse-js/src/parse/expr/mod.rs"), dict(name="operator table", where="parse-js/src/operator.rs"), dict(name="automatic semicolon insertion", where="parse-js/src/parse/mod.rs")],
     "every sequence of three of 40 tokens; up to five of 21 tokens with every placement of line breaks; an operand (24 forms) in each place of three with every pair of 31 operators; 27 statements followed by every run of up to 3 white-space or semicolon characters (symbolic) in 4 contexts; inside and outside an async generator, both the strict and the recovering dialect; thorough adds sequences of five tokens. An independent recursive descent grammar written from ECMA-262 is the oracle; programs with early errors and parenthesised targets inside destructuring patterns are not judged.",
     [dict(group="a", entries=["prec_tok3", "prec_nl", "prec_ops", "prec_end"], thorough_entries=["prec_tok4"], time=400, max_viol=12, covers=["rejected", "same structure"])],
     "All token sequences within the bounds, compared with an independent grammar. One known deviation (a comma after an arrow function's expression body) is listed in known_findings.jsonl.")
prop("C05", "Printing a JavaScript program and parsing it again gives the same program",
     "For every parsed JavaScript program, the text the AST emitter or the HIR emitter writes, minified or canonical, with semicolons or line breaks between statements, parses again to the same syntax tree (up to empty statements, a block around one statement, and `new a` for `new a()`), is still strict ECMAScript if the source was, and printing the reparsed program changes nothing.",
     ["inputs", "configurations"], "every JavaScript script and module, both emitters, every emit mode and separator style",
     "Whether a pair of parentheses, a space or a semicolon may go depends on the pair of productions around it and on the printer mode; tests list a few dozen of the tens of thousands of pairs.",
     ["emit-js/src/expr.rs", "emit-js/src/stmt.rs", "emit-js/src/hir.rs", "emit-js/src/emitter.rs", "emit-js/src/asi.rs", "emit-js/src/precedence.rs", "hir-js/src/lower.rs", "parse-js/src/parse/expr/mod.rs"],
     [dict(name="parenthesisation and precedence", where="emit-js/src/expr.rs"), dict(name="token separation", where="emit-js/src/emitter.rs"), dict(name="automatic semicolon insertion styles", where="emit-js/src/asi.rs"), dict(name="AST to HIR lowering and HIR printing", where="emit-js/src/hir.rs")],
     "every pair of 103 expression templates (inner one in each hole) in an async generator body, each template with each of 21 atoms in 4 function contexts, each of 56 statement templates with each expression template in 2 contexts, 42 module item templates with each expression template, two-statement sequences of 47 x 39 statements with each separator in 4 contexts; AST and HIR emitters, minified and canonical. Deeper nesting is outside the claim. Texts are chosen by the engine's forks over template indices.",
     [dict(group="a", entries=["rt_expr2", "rt_stmt", "rt_atom", "rt_mod", "rt_asi"], time=600, covers=["same", "strict"])],
     "All programs built from the templates within the bounds, in every emit mode listed.")
prop("C06", "Printed literals keep their exact value",
     "For every string, template and number literal (and string property key), the text either emitter writes, with any quote style, minified or canonical, parses to a literal with exactly the same UTF-16 code units or number, wherever the literal stands.",
     ["inputs", "configurations"], "every literal value, quote style and emit mode",
     "Escaping depends on neighbouring characters (a NUL before a digit, `${`, `</script`, lone surrogates, U+2028) and number formatting on the magnitude and what follows; a test per neighbour pair does not exist.",
     ["emit-js/src/escape.rs", "emit-js/src/expr.rs", "emit-js/src/hir.rs", "emit-js/src/emitter.rs", "parse-js/src/num.rs"],
     [dict(name="string and template escaping, quote choice", where="emit-js/src/escape.rs"), dict(name="number formatting", where="emit-js/src/emitter.rs")],
     "string/template/tagged-template/property-key/class-key bodies of up to three of 40 pieces (all control escapes, quotes, surrogate halves, line separators, template punctuation) and bodies with one arbitrary ASCII byte (symbolic) after 6 prefixes in 3 quote styles, each printed by 6 emitter configurations; numbers built from 27 mantissas x 20 exponents followed by 15 tokens or preceded by 7, 4 emitter configurations.",
     [dict(group="a", entries=["rt_strc", "rt_str1", "rt_num"], time=600, covers=["literal", "same"])],
     "All literals within the bounds, compared by code unit or number after reparsing.")
prop("C07", "Printing TypeScript and JSX and parsing it again gives the same program",
     "For every parsed TypeScript or JSX program the emitter accepts, the text written from the AST, minified or canonical, parses again to the same syntax tree (up to redundant parentheses in types and the spelling of entities in JSX attributes), and printing the reparsed program changes nothing.",
     ["inputs", "configurations"], "every TypeScript module and JSX module the emitter supports",
     "Type operators have their own precedence levels and lookahead rules, each pair of which needs its own parentheses; the tests print chosen types.",
     ["emit-js/src/ts_type.rs", "emit-js/src/ts_stmt.rs", "emit-js/src/jsx.rs", "parse-js/src/parse/type_expr.rs", "parse-js/src/parse/ts_decl.rs"],
     [dict(name="type precedence", where="emit-js/src/ts_type.rs"), dict(name="declarations", where="emit-js/src/ts_stmt.rs"), dict(name="JSX text and attributes", where="emit-js/src/jsx.rs")],
     "every pair of 69 type templates (bare and parenthesised, in each hole); 90 TypeScript statement templates with each type template; every pair of 36 JSX templates or atoms; minified and canonical (JSX also through the HIR).",
     [dict(group="a", entries=["rt_type", "rt_ts", "rt_jsx"], time=400, covers=["same"])],
     "All programs built from the templates within the bounds.")

prop("C08", "Constant folding computes what JavaScript computes",
     "Whenever the optimiser evaluates an operator, a Math function, a builtin constant or a conversion on constants, the result is exactly the value (type, number bits, code units) ECMAScript gives, it never panics, and an operation that throws is never given a value.",
     ["inputs"], "every pair of primitive constants and every foldable operator",
     "ToInt32 wrap-around, NaN and signed zeros, UTF-16 ordering, bigint/number comparison and string conversions each have corners no sampled operands hit; a wrong fold silently changes the program.",
     ["optimize-js/src/eval/consteval.rs", "optimize-js/src/opt/optpass_dvn.rs"],
     [dict(name="operator folding", where="optimize-js/src/eval/consteval.rs"), dict(name="conversions", where="optimize-js/src/eval/consteval.rs"), dict(name="builtin calls and values", where="optimize-js/src/eval/consteval.rs")],
     "arithmetic and comparison operators on two arbitrary doubles (all 2^128 pairs, symbolic); ToInt32/ToUint32 on arbitrary doubles with exponent -1..66 or zero, subnormal, infinite, NaN; bitwise operators and shifts on arbitrary 32-bit integers; mixed kinds with numbers and booleans arbitrary and 24 strings; % and ** and number-to-string on 30 special numbers and 24 strings; 9 bigints with all of these; string conversions on every text of up to 5 characters of 18; string order on pairs of up to two of 9 characters; abs, ceil, floor, trunc, round, sqrt on an arbitrary double. Approximated Math functions are judged only where the result is fixed by the specification.",
     [dict(group="o", entries=["fo_num", "fo_int", "fo_bits", "fo_mix", "fo_list", "fo_big", "fo_str", "fo_strcmp", "fo_un", "fo_math", "fo_mathlib", "fo_val", "fo_concat"], time=400, query_ms=60000, covers=["folded", "left alone", "string", "not a bigint"])],
     "Operands are symbolic doubles, integers and bytes; the reference is written from ECMA-262's definitions.")
prop("C09", "A rendered diagnostic points exactly at its ranges",
     "For every source text, set of labelled ranges (in any order, overlapping, reversed, past the end, in unknown files) and render options, rendering a diagnostic never panics, always terminates, and shows each label under the line and columns its range covers, with the line numbers of the source.",
     ["inputs", "configurations"], "every source text, label set and option set",
     "Column arithmetic over tabs, wide line terminators, clamped and reversed ranges and context windows has too many combinations to sample.",
     ["diagnostics/src/render.rs", "diagnostics/src/lib.rs", "diagnostics/src/files.rs"],
     [dict(name="snippet layout", where="diagnostics/src/render.rs"), dict(name="range clamping and line lookup", where="diagnostics/src/lib.rs")],
     "10 texts (tabs, CRLF, multi-byte characters, empty, no final newline) with a primary range of two arbitrary 32-bit offsets (symbolic) and 2 tab widths; up to three labels over small texts; all option combinations of the harness; missing files.",
     [dict(group="d", entries=["dg_span", "dg_labels", "dg_opts", "dg_files"], time=400, covers=["rendered"])],
     "Offsets are symbolic 32-bit integers; an independent layout model is the oracle.")
prop("C10", "The order of diagnostics is total and independent of arrival order",
     "Diagnostic comparison is a total order (reflexive, antisymmetric, transitive) consistent with file, range, severity, code and message, and sorting any multiset of diagnostics gives the same sequence whatever order they arrived in, with labels and notes canonical too.",
     ["inputs", "schedules"], "every list of diagnostics in every arrival order",
     "Parallel checking delivers diagnostics in arbitrary order; only exploring all orders and all ties shows the output is deterministic.",
     ["diagnostics/src/lib.rs"],
     [dict(name="comparison and sorting", where="diagnostics/src/lib.rs")],
     "three diagnostics with symbolic ranges for the order laws; every permutation of up to four diagnostics (with labels) for sorting.",
     [dict(group="d", entries=["dg_order", "dg_sort"], time=400, covers=["ordered", "sorted"])],
     "Ranges are symbolic; permutations are forked by the engine.")
prop("C11", "Virtual file paths have one canonical spelling",
     "Normalising a TypeScript virtual path removes duplicate slashes, `.` and `..` and backslashes as the reference does for every text, two spellings of one path normalise alike, and normalising again changes nothing.",
     ["inputs"], "every path text",
     "Drive letters, UNC prefixes, climbing above the root and trailing separators combine; file identity, module resolution and expectation matching all depend on it.",
     ["diagnostics/src/paths.rs"],
     [dict(name="normalize_ts_path", where="diagnostics/src/paths.rs")],
     "every text of up to 4 arbitrary ASCII bytes (symbolic) after 8 prefixes, and of 5 to 7 characters of 6 (separators, dots, letters, colon; symbolic).",
     [dict(group="d", entries=["dg_path", "dg_path2"], time=300, covers=["path"])],
     "Symbolic bytes; an independent reference is the oracle. Idempotence is not claimed for results of the form `/x:`.")
prop("C12", "Sharding partitions the suite; expectations apply by the same precedence",
     "For every shard count, the shards' index sets are disjoint and cover every case exactly once; malformed shard texts and expectation manifests are rejected; and an expectation lookup gives the most specific matching entry (exact over glob over regex, then order) for every identifier, and classifies outcomes consistently.",
     ["inputs", "configurations"], "every index, shard count, shard text and manifest",
     "A case that falls between shards or an expectation that silently stops matching is invisible in test results; only covering all indices and manifests shows it.",
     ["conformance-harness/src/shard.rs", "conformance-harness/src/expectations.rs", "conformance-harness/src/fail_on.rs"],
     [dict(name="shard arithmetic and parsing", where="conformance-harness/src/shard.rs"), dict(name="expectation matching", where="conformance-harness/src/expectations.rs")],
     "indices and shard counts arbitrary (symbolic 64-bit); shard texts of symbolic characters; manifests of up to three entries over the harness's patterns; every fail-on policy.",
     [dict(group="d", entries=["cf_shard", "cf_apply", "cf_exp", "cf_bad", "cf_fail"], time=300, covers=["shard", "parsed", "refused", "listed", "entry", "policy"])],
     "Shard arithmetic is fully symbolic; manifests are forked over entry kinds and patterns.")
prop("C13", "Minifying a program preserves what it does",
     "For every valid program and every top-level mode, the minified program makes the same host calls with the same values in the same order, completes in the same way (normally, with the same value thrown) and leaves the same global bindings as the original, whatever the host answers.",
     ["inputs", "configurations"], "every valid program, top-level mode and host behaviour",
     "Dead-code elimination, rewriting, renaming and hoisting interact with scope rules and abrupt completion; a sampled program and a sampled host answer do not reach the combination in which one of them is wrong.",
     ["minify-js/src/lib.rs", "minify-js/src/opt/dce.rs", "minify-js/src/opt/cf_rewrite.rs", "minify-js/src/opt/sem_rewrite.rs", "minify-js/src/opt/const_fold.rs", "minify-js/src/opt/stmt_rewrite.rs", "minify-js/src/rename/mod.rs", "semantic-js/src/js/declare.rs", "emit-js/src/hir.rs"],
     [dict(name="optimisation passes", where="minify-js/src/opt"), dict(name="renaming", where="minify-js/src/rename/mod.rs"), dict(name="scope analysis and hoisting", where="semantic-js/src/js/declare.rs")],
     "49 control flow templates with every pair of 30 x 3 statements, 92 expression templates with every pair of 20 x 6 atoms, 49 scope templates with each of 7 templates nested in them around each of 7 statements, in up to three surroundings (script and module); thorough: 30 x 30 statements, 37 x 37 atoms, 49 x 49 scope templates x 20 statements. The first two host answers are an arbitrary double (symbolic), undefined, null or a string, the third a double or a string, later ones undefined; the text of a host number and its remainder are followed only for 0, -0, 1, 2.5 and NaN; programs run up to 3000 steps. Both programs are run by a reference interpreter written from ECMA-262 on the parser's tree. Outputs with a comma after an arrow function's body are not judged (a known defect of the parser, C04).",
     [dict(group="m", entries=["m_cf", "m_ex", "m_scope"], thorough_entries=["m_cf2", "m_ex2", "m_scope2"], time=420, covers=["same"])],
     "All programs built from the templates within the bounds; host numbers are symbolic doubles and every branch a program takes on them is decided by the solver.")

prop("C14", "A type has one identity, however and in whatever order it is built",
     "Unions and intersections are commutative, associative, idempotent and neutral or absorbing in never, unknown and any; building the same types in another store and another order gives the same identities, ordering and display; different types have different identities; and an object shape does not depend on the order its members are given in.",
     ["inputs", "schedules"], "every type and every order of construction",
     "Types are interned concurrently by several workers: two identities for one type, or one that depends on who came first, makes diagnostics and caches nondeterministic, for combinations of members no test lists.",
     ["types-ts-interned/src/store.rs", "types-ts-interned/src/shape.rs", "types-ts-interned/src/kind.rs"],
     [dict(name="canonical unions and intersections", where="types-ts-interned/src/store.rs"), dict(name="content-derived type identities", where="types-ts-interned/src/store.rs"), dict(name="shape normalisation", where="types-ts-interned/src/shape.rs")],
     "every triple of 45 members in unions and intersections, all orders and nestings; every pair of 224 types built in two stores in opposite orders; every triple of 45 for the order's transitivity; shapes of up to three of the harness's members with every combination of modifiers, in both orders. Nesting of an intersection with any is not judged (TypeScript's depends on it too).",
     [dict(group="t", entries=["st_join", "st_ids", "st_order", "st_shape"], time=400, covers=["joined", "same", "different", "ordered", "shape"])],
     "All combinations of the listed types, decided path by path by the engine.")
prop("C15", "Assignability decides as TypeScript does and obeys its laws",
     "For any two types, assignability under strict options is the relation TypeScript has; a type built around another follows its variance; unions and intersections are joins and meets of the relation; it is reflexive, has unknown above and never below everything; and it is transitive where TypeScript's is.",
     ["inputs"], "every pair of types",
     "The relation is a large case distinction over pairs of kinds: an accepted pair that should be rejected hides a bug in the user's program, and pairs are too many to list in tests.",
     ["types-ts-interned/src/relate.rs"],
     [dict(name="relate_internal case distinction", where="types-ts-interned/src/relate.rs"), dict(name="tuples, signatures, objects", where="types-ts-interned/src/relate.rs"), dict(name="template literal matching", where="types-ts-interned/src/relate.rs")],
     "every pair of 179 types (primitives, literals, arrays, tuples with optional and rest elements, objects, methods, functions, constructors, index signatures, template literals, unions, intersections) against the answers of TypeScript 5.9.3's checker (table in h/t/src/tsc.txt, made by tools/tscrel.js); variance for every pair of 26 types in 13 positions; lattice laws for 179 x 26 x 26; transitivity for 179 x 26 x 179. Not judged: weak type detection, index signatures against anything but object literal types and as providers of required properties (which the repository's tests demand), containment of one infinite template literal type in another, type parameters and conditional types.",
     [dict(group="t", entries=["rel_tsc", "rel_variance", "rel_lattice", "rel_trans"], time=600, covers=["assignable", "not assignable", "variance", "laws", "transitive"])],
     "All combinations of the listed types, decided path by path by the engine against a table computed by TypeScript itself.")
prop("C16", "Control flow analyses are exact on every flow graph",
     "Dominators, post-dominators, dominance frontiers, natural loops with their exits and nesting, and block orders are those the definitions give; liveness is that of the paths through the graph; and no two values that are live at once share a register, whatever the graph's shape and labels.",
     ["inputs"], "every flow graph",
     "Every optimisation trusts these; the tests draw a handful of graphs, while a wrong answer needs a particular interplay of back edges, several exits or entries and label order.",
     ["optimize-js/src/dom/mod.rs", "optimize-js/src/cfg/cfg.rs", "optimize-js/src/graph/mod.rs", "optimize-js/src/analysis/dataflow.rs", "optimize-js/src/analysis/liveness.rs", "optimize-js/src/analysis/find_loops.rs", "optimize-js/src/analysis/loop_info.rs", "optimize-js/src/analysis/interference.rs", "optimize-js/src/analysis/registers.rs"],
     [dict(name="dominators and post-dominators", where="optimize-js/src/dom/mod.rs"), dict(name="data-flow fixpoints", where="optimize-js/src/analysis/dataflow.rs"), dict(name="register allocation by colouring", where="optimize-js/src/analysis/registers.rs")],
     "every graph of up to 4 blocks and every graph of 5 blocks reached in order, with at most two successors each, under two labellings; liveness for 9 graphs with every choice of definitions and uses from a menu of 7 and every condition over three variables; registers for every interference graph of 5 variables",
     [dict(group="g", entries=["gr_dom", "gr_dom5", "gr_live", "gr_regs"], time=500, covers=["graph", "loop", "live", "registers"])],
     "All graphs within the bounds; answers are compared with the definitions (paths avoiding a block, paths to a use).")
prop("C17", "SSA construction and every optimisation pass keep what a program does",
     "Whatever a flow graph of instructions does (calls with their arguments, reads and writes of properties, of captured and of unknown variables, and how it ends), it still does after SSA construction, after each optimisation pass in any round, and after the phis are taken away again.",
     ["inputs", "histories"], "every flow graph of instructions and every answer of its environment",
     "The passes run in rounds until nothing changes, and each relies on what the others leave behind; lost copies, swapped phis, stale values and wrongly pruned blocks need a loop, two variables and an order of passes that tests do not sample.",
     ["optimize-js/src/ssa/ssa_insert_phis.rs", "optimize-js/src/ssa/ssa_rename.rs", "optimize-js/src/ssa/ssa_deconstruct.rs", "optimize-js/src/ssa/phi_simplify.rs", "optimize-js/src/opt/optpass_dvn.rs", "optimize-js/src/opt/optpass_trivial_dce.rs", "optimize-js/src/opt/optpass_redundant_assigns.rs", "optimize-js/src/opt/optpass_impossible_branches.rs", "optimize-js/src/opt/optpass_cfg_prune.rs", "optimize-js/src/eval/consteval.rs"],
     [dict(name="SSA construction and destruction", where="optimize-js/src/ssa"), dict(name="optimisation passes", where="optimize-js/src/opt")],
     "8 graph shapes (branches, loops, nested and two-entry loops), every block filled with each item of a menu of 10 (5 or 6 where three blocks are free) over two variables, every condition on either; 4 shapes with a menu of 11 that touches properties, captured and unknown variables; phis of two variables in every arrangement of their operands; the environment's first three answers falsy or truthy (chosen where they decide), the rest falsy; 12 rounds, 40 blocks visited. Thorough: the whole menu everywhere. Getters, throwing operations and temporal dead zones are outside the claim.",
     [dict(group="g", entries=["ss_flow", "ss_touch", "ss_const", "ss_phis"], thorough_entries=["ss_flow2", "ss_const2"], time=600, covers=["run", "branches"])],
     "All instruction graphs within the bounds are put through the real passes; before and after are run by an interpreter of the instructions written from their documentation.")
prop("C18", "Compiling a program for optimisation and writing it out keeps what it does",
     "For every top-level program, the instructions it is compiled to, the result of every later step, and the JavaScript finally written out make the same calls with the same values in the same order as the source.",
     ["inputs"], "every top-level program in the supported subset",
     "Operand order, short circuits, compound assignment, labels and the rebuilding of loops from blocks interact; tests compare the shape of a few outputs.",
     ["optimize-js/src/lib.rs", "optimize-js/src/il/s2i/expr.rs", "optimize-js/src/il/s2i/stmt.rs", "optimize-js/src/decompile/structurer.rs", "optimize-js/src/decompile/mod.rs", "optimize-js/src/decompile/il.rs"],
     [dict(name="lowering to instructions", where="optimize-js/src/il/s2i"), dict(name="structuring", where="optimize-js/src/decompile/structurer.rs"), dict(name="lowering to JavaScript", where="optimize-js/src/decompile/il.rs")],
     "72 expression templates (operators, assignments, members, calls, optional chains, literals) with every pair of 6 x 3 atoms in 4 uses, 40 statement templates with 6 atoms after 3 beginnings, with 4 first answers; 12 expressions in 6 uses, followed or not by another; 3 kinds of loop x 5 conditions x every pair of 8 statements; nested labelled loops of 6 kinds with every way out; switches of two cases with or without a default, breaks and a loop around; three variables; the environment's first three answers falsy or truthy, the rest falsy; loops run up to 8 times. Thorough: four answers, fuller menus. Written out with declare_registers (the default leaves undeclared registers); functions, try, generators, object rest, == with anything but null are not supported by the code; arrays have ordinary iterators.",
     [dict(group="g", entries=["sp_text", "sp_stmts", "sp_expr", "sp_loop", "sp_label", "sp_switch"], thorough_entries=["sp_text2", "sp_expr2", "sp_loop2", "sp_label2", "sp_switch2"], time=700, covers=["program", "trace", "decompiled"])],
     "All programs within the bounds are compiled by the real compiler; the source is run by a reference interpreter of the language, the instructions by one of the instructions, and both texts by the ECMA-262 interpreter used for C13.")
