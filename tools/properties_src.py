"""The properties, and those static analysis does not decide here."""
W = "hooq-macros/src/impls/walker/mod.rs"
HE = "hooq-macros/src/impls/walker/hook_expr.rs"
WM = "hooq-macros/src/impls/walker/walk_macro.rs"
CTX = "hooq-macros/src/impls/inert_attr/context.rs"
IA = "hooq-macros/src/impls/inert_attr/mod.rs"
IAP = "hooq-macros/src/impls/inert_attr/parse.rs"
RA = "hooq-macros/src/impls/root_attr/mod.rs"
RAP = "hooq-macros/src/impls/root_attr/parse.rs"
REN = "hooq-macros/src/impls/method/render/mod.rs"
MV = "hooq-macros/src/impls/method/render/meta_vars.rs"
MET = "hooq-macros/src/impls/method/mod.rs"
FL = "hooq-macros/src/impls/flavor/mod.rs"
FP = "hooq-macros/src/impls/flavor/flavor_path.rs"
AP = "hooq-macros/src/impls/flavor/toml_load/apply.rs"
TL = "hooq-macros/src/impls/flavor/toml_load/mod.rs"
PRE = "hooq-macros/src/impls/flavor/presets"
FI = "hooq-macros/src/impls/utils/function_info.rs"
SX = "hooq-macros/src/impls/utils/source_excerpt.rs"
SXM = "hooq-macros/src/impls/utils/source_excerpt_macros.rs"
LIB = "hooq-macros/src/lib.rs"
IMP = "hooq-macros/src/impls/mod.rs"
GA = "hooq-macros/src/impls/utils/get_attrs.rs"
HLP = "hooq-helpers/src/lib.rs"


def P(id, title, statement, over, text, why, files, mech, observe=("the token stream the attribute macro returns",)):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}}


PROG = ["programs"]
PC = ["programs", "configurations"]

PROPERTIES = [
    P("C01", "Every nested expression, macro and item is visited",
      "Every expression, statement macro and nested item that occurs at any depth in the body of an annotated item, outside types, patterns and const generics, is reached by the hook pass. In particular every `?`, every `return` value and every tail expression at such a place is considered for hooking, whatever kinds of expression, statement or item enclose it. The only places not entered are those the documentation excludes (e.g. nested annotated items are walked once, macro bodies that are no expression list are left alone).",
      PROG, "every syntax tree of an item the attribute can be put on", "The tests walk a few dozen hand-written items; the guarantee is about all combinations of some 40 expression kinds, 15 item kinds and their optional and repeated children.",
      [W, WM], [("the two mutually recursive visitors", W), ("macro bodies parsed as expressions or statements", WM)]),
    P("C02", "The pass changes nothing but hooked positions",
      "Apart from the inserted hooks, the extracted `#[hooq::...]` attributes and the trait imports, the item that comes out is the item that went in: no expression, statement, item, attribute, pattern or type is dropped, duplicated, moved or replaced. A `?` is removed only where the hooking method asks for it with a trailing `!`.",
      PROG, "every annotated item and every method", "Snapshot tests compare a few expansions; a field lost or two children swapped for one rare node kind passes them all.",
      [W, WM, IA], [("in-place updates of the syntax tree", W)]),
    P("C03", "hooq attributes are honoured and removed wherever they may stand",
      "Wherever a `#[hooq::...]` attribute is written on a node of the annotated item that contains something to walk (expressions of every kind, statements, match arms, fields of struct expressions, blocks' items, functions, methods, modules), it is interpreted there and removed. No `#[hooq::...]` attribute survives into the expansion and none is silently ignored.",
      PROG, "every node kind with an attribute list", "Each test puts an attribute on one kind of node; forgetting one kind shows only when a user writes an attribute there.",
      [W, GA, IA], [("attribute lists by expression kind", GA), ("handler of inert attributes", W)]),
    P("C04", "A setting holds exactly in the subtree of the attribute that makes it",
      "A setting made by a `#[hooq::...]` attribute (method, hook targets, tail idents, ignored idents, result types, macros switch, bindings) takes effect for everything inside the annotated node, and a node uses the innermost enclosing attribute that makes that setting, else the flavor's value. It has no effect on siblings or on anything outside the node, and a setting an attribute does not mention is inherited unchanged. Bindings add to and shadow the inherited ones by name.",
      PROG, "every nesting of attributes over the tree, every pair of settings", "Tests nest two or three attributes of one kind; leaks between siblings and mixed-up settings need particular combinations.",
      [W, CTX, IA], [("context derived per node", CTX), ("which context each child gets", W)]),
    P("C05", "skip_all covers the subtree, skip only its own scope",
      "Nothing inside a node marked `#[hooq::skip_all]` is hooked, at any depth, whatever other skip attributes occur inside. `#[hooq::skip]` suppresses hooks on the node and in the same scope, but not in nested blocks, closures, match arms and else branches inside it. Neither affects anything outside the marked node.",
      PROG, "every position of the two attributes and every nesting of scopes", "The combinations of scope-opening constructs and the two attributes are unbounded; tests cover a handful.",
      [W, CTX], [("skip status in the context", CTX), ("context for a nested scope", CTX)]),
    P("C06", "No hook where it is skipped or its target is switched off",
      "A hook is inserted at a `?`, a `return` value or a tail expression only if the position is not skipped and the switch of exactly that kind is on in the settings in force there. A `?` that is neither skipped nor switched off is always hooked, exactly once.",
      PROG, "every hook position, every combination of the three switches and skips", "The tests check the switches on a few functions; a wrong switch for one construct (say a closure tail) is invisible to them.",
      [W, HE, CTX], [("gate in front of rendering", HE)]),
    P("C07", "Return values and tails are hooked by the documented rule",
      "A `return` value, and the tail of a function or closure body, is hooked iff it is a call of a listed constructor (last path segment in the tail idents), or the enclosing function's or closure's declared return type ends in one of the result types and the value is not a call of an ignored constructor. The tail of any other block, a match arm or a branch is hooked iff it is a call of a listed constructor.",
      PROG, "every return value and tail position, every settings combination", "The rule has four inputs per position and a dozen kinds of position; the tests sample it.",
      [W, CTX, FI], [("classification of tails", W), ("last-segment comparison", CTX)]),
    P("C08", "Function information is that of the innermost function or closure",
      "The function name, signature and return type a hook uses are those of the innermost function, method or closure around the hook. Leaving a nested function or closure restores those of the enclosing one.",
      PROG, "every nesting of functions, methods, closures and async blocks", "Nesting is unbounded; tests have one or two levels.",
      [W, CTX, FI], [("function information in the context", CTX)]),
    P("C09", "$source is the target as written, the hooked value is the processed one",
      "The source tokens handed to a hook are those of the target as the user wrote it, before any hook was inserted inside it. The expression the hook is applied to is the one already processed, so hooks nest inside out.",
      PROG, "every hook position and every nesting of hooks", "An expansion that hooks twice on one nesting path, or shows already-rewritten source, needs nested targets of particular kinds.",
      [W], [("tokens saved before the visit", W)]),
    P("C10", "Hooks are numbered per kind, each position once, in source order",
      "The ordinal of a hook counts the positions of its own kind met so far in the annotated item, in the order they are walked, starting at one. Each position that qualifies and is not skipped counts exactly once, also when its kind is switched off, and nothing else changes the count.",
      PROG, "every item", "A double count or a shared counter shows only in longer functions mixing kinds.",
      [HE, CTX], [("shared counter", CTX)]),
    P("C11", "A hook inserts the method after, or puts it in place of, the whole target",
      "A method that starts with `.` is appended to the whole target expression, so that the target and nothing else is its receiver; any other method takes the target's place. The tokens of the method are kept in order, groups keep their delimiters, and only `$name` is substituted. A trailing `!` is recognised only with the `consume-question` feature.",
      PC, "every method, every target expression", "Operator precedence and token order matter only for unusual targets and methods; the tests hook calls and paths.",
      [REN, MET], [("rendering", REN), ("method parser", MET)]),
    P("C12", "Locations point at the hooked target",
      "Line, column, path and file reported by a hook are those of the `?` token, the `return` keyword or the start of the tail expression the hook belongs to, never those of the attribute, the method or another target.",
      PROG, "every hook position", "Expansion tests hardly look at spans, and each construct passes its own.",
      [W, REN], [("span handed to rendering", W)]),
    P("C13", "A flavor's settings reach the hooks under their own names",
      "Every setting of the selected flavor (method, hook targets, tail idents, ignored idents, result types, macros switch, bindings, trait imports) is in force at the root of the annotated item under its own name and unchanged. Trait imports of the flavor and of the attribute are both emitted. Without a flavor argument the flavor called `default` applies, including what hooq.toml changes in it.",
      PC, "every flavor and attribute argument list", "Two settings of the same type swapped, or one lost, shows only with flavors that set them differently.",
      [RA, RAP, CTX, IMP], [("root context from flavor", RA), ("initial context", CTX)]),
    P("C14", "hooq.toml overrides what it mentions and inherits the rest",
      "A table of hooq.toml changes exactly the settings it mentions, each to the value written for it; every setting it does not mention keeps the value of the preset of that name, else of the parent table, else the default. Bindings are merged by name. Sub-tables inherit from their parent table after its own changes.",
      ["configurations"], "every hooq.toml, every nesting of tables", "The tests load a few files; each setting has its own inheritance code.",
      [AP, TL], [("flavor tables applied over presets", AP)]),
    P("C15", "The empty flavor cannot be redefined and bad tables are rejected",
      "A table called `empty`, a table with an empty name, an unparsable method, trait path or binding, or an unknown hook target anywhere in hooq.toml, at any depth, makes the compilation fail with an error. None of them is dropped or replaced by a default.",
      ["configurations"], "every hooq.toml", "Each invalid value has its own path; tests exercise a few.",
      [AP, FL, CTX], [("validation while applying", AP)]),
    P("C16", "Each crate gets its own hooq.toml, read from its own manifest directory",
      "The configuration used is that of the hooq.toml in the manifest directory of the crate being compiled, and no other. What one crate loaded is never used for another crate compiled by the same process, and a configuration that was rejected is never used.",
      ["histories", "configurations"], "every sequence of crates compiled by one process", "The tests compile one crate per process.",
      [FL], [("store keyed by manifest directory", FL)]),
    P("C17", "The built-in flavors exist exactly when their feature is on",
      "The flavors `default`, `empty` and `hook` always exist; `anyhow`, `eyre` (with `color_eyre`), `log` and `tracing` exist exactly when the feature of that name is on, the latter two with a sub-flavor for each documented level that uses exactly that level. Each inserts the documented method, brings the documented traits into scope and otherwise has the documented default settings. The empty flavor leaves code unhooked.",
      ["configurations"], "every feature combination", "The test suite runs with one feature set.",
      [PRE, FL], [("preset table", PRE)]),
    P("C18", "Each hooq attribute sets its own setting; other attributes stay as they are",
      "Each documented form of a `#[hooq::...]` attribute sets exactly the setting it names, to the value written. An unknown or malformed one is an error, not ignored. Attributes that are not hooq's stay on their node, unchanged and in order.",
      PROG, "every attribute list", "The forms and spellings multiply with positions and neighbours; tests use one attribute at a time.",
      [IA, IAP], [("attribute extraction", IA)]),
    P("C19", "Meta variables stand for the documented values",
      "In a method, `$line`, `$column`, `$path`, `$file`, `$source`, `$expr`, `$count`, `$fn_name` and `$fn_sig` (and their aliases) are replaced by the documented value of the hook being rendered, in every group at any depth, and any other `$name` by the innermost binding of that name. A `$name` that is neither, and a `$` not followed by a name, is an error. Names not preceded by `$` are left alone.",
      PROG, "every method template and every hook", "Templates are arbitrary token trees; tests use flat ones.",
      [REN, MV], [("token-wise expansion", REN), ("name table", MV)]),
    P("C20", "$so_far is the method overridden by the one it occurs in",
      "`$so_far` in a method is replaced by the method of the nearest enclosing node (or flavor) that the current one overrides, expanded for the same hook; inside that one it refers one level further out. If there is none it is an error.",
      PROG, "every chain of overriding attributes", "Chains longer than two and nodes without a method in between are not tested.",
      [REN, CTX], [("ancestor chain of settings", CTX), ("recursive expansion", REN)]),
    P("C21", "$hooq_meta and $bindings carry the values of the single variables",
      "The struct `$hooq_meta` stands for has, field by field, the same values as the variables `$line`, `$column`, `$path`, `$file`, `$count`, the text of `$source`, and `$bindings`. `$bindings` has one entry per binding in force, under its name, with the text and the value of its expression.",
      PROG, "every hook and set of bindings", "Tests print one or two of the fields.",
      [REN, HLP], [("struct literal built for the hook", REN)]),
    P("C22", "User input never makes the macro panic",
      "Whatever item, attribute arguments, inert attributes, method text and hooq.toml the user writes, the macro either succeeds or reports a compile error; it never panics.",
      PC, "every input of the macros", "A panic needs the one input that violates an unchecked assumption.",
      [LIB, IMP, REN, FL, SX, SXM], [("errors turned into compile_error", LIB)]),
    P("C23", "Errors of any part reach the user",
      "An error found while reading settings, loading configuration, walking a nested node, expanding a method or parsing the result makes the expansion fail with that error. None is swallowed, replaced by a default or confined to a nested node.",
      PC, "every error at every place", "Error tests trigger a few errors at top level.",
      [LIB, IMP, W, HE, REN, RA, FL, AP], [("results propagated", W)]),
    P("C24", "The expansion is a function of source, configuration and features",
      "The same item with the same attributes, hooq.toml and features always expands to the same tokens and the same errors. Nothing depends on hash order, addresses, time, thread or on items expanded before.",
      ["histories", "configurations"], "every run and order of expansion", "One run cannot show a dependence on hash order or on earlier expansions.",
      [REN, CTX, FL, AP], [("sorted bindings and names", CTX)]),
    P("C26", "Macro calls are walked only as their settings allow, else left alone",
      "The arguments or statements inside a macro call are hooked iff macros are switched on in the settings at that call (an attribute on the call included) and its tokens parse as an expression list or statements. Otherwise the call comes out exactly as written.",
      PROG, "every macro call and body", "Macro bodies are arbitrary tokens; tests use `println!`-like ones.",
      [WM, W], [("macro body parsing", WM)]),
    P("C28", "Excerpt macros apply the shortening and layout their names and options promise",
      "For every combination of options: `truncate_lit_str!` and `excerpted_pretty_stringify!` shorten string literals (to 10 characters unless `@truncate_str = N` says otherwise), `one_line_stringify!` does so exactly with `@truncate_str`, `pretty_stringify!` never; `@padding` pads above (`top`), below (`bottom`) or on both sides (`both` or no value) and nowhere else; `@show_line_num` numbers the lines upwards from the line the expression starts on; `@excerpt_line = N` shows the last line (N = 1) or the first and the last N - 1 lines, with dots exactly when lines are left out; a shortened line fits the length asked for and shorter lines stay whole; options of other macros change nothing; unknown options and values of the wrong kind are compile errors.",
      PROG, "every macro of the family, every combination of options and every expression", "The macros differ in one flag each; swapping two flags, or getting one boundary wrong, passes tests that look at one of them.",
      [SXM, SX, LIB], [("option table", SXM), ("layout", SX)], ("the expansion of the excerpt macros",)),
    P("C29", "A binding is found by its name and its exact type",
      "Looking a binding up in the meta data gives the value bound to exactly that name if it has the requested type, and nothing otherwise.",
      ["inputs"], "every map, name and type", "Tests look up one binding.",
      [HLP], [("typed lookup", HLP)], ("HooqMeta::get_binding",)),
    P("C30", "Excerpts keep every token of the expression they show, in order",
      "The text of a source excerpt is built from every token of the expression in source order, each spelled exactly, groups between their own delimiters, with only white space in between (line breaks between lines, spaces within a line); with line numbers each line follows its number unchanged; the one-line form joins all lines, trimmed, with a space. A string literal is only ever shortened line by line: a line within the limit stays as it is, a longer one keeps its beginning and its end around `..`.",
      ["inputs"], "every expression", "Tests render a handful of expressions; a token kind, a delimiter, an empty group or a literal with odd lines may be missing from all of them.",
      [SX], [("token-wise rendering", SX)], ("the string literal the excerpt macros expand to",)),
    P("C31", "A hooked program compiles and behaves as the original but for the hooks",
      "If the annotated item compiles and the method is well typed for its targets, the expansion compiles and, hooks aside, behaves the same.",
      PROG, "every program", "Type checking of the expansion is the compiler's, after the macro has run.",
      [W, REN], [("syntactic rewriting only", W)]),
    P("C32", "Expansion terminates in time linear in the item",
      "Expanding an item takes time proportional to its size times the length of the method chain.",
      PROG, "every item", "Cost depends on run-time sizes.", [W, REN], [("one visit per node", W)]),
]

NOT_APPLICABLE = {
    "C31": "Whether the expansion type-checks and behaves alike is a property of arbitrary user programs and methods under rustc's type system; the macro sees only tokens. Its static core (nothing but hooked positions changes) is C02.",
    "C32": "A bound on running time quantifies over run-time sizes of token streams and recursion; termination of the mutual recursion is structural, but no sound static cost argument in reach covers syn's parsers and printers.",
}
