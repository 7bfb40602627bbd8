"""Which rules decide which property."""

WALK = "Abstract interpretation of the MIR of the two syntax-tree visitors over provenance terms, one path partition per branch combination; "

PROPS = {
    "C01": {"rules": ["walkrules.c01", "macros.c01"], "doc": WALK + "every child position of syn::Expr and syn::Item that can hold an expression, item or macro (enumerated from the type graph of the syn crate /repo is built with) must be visited on every path that returns Ok, for every element of a list."},
    "C02": {"rules": ["walkrules.c02", "macros.c02"], "doc": WALK + "the node left behind on every path that returns Ok must be the input with visited positions replaced by their own visited versions, and nothing else."},
    "C03": {"rules": ["walkrules.c03"], "doc": WALK + "the attribute list of every node kind that contains something traversed must reach the attribute handler on every path that returns Ok."},
    "C04": {"rules": ["walkrules.c04", "macros.c04"], "doc": WALK + "for each visit and each setting the value passed on is traced back to the visitor's own context; the attribute lists it passed through must be exactly those of the enclosing nodes, outermost first; the handler itself takes the own value if written, else the parent's."},
    "C05": {"rules": ["walkrules.c05"], "doc": WALK + "for each visit the skip status is traced back; the attribute lists and scope entries it passed through must be those between the nodes, and the handler's and scope rule's truth tables are checked entry by entry."},
    "C06": {"rules": ["hooksites.c06"], "doc": WALK + "every path that renders a hook must imply 'not skipped and the switch of this very kind on'; every path of a `?` that does not render must contradict it."},
    "C07": {"rules": ["hooksites.c07"], "doc": WALK + "the path condition under which a return value or tail expression is rendered, as a decision diagram, must equal the documented rule (constructor listed, or result type listed and constructor not ignored)."},
    "C08": {"rules": ["walkrules.c08"], "doc": WALK + "for each visit the function information is traced back: it must be that of the innermost enclosing function or closure, with its own signature."},
    "C09": {"rules": ["hooksites.c09"], "doc": WALK + "the source tokens handed to the renderer must be those of the node before any part of it was visited, the expression handed over must be the visited one."},
    "C10": {"rules": ["hooksites.c10"], "doc": WALK + "on each path through a hook site the counter cell shared by all contexts gets exactly one increment, of the site's kind, before rendering, and none elsewhere."},
    "C12": {"rules": ["hooksites.c12"], "doc": WALK + "the span handed to the renderer must be that of the `?` token, the `return` keyword or the tail expression."},
    "C11": {"rules": ["render.c11"], "doc": "Abstract interpretation of the rendering function: the new expression must be receiver, dot, expanded method (Insert) or the expanded method (Replace) on every successful path, and the expansion loop must keep every token that is no meta variable."},
    "C19": {"rules": ["render.c19"], "doc": "Abstract interpretation of the template expansion loop: for each documented name, the closed form of the tokens appended is compared with the documented value; the ordinal text is evaluated for 0..1111 of each kind on the closed form."},
    "C20": {"rules": ["render.c20"], "doc": "Abstract interpretation of the template expansion loop and of the attribute handler: the template and the chain position of the recursive expansion are traced to the overridden method of the method in force."},
    "C21": {"rules": ["render.c21"], "doc": "Abstract interpretation of the template expansion loop: the struct literal and the map of bindings are matched field by field and entry by entry."},
    "C18": {"rules": ["attrs.c18"], "thorough": ["default", "consume"], "doc": "Abstract interpretation of the attribute extractor as one loop over the attribute list: for each documented form (kind of attribute, path) the closed form of every setting after the round, the error exits and whether the attribute is kept are compared with the documented table."},
    "C14": {"rules": ["config.c14"], "thorough": ["default", "none", "consume"], "doc": "Abstract interpretation of the function that applies the tables of hooq.toml, one table from an arbitrary map of flavors, an arbitrary table and an arbitrary parent: each setting afterwards, in closed form, must be the one written (if mentioned), else the existing flavor's, else the parent's; bindings merged by name; sub-tables applied by the same function with the changed flavor as parent; by induction over the nesting of tables."},
    "C15": {"rules": ["config.c15"], "thorough": ["default", "none", "consume"], "doc": "Abstract interpretation of the same function: on every path that accepts a table, its name is neither empty nor `empty`, every text in it has parsed, every hook target is a known one and its sub-tables were accepted."},
    "C13": {"rules": ["root.c13"], "thorough": ["default", "none", "consume"], "doc": "Abstract interpretation of the attribute macro from its arguments to its output: the loop over the arguments is evaluated for each form of argument, and every setting of the context the item is walked with, the flavor looked up and the imports put out are traced to where they come from."},
    "C26": {"rules": ["macros.c26"], "thorough": ["default", "none", "consume"], "doc": "Abstract interpretation of the macro-call walker: the rewriting must be guarded by the switch in the settings after the call's own attributes, every part parsed must be walked under these settings (child positions from the type graph of syn), and the new tokens must be the parts in order with their separators."},
    "C16": {"rules": ["config.c16"], "thorough": ["default", "none"], "doc": "Abstract interpretation of the function that finds and caches hooq.toml: on every successful path the configuration returned, and the one kept for later expansions, are traced to the file read and the key it is kept under, both of which must be made of CARGO_MANIFEST_DIR read at run time; every other static that can change is shown to carry nothing from one expansion to the next."},
    "C24": {"rules": ["purity.c24"], "thorough": ["default", "consume", "none", "log"], "doc": "Interprocedural taint analysis of the MIR from every iteration in hash order to the output, sanitised only by a sort with a total comparator, a single-element or commutative use; a who-calls-what rule for clocks, randomness, environment, file system, threads, addresses and process state; mutable statics limited to constant initialisation."},
    "C17": {"rules": ["presets.c17"], "configs": ["default", "consume", "none", "anyhow", "eyre", "log", "tracing"], "doc": "Constant evaluation by abstract interpretation of the function that builds the table of flavors, once for each feature on its own, for none and for all: the table is closed (no unknowns), and names, levels, methods, traits and settings are compared with the documented table."},
    "C22": {"rules": ["panics.c22"], "configs": ["default", "consume"], "thorough": ["default", "consume", "none", "log"], "doc": "Inventory of every construct of the MIR that can panic (panic calls, unwrap and expect, indexing, slicing, overflow and bounds asserts, identifier construction, parse_quote, library calls that panic on bad arguments); each must be unreachable on every path of an abstract interpretation of the functions that contain it, with the facts of the path, or be excused by a stated invariant that is checked; borrows of cells and locks are shown not to nest."},
    "C23": {"rules": ["errors.c23"], "thorough": ["default", "consume", "none"], "doc": "Abstract interpretation of every function that makes calls that may fail, recording each outcome: on no path, and in no round of a loop, may the function go on or end without that very error although the call failed; the exported macros put out its compile error. Look-ahead parses, the contents of macro calls and lookups with a fallback are answers, not errors."},
    "C28": {"rules": ["excerpt.c28"], "doc": "Abstract interpretation of the four excerpt macros: the expansion under every setting of the options is compared with the documented table as a closed form (which expression is folded with which lengths, which text surrounds the lines, which numbers stand in front of them, which lines are taken), padding relationally between the three settings, the line and length limits by evaluating the closed forms of the conditions at every boundary."},
    "C29": {"rules": ["helpers.c29"], "thorough": ["default", "consume", "none"], "doc": "Abstract interpretation of the lookup for an arbitrary map, name and type parameter: the value given is the downcast of the entry under exactly that name, nothing is given only if there is none or the downcast fails, the type tested is the type parameter, and no path panics; the map the macro writes holds every binding in force under its own name with its own value."},
    "C30": {"rules": ["excerpt.c30"], "doc": "Abstract interpretation of the text building loops: for each kind of token and each delimiter, the closed form of the text after one round must be the text before, white space, and exactly the text of this token (for a group: delimiter, the text of its tokens by induction, delimiter); no exit from the loop before the tokens are exhausted; the loops over lines take every line; the folder of string literals keeps short lines and both ends of long ones."},
}
