# Per-property notes for DESIGN.md: how it is decided, and what stays out.
N = {
'C01': "Roots: the visitor which implements booklit.Visitor and appends to section tags. Obligations are the nested content paths derived from each content type's fields (fields, slices, maps, pairs, rows). The typestate records `visited(path, section)`; each success exit must have all of them, once; a conditional visit is only accepted where the condition says it is absent. The stage is checked to be run over title, body and partials after each load. Limits: content made while rendering (lazy).",
'C02': "For each Visit method of the stripping visitor the result term is matched structurally against the type: same dynamic type, each field identical or stripped, lists as map/filter recurrences whose predicate is exactly `type is Aux`. Any store through the receiver is a violation. Unfixed observation: an Aux directly in a non-sequence position (e.g. as sole content of a Styled) is kept; the statement says so.",
'C03': "The evaluator's result field is followed as a concatenation term; loops must be folds `result = result + eval(child i)`. Paragraphs: filter of contentless lines, single block line unwrapped. `Append` itself is matched over a symbolic vararg list.",
'C04': "Predicate abstraction over {count = 0, 1, >1} x optional x allow-broken x already-resolved; each exit's outcome is compared with the table; what is stored in the reference is checked too.",
'C05': "Extracts the recursion scheme (own tags with exact name equality, children except the one come from, parent upward with self excluded) and discharges the induction. Iterative rewrites are matched via `chain`/`cover`.",
'C06': "Term for the writer's file name and terms for the URL under the page-owner facts; anchors against the ids in template parse trees (decoded bindata).",
'C07': "Truth tables over {root, parent splits} from the writer recursion, the page owner and the section templates.",
'C08': "Every function with an error result: each error obtained on a path is pending until tested nil, returned (wrapped), sent, or superseded by a fallback (another operation tried in its place). Deferred closes of written files included.",
'C09': "All paths of Main/Execute/reexec: error pending -> printed (pretty if available) -> exit non-zero. The nested run's args, env marker, output streams, generated program and exit status are symbolic terms.",
'C10': "Typestate for os.Open/Create, MkdirTemp, Lock, timers, profiles; releases through defer, closures returned by helpers.",
'C11': "Lockset analysis from ServeHTTP; shared roots are server/processor/engine fields and package variables; the intersection over all accesses must be non-empty if one is a write. Freshness (objects not yet shared) from allocation terms.",
'C12': "Event order stat -> read -> record; reuse only under exact equality of times; record key is the parsed file's path and only after success. Template reload likewise (fresh engine template set from the built-ins, complete loads only).",
'C13': "Every store/map update/append/in-place library call whose base derives from inputs. Owned = allocated in this activation.",
'C14': "Events on the ResponseWriter (status, body, delegate) along each path; the section rendered is the one requested.",
'C15': "Grammar tables: nullability, left recursion, repetition of nullable; every action's bound label types are inferred from the grammar and its assertions/indexing must succeed.",
'C16': "All matchers treat CR/LF alike.",
'C17': "Text-matching sub-expressions must be bound, and bound values must flow into the result in order; actions are summarised symbolically on symbolic lists of sub-results.",
'C18': "Each conversion to template.HTML/JS/CSS/URL (and writer of raw bytes to HTML) is justified by the provenance of its operand.",
'C19': "Arity facts before Call, argument recurrences, method name term, conversions by parameter type.",
'C20': "Each construction of a located error or content with location: FilePath / NodeLocation / Length terms by provenance.",
'C21': "Plugin and factory lists as terms through section creation.",
'C22': "Writers of the split flags, under which facts, over which sections.",
'C23': "Every map range, time, rand, env, goroutine, pointer formatting.",
'C24': "Who may call the function, under which once.",
'C25': "Table of optional sources; each use needs a dominating non-nil fact.",
'C26': "Decodes bindata from the syntax tree; parse-tree type checking against go/types; coverage of nested content in templates.",
'C27': "Template name and data terms of each Visit method for both engines.",
'C28': "Writers of Title/Tags/PrimaryTag; derivation of default tags by decomposing the sanitiser into its replacement steps.",
'C29': "Terms of path, parent, children; cycle check reachability.",
'C30': "Linear facts for slices, indices and Repeat counts; excerpt loop by reading recurrence.",
'C31': "Loop coverage over tags and children; entry fields as terms.",
'C32': "Recurrence and interval.",
'C33': "Summaries of Visit and IsFlow found through the type system.",
'C34': "Path facts against recursive specs; sibling search loops as positions; Contains / IsOrHasChild by existence analysis.",
'C35': "Table of result terms for exported methods of the basic plugin, found by the constructs they make; loops for tables/definitions; unchecked assertions on given content are violations.",
'C36': "Each option term must reach what it controls under exactly its own facts; thresholds through nested evaluators and timers.",
'C37': "Counting recurrence rewritten to iteration number; recursion spec.",
'C40': "Coverage over all sections' tags with the selecting condition; fields of the error.",
'C41': "Dataflow code -> tokenise -> format; tiling of slices in the loop over matches (last end = next start). The lexer's text handling is library code.",
'C42': "Must-write analysis of each description method against the fields of its error type; format strings constant.",
'C43': "Decomposition of the returned text against the type's parts.",
'C44': "Existence (early exit) and list coverage analysis.",
'C45': "Symbolic summaries of closures in the FuncMaps; texts split into up to five symbolic lines.",
}
