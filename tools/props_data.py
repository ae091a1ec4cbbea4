A = 'sound for the stated rule on every path of the analysed functions; calls out of the module are trusted to do what their documentation says'
prop('C01', 'Every target placed in a document can be referenced',
 "When loading a document succeeds, every target placed anywhere in it - in titles, bodies, section partials, styled content and its partials, the displayed content of links and references, lists, tables, definitions, paragraphs, preformatted blocks, in the section itself or in any inline or included child section - has been added exactly once as a tag of the section which contains it, carrying the target's name, title, content and location, and its name as anchor. Content which is only produced while rendering is excluded.",
 ['inputs', 'programs'], 'for every document and every nesting of content types',
 'The tests place targets in a handful of positions; the guarantee is over every position in every content type, and a forgotten field of a rarely nested type is invisible to them.',
 ['stages/collect.go', 'load/processor.go', 'section.go'],
 [('collecting visitor', 'stages/collect.go'), ('stage run after each load', 'load/processor.go runStages')],
 'interprocedural traversal-coverage dataflow over SSA (typestate "visited" per nested content path derived from the content types)',
 'For every content type and every success path of its visit method all nested content was collected into the right section, once. ' + A)
prop('C02', 'Stripping auxiliary content removes exactly the auxiliary content',
 "Stripping auxiliary content from any content yields content of the same kind in which every auxiliary item within a sequence, paragraph, preformatted block, list, table row or definition is gone, at every depth of nesting, and everything else (items, rows, definitions, partials, link targets, styles and all other attributes) is kept, in the original order. The original content is left unchanged.",
 ['inputs'], 'for every content value of every type',
 'A test compares a few titles; the guarantee is structural over all fifteen content types and every attribute of each.',
 ['aux_.go'], [('stripping visitor', 'aux_.go stripAuxVisitor'), ('StripAux', 'aux_.go')],
 'path-sensitive symbolic-value dataflow with loop summaries, matched structurally per content type against the type structure',
 'Each content type is derived field by field: nested content must be the stripped original, all else identical; filters must drop exactly auxiliary items; no store reaches the original. ' + A)
prop('C03', 'Evaluation keeps every piece of a document, once and in order',
 "Evaluating a document yields the content of each of its parts - text, function results, each line of paragraphs and of preformatted blocks, each word of a line - exactly once and in document order, never losing what came before. A paragraph line without content adds nothing, a paragraph without any content adds nothing, a paragraph consisting of just one piece of block content is replaced by that content, and joining content keeps every given piece in order, absent ones adding nothing.",
 ['inputs', 'programs'], 'for every parsed document',
 'Tests compare some renderings; dropping or reordering happens only for particular shapes (three or more pieces, empty lines, single block lines).',
 ['stages/evaluate.go', 'append.go'], [('evaluating visitor', 'stages/evaluate.go'), ('Append', 'append.go')],
 'symbolic-value dataflow over the evaluator: the result on each path is a concatenation term checked against the node structure',
 'Every exit of each evaluation method yields the previous result followed by the evaluation of each child in order (fold recurrences of loops). ' + A)
prop('C04', 'References resolve to the one matching tag, or fail with the reason',
 "A reference resolves to a tag exactly if its name matches exactly one tag in the document. No match is an unknown-tag error naming the tag and its location, unless the reference is optional, in which case there is no tag and no error; several matches are always an ambiguity error which lists the location of every one of them. When broken references are allowed, either error is replaced by a made-up tag with the reference's name, and an error or made-up tag is never remembered as the resolution.",
 ['inputs', 'configurations', 'histories'], 'for every number of matching tags, optional or not, broken references allowed or not, resolved before or not',
 'The tests reach some combinations; the property is the full table of outcomes.',
 ['reference.go'], [('tag resolution', 'reference.go Tag, resolve')],
 'path-sensitive case analysis (predicate abstraction over match count, optional, allow-broken) of every path of reference resolution',
 'Every path is classified by its facts and its outcome must equal the table. ' + A)
prop('C05', 'Tag lookup considers every section of the document exactly once',
 "Looking up a tag from any section returns every tag with that exact name defined by any section of the whole document tree - the section itself, its ancestors, their other descendants and its own descendants - and returns each such tag exactly once.",
 ['inputs'], 'for every tree of sections, every starting section and every name',
 'Tests use shallow trees with one or two levels; omissions and duplicates depend on where the lookup starts.',
 ['section.go'], [('recursive tag search', 'section.go filterTags')],
 'inductive traversal analysis: recursion scheme of the search extracted from SSA and checked against the tree structure (own tags, every child but the one come from, parent exactly when going up)',
 'The recursion covers own tags with the exact match, all children downward except the excluded one, and the parent with self excluded; induction over the tree gives exactly once. ' + A)
prop('C06', 'A link leads to the page and anchor its target is rendered at',
 "The URL of a tag names the file which the section's content is written to: the primary tag of the page's section plus the engine's own file extension. If the tag has an anchor the URL's fragment is that anchor, else, if the section is rendered within another section's page, the fragment is the section's primary tag, else there is none; and the built-in page content for sections and targets carries the element with that fragment as its id.",
 ['inputs', 'configurations'], 'for every section tree, split configuration, tag and engine',
 'Tests cover a few links in HTML only; the two sides (URL and file naming, template ids) live in different files and must agree for all trees and for text output.',
 ['render/common.go', 'render/writer.go', 'render/html.go', 'render/text.go', 'render/html/section.tmpl', 'render/html/target.tmpl', 'render/html/bindata.go'],
 [('URL construction', 'render/common.go'), ('page file naming', 'render/writer.go'), ('element ids', 'render/html/bindata.go')],
 'symbolic-value dataflow of URL and file-name terms on every path, with template parse-tree checks of the ids',
 'Writer file name term and URL term are compared symbolically under the page-owner facts of each path. ' + A)
prop('C07', 'Every section appears on exactly one page',
 "Writing out a document writes a page for its root and for every child of each section which splits its sections, at any depth, and for no other section, to a file in the destination named after the section's primary tag. Every other section is rendered within the page of its parent by the built-in templates, and the child sections of a section which splits are not.",
 ['inputs', 'configurations'], 'for every tree of sections and split configuration, HTML and text',
 'Tests exercise two shapes; three places (writer, URL, templates) must agree on the same condition for all shapes.',
 ['render/writer.go', 'render/common.go', 'render/html/bindata.go', 'render/text/bindata.go'],
 [('page writing recursion', 'render/writer.go WriteSection'), ('page owner', 'render/common.go'), ('inline children', 'render/*/section.tmpl')],
 'path-condition analysis of the writing recursion and the page-owner recursion plus template parse-tree analysis, compared as truth tables',
 'The three decisions are extracted as truth tables over {root, parent splits} and must coincide; recursion reaches all children. ' + A)
prop('C08', 'No failure is swallowed',
 "When an operation that loading, evaluating, collecting, rendering, writing, serving templates or running the command relies on fails, the function which relied on it does not report success: the failure reaches its caller as an error. The only exceptions are explicit fallbacks, where another operation is tried in its place, and the presentation of errors themselves.",
 ['fault_sequences', 'inputs'], 'for every function of the module which can report an error and every operation in it that can fail',
 'Failing I/O, plugins and templates are hardly exercised by tests, and an ignored error shows only under the fault.',
 ['load/processor.go', 'stages/evaluate.go', 'stages/collect.go', 'render/writer.go', 'render/html.go', 'render/text.go', 'booklitcmd/command.go', 'baselit/plugin.go', 'chroma/plugin.go', 'lazy.go', 'reference.go'],
 [('error returns', 'all functions with an error result')],
 'error-flow typestate: each error value created on a path must be tested nil, propagated or explicitly superseded before a success return',
 'Every path of every function with an error result; an error assumed non-nil may not meet a nil error return; an untested error may not be dropped. ' + A)
prop('C09', 'The command fails visibly, and only when something failed',
 "When building, parsing options or serving fails, the command prints the error - the detailed form if the error has one - and exits with a non-zero status; it exits zero only on success, help or version. With plugins requested, exactly one nested run with the same arguments happens, its exit status becomes the command's own, and the nested run never starts another; the program it runs is the one built, and imports each plugin and runs the command.",
 ['inputs', 'fault_sequences', 'configurations'], 'for every outcome of each step of the command',
 'The tests never run the command itself.',
 ['booklitcmd/main.go', 'booklitcmd/command.go'], [('exit handling', 'booklitcmd/main.go'), ('re-execution', 'booklitcmd/command.go reexec')],
 'path-sensitive typestate over the command entry points (error pending, printed, exit code) and symbolic environment/argument terms of the nested run',
 'All paths of the entry point and of the re-execution are classified. ' + A)
prop('C10', 'Files, locks, timers and temporary directories are released on every path',
 "Every file opened, lock taken, temporary directory created and profile started while loading, rendering, serving, annotating errors or re-executing is closed, released, removed or stopped on every way out of the function which acquired it, including every failure path, and locks are never released twice nor taken while held by the same call.",
 ['fault_sequences', 'schedules'], 'for every path through every function which acquires a resource',
 'Leaks and stuck locks on failure paths produce no visible output in the tests.',
 ['load/processor.go', 'render/writer.go', 'booklitcmd/command.go', 'booklitcmd/server.go', 'errors.go', 'stages/evaluate.go'],
 [('deferred and explicit releases', 'all acquiring functions')],
 'resource typestate analysis (acquired / released) over all paths including deferred calls',
 'Acquisition sites are found by resolved callee; each path to an exit must release. ' + A)
prop('C11', 'Concurrent requests never race on shared state',
 "When several requests are served at the same time, any state they share and at least one of them modifies - the parse cache, the rendering engine and its templates, loaded template times, package-level values - is only accessed while holding one common lock or by safely concurrent means.",
 ['schedules'], 'for every interleaving of any number of requests',
 'There are no server tests at all, and races need particular interleavings.',
 ['booklitcmd/server.go', 'load/processor.go', 'render/html.go', 'stages/evaluate.go', 'lazy.go', 'ast/node.go'],
 [('build lock', 'booklitcmd/server.go'), ('parse cache lock', 'load/processor.go')],
 'lockset analysis from the request handler: every access to memory reachable from shared roots carries the set of locks held; writes need a common lock',
 'Shared roots are the server, its processor and engine, and package-level variables; the lockset of every access on every path is intersected. ' + A)
prop('C12', 'Served and rebuilt content is never stale',
 "A document is parsed again whenever its modification time differs in any way from the one recorded with its cached parse, the recorded time is one taken before the parsed content was read, and is recorded for the very file that was parsed and only if that succeeded. Template directories are likewise re-read whenever any file is new, changed or removed since the last complete load, an incomplete load is never considered loaded, and removed or replaced templates fall back to the built-in ones.",
 ['histories', 'fault_sequences'], 'for every history of file changes and loads',
 'Tests load each document once; staleness needs a history of edits between loads.',
 ['load/processor.go', 'render/html.go', 'render/text.go', 'booklitcmd/server.go'],
 [('parse cache', 'load/processor.go EvaluateFile'), ('template reload', 'render/html.go, render/text.go LoadTemplates')],
 'event-order and provenance dataflow (stat before open, key and time terms, reuse condition) over all paths',
 'Cache reads, reuse conditions and writes are matched as symbolic terms on every path. ' + A)
prop('C13', 'Evaluating or rendering never alters the document it works on',
 "A parsed document can be evaluated any number of times and content can be rendered, stripped, collected or joined any number of times with the same outcome: evaluation never modifies the parsed tree, and content handed to an operation is never modified through slices or maps shared with it, nor extended in storage someone else can see.",
 ['histories', 'inputs'], 'for every sequence of operations on the same parsed document or content value',
 'Aliasing shows only when the same value is used again after an operation; tests build everything fresh.',
 ['append.go', 'aux_.go', 'stages/evaluate.go', 'stages/collect.go', 'render/html.go', 'render/text.go', 'baselit/plugin.go', 'chroma/plugin.go', 'section.go'],
 [('copy before change', 'append.go, aux_.go')],
 'ownership analysis: element stores, map writes, in-place library mutators and appends to slices not owned by the function',
 'Every store, map update, append and mutating library call whose base derives from a parameter, field or global of content or syntax-tree type is examined. ' + A)
prop('C14', 'A served request gets one complete response with the right status',
 "Every request gets exactly one response: the completely rendered page, the static file handler's response if no section matches, or an error page. An error response always has status 500, set before any of its body is written, nothing is written before the outcome of loading templates and rendering is known, and the page written is the one just rendered for the requested section with the custom templates loaded. The section requested is the one with the tag a path names: index for /, and what stands between the leading slash and the engine's extension for a path which ends in it; any other path is left to the static file handler.",
 ['inputs', 'fault_sequences'], 'for every request path and every failure while answering it',
 'No test exercises the server.',
 ['booklitcmd/server.go', 'errors.go'], [('request handler', 'booklitcmd/server.go')],
 'typestate over the response writer on every path of the request handler',
 'Every path is classified by the events on the response. ' + A)
prop('C15', 'Parsing any input yields a document or a located error, and never panics',
 "For every input the parser terminates with either a syntax tree or an error that carries its line and column; it never panics, never recurses without consuming input, and never repeats an expression that can match nothing.",
 ['inputs'], 'for every byte sequence',
 'Tests parse a fixed set of documents.',
 ['ast/booklit.peg.go', 'ast/errors.go', 'load/processor.go'], [('generated grammar and actions', 'ast/booklit.peg.go'), ('error unpacking', 'ast/errors.go')],
 'grammar well-formedness analysis (nullability, left recursion) of the generated grammar and type inference of every action\'s bound values against its assertions and index bounds',
 'The grammar is read from the generated tables, so it is what runs. The pigeon runtime in the same file is trusted. ' + A)
prop('C16', 'Line endings do not change what a document means',
 "A document with CRLF line endings parses to the same content as with LF line endings: wherever the syntax accepts or excludes one line break it accepts or excludes the other, and no carriage return ends up in the content.",
 ['inputs'], 'for every document',
 'Tests use LF documents almost exclusively.',
 ['ast/booklit.peg.go', 'ast/booklit.peg'], [('LineBreak rule and character classes', 'ast/booklit.peg.go')],
 'character-set dataflow over the generated grammar: every matcher must treat CR and LF alike and CRLF as one break',
 'All literals, classes and any-matchers of the grammar are examined, with comments exempt because their text is dropped. ' + A)
prop('C17', 'Parsing loses no text',
 "Whatever document text a construct matches ends up in the syntax tree exactly once and in order: only delimiters, comments, indentation of whole lines or blocks (of a block, no more than its first line's) and line breaks are dropped, and a line break within an argument becomes one space. Escapes stand for exactly the escaped character, and a function call keeps its name, all its arguments in order, and its location.",
 ['inputs'], 'for every document that parses',
 'Tests compare some renderings; losing one part of a rarely used construct goes unnoticed.',
 ['ast/booklit.peg.go', 'ast/booklit.peg'], [('grammar actions', 'ast/booklit.peg.go')],
 'consumption/flow analysis: each text-matching sub-expression of a rule must be bound and its value must flow into the rule\'s result, in order',
 'Uses the generated grammar for what is matched and symbolic summaries of the actions for what is kept. ' + A)
prop('C18', 'Document text never becomes markup by accident',
 "Text from documents, file names, tags and error messages reaches HTML output only through contextual escaping, except where the author asked for raw HTML or raw URLs explicitly. Only already rendered or explicitly escaped text is ever marked as safe, and this also holds for error pages.",
 ['inputs'], 'for every text in every position',
 'Tests contain next to no markup characters in unusual positions.',
 ['render/html.go', 'errors.go', 'render/html/bindata.go', 'errhtml/bindata.go', 'booklitcmd/server.go'],
 [('safe-type conversions', 'render/html.go, errors.go'), ('templates', 'render/html/bindata.go, errhtml/bindata.go')],
 'taint analysis over conversions to safe-HTML types and response writes, plus a template parse-tree check of raw facilities',
 'Every conversion to a safe type in the module is justified by the provenance of its operand. ' + A)
prop('C19', 'Functions are called with exactly the given arguments, or not at all',
 "A function call in a document invokes the method named by title-casing its dash-separated words on the first plugin of the section that has it, with every given argument exactly once, in order, converted to the parameter's type - text, content or unevaluated syntax - and its result or error is used. A missing function, too few or too many arguments, or an unsupported parameter type is an error and nothing is invoked; an unsupported result type is an error.",
 ['inputs', 'programs'], 'for every method signature and argument list',
 'Test plugins have a few signatures; variadic and multi-result combinations are sampled.',
 ['stages/evaluate.go', 'ast/node.go'], [('reflective call', 'stages/evaluate.go VisitInvoke')],
 'path-sensitive typestate over the reflective call (method found, arity facts, argument recurrences) with symbolic argument terms',
 'Every path reaching the call must have established arity; argument loops are summarised. ' + A)
prop('C20', 'Errors and references point at the source which caused them',
 "Every error about a document - unknown or ambiguous reference, undefined or failing function, parse error, duplicate title - carries the file of the section concerned and the line and column of the construct concerned, and content a function produces, a title it sets and a section it defines records the location of the very call that produced it, even if the call's arguments called other functions.",
 ['inputs', 'programs'], 'for every erroneous document and nesting of calls',
 'Tests check the locations of a few errors with flat calls.',
 ['stages/evaluate.go', 'reference.go', 'baselit/plugin.go', 'load/processor.go', 'ast/errors.go', 'section.go'],
 [('error construction', 'stages/evaluate.go, reference.go, baselit/plugin.go, load/processor.go'), ('invocation location', 'stages/evaluate.go')],
 'symbolic-value provenance of every located-error construction and of the invocation location at each call',
 'Each construction site of a located error is checked field by field by provenance. ' + A)
prop('C21', 'Plugins are scoped to their section',
 "A section's functions come from the plugins given to it plus those it uses itself, bound to that section: using a plugin instantiates it for exactly the section that uses it. Inline child sections inherit every plugin of their parent, included sections start with just the basic plugin, and an unknown plugin is an error. The plugins which come with Booklit can be used by their names baselit and chroma.",
 ['programs', 'inputs'], 'for every nesting of sections and plugin uses',
 'Tests nest at most one level with one plugin.',
 ['section.go', 'baselit/plugin.go', 'load/processor.go', 'plugin.go'], [('plugin registration', 'section.go UsePlugin'), ('child evaluation', 'baselit/plugin.go, load/processor.go')],
 'symbolic-value dataflow of plugin and factory lists through section creation, with loop summaries',
 'Terms of factories and receivers are followed on every path of the functions which create sections. ' + A)
prop('C22', 'A single-page section never splits, whatever its children ask for',
 "Once a section is marked single-page no section at or below it is rendered on its own page, whether sections were marked as split before or after, directly or in any descendant; split requests made there still restart heading depth. Without an enclosing single-page section a split request always takes effect.",
 ['histories', 'inputs'], 'for every order and nesting of the two requests',
 'Tests cover one order at one level.',
 ['baselit/plugin.go', 'section.go'], [('SinglePage, SplitSections', 'baselit/plugin.go'), ('prevention inherits', 'section.go SplitSectionsPrevented')],
 'path-condition analysis of the two requests and the ancestor recursion; effect analysis of the descendants reset',
 'Who writes the split flag, under which facts, over which sections. ' + A)
prop('C23', 'The same input always produces the same output',
 "Loading and rendering the same files with the same options yields identical tags, pages, URLs and search index every time: nothing in the output depends on map iteration order, time, randomness, addresses or the scheduling of goroutines.",
 ['schedules', 'histories'], 'for every run',
 'A test run sees one iteration order.',
 ['stages/collect.go', 'aux_.go', 'render/writer.go', 'render/html.go', 'section.go', 'load/processor.go'], [('ordered traversal of partials', 'stages/collect.go')],
 'effect analysis of map-range loops (only order-insensitive effects unless sorted) and of nondeterministic sources',
 'Every map iteration and every use of time, randomness, environment or goroutines in the module is classified. ' + A)
prop('C24', 'Lazy content is evaluated at most once',
 "However often and from however many goroutines lazy content is forced or rendered, its function runs at most once, every force yields the same content and error the function returned, and whether it is flow or block content is known without evaluating it. Creating, collecting, stripping or describing lazy content never evaluates it.",
 ['schedules', 'histories'], 'for every interleaving of forces',
 'Tests force once from one goroutine.',
 ['lazy.go', 'stages/collect.go', 'aux_.go', 'render/html.go', 'render/text.go'], [('once-guarded force', 'lazy.go')],
 'effect and call-graph analysis: who calls the function, under which once, and who reaches the force',
 'The deferred function is only called inside the once of the same value; results are only written there. ' + A)
prop('C25', 'Absent optional content never crashes',
 "Content that may legitimately be absent - the content of a target or tag, the content or tag of an optional reference, a missing or nil partial, lazy content yielding nothing, arguments which evaluate to nothing, functions returning no content, a section without parent - is never used without being checked first, wherever the module itself handles it.",
 ['inputs', 'programs'], 'for every combination of absent parts',
 'Each combination is a separate crash; tests use complete content.',
 ['reference.go', 'aux_.go', 'stages/collect.go', 'stages/evaluate.go', 'render/writer.go', 'render/html.go', 'render/text.go', 'section.go', 'target.go'],
 [('nil checks', 'all users of optional content')],
 'path-sensitive nilness analysis of every dereference and interface call whose operand comes from an optional source',
 'Optional sources are a table of fields, results and lookups; each use must be dominated by a non-nil fact. ' + A)
prop('C26', 'The built-in templates are valid and render all nested content',
 "Every built-in template parses, only uses functions, fields and methods which exist on the data it is given, and renders every nested piece of content of the value it is for exactly once, in order. Every content type whose template is built in for an engine has it under the name the engine looks up.",
 ['inputs', 'configurations'], 'for every content type and template of both engines and the error pages',
 'A template error shows only when that branch of that template executes.',
 ['render/html/bindata.go', 'render/text/bindata.go', 'errhtml/bindata.go', 'render/html.go', 'render/text.go'],
 [('embedded templates', 'render/html/bindata.go, render/text/bindata.go, errhtml/bindata.go')],
 'static decoding of the embedded assets, template parse-tree type checking against the data types, and rendering-coverage analysis',
 'Assets are decoded from the generated source, not executed. ' + A)
prop('C27', 'Every content type is rendered with its own template and data by both engines',
 "Rendering any content uses the template that belongs to its type (for styled content and styled sections the one its style names) with that content as its data, for nested content independently of the enclosing rendering. A page uses the page template of the section's style if there is one and the plain page template otherwise, a missing template is an error, and HTML and text output make the same choices.",
 ['inputs', 'configurations'], 'for every content type, style and set of templates, both engines',
 'Only HTML is tested, with the styles in the fixtures.',
 ['render/html.go', 'render/text.go'], [('visit methods and page rendering', 'render/html.go, render/text.go')],
 'symbolic summaries (template name term, data term) of every visit method and of page rendering, compared with a table and between the two engines',
 'On each path the looked-up name and the data handed to execution are exact terms. ' + A)
prop('C28', 'A section has one title, and its tags follow from it',
 "A section's title can be set once: a second attempt is an error naming both places and changes nothing. Setting a title gives the section exactly the tags named with it, in order, or a single one derived from the title without its auxiliary parts if none were named (in lower case, each run of white space turned into a dash, an ampersand between spaces into the word and, and everything but letters, digits, underscores and dashes left out), each belonging to the section with the title and location given, and the first of them becomes the primary tag.",
 ['inputs', 'histories'], 'for every title and list of tags',
 'Tests set titles with at most one tag.',
 ['section.go', 'baselit/plugin.go'], [('SetTitle, SetTag', 'section.go'), ('title function', 'baselit/plugin.go Title')],
 'symbolic-value dataflow with loop summaries over title and tag setting',
 'All writers of titles, tags and primary tags are found and checked. ' + A)
prop('C29', 'Child sections are loaded relative to their parent and linked both ways',
 "An included section is read from its path relative to the file of the including section, an inline section from the given syntax; either gets the including section as its parent, is evaluated before it is added, and is added exactly once as its last child. A document which includes itself, directly or through other files, is an error, and when the child fails nothing is added.",
 ['inputs', 'fault_sequences'], 'for every tree of files and inline sections',
 'Tests include one level from the same directory.',
 ['baselit/plugin.go', 'load/processor.go', 'section.go'], [('section and include functions', 'baselit/plugin.go'), ('section evaluation', 'load/processor.go')],
 'symbolic-value dataflow of path, parent and children terms; reachability of the evaluation only past the cycle check',
 'Every creation of a section and every extension of children is checked on all paths. ' + A)
prop('C30', 'Describing an error never fails because of its location',
 "Printing or rendering a located error never crashes: whatever line, column and length it has and whatever the file contains by then, excerpts are only cut within the line, padding is never negative, an absent location prints no excerpt, and the excerpt shows the line of the location with the marker at its column.",
 ['inputs', 'histories'], 'for every location and file content',
 'Tests print a few errors whose location is in the middle of a line.',
 ['errors.go'], [('annotation', 'errors.go AnnotateLocation, AnnotatedHTML, lineInQuestion')],
 'bounds analysis with linear facts on every slicing, indexing and repetition in error presentation',
 'Locations are assumed to have line >= 0, column >= 0 and length >= 0, which the constructors guarantee. ' + A)
prop('C31', 'The search index covers every tag',
 "The search index has an entry for every tag of every section of the document, keyed by the tag's name, with the URL of that very tag, its title, its own text or else the text of its section, the depth of its section and the section's primary tag.",
 ['inputs'], 'for every document',
 'The index is tested with one document, if at all.',
 ['render/writer.go'], [('index construction', 'render/writer.go loadTags')],
 'loop-coverage and symbolic-value dataflow over the index construction',
 'Iterations over all tags and all children, exact field terms. ' + A)
prop('C32', 'Headings are numbered and nested consistently within a page',
 "The heading level of a section is one more than its depth within its page - zero for the root and for children of a section which restarts depth, one more than its parent otherwise - and always between 1 and 6. The absolute depth counts all ancestors.",
 ['inputs'], 'for every depth of nesting',
 'Tests nest two levels; the cap and the restart interact only deeper.',
 ['section.go', 'render/html.go'], [('Depth, PageDepth', 'section.go'), ('headerDepth', 'render/html.go')],
 'interval and recursion analysis of the depth functions and the heading level function',
 'Recurrence and range on every path. ' + A)
prop('C33', 'Every kind of content and syntax is visited as itself',
 "Visiting any content or syntax node calls exactly the visitor method for its own type, exactly once, with the value itself, and returns its result. Whether content is flow or block is fixed by its kind - lists, tables, definitions, paragraphs, preformatted blocks, sections and tables of contents are block - and for sequences, styled, auxiliary, link and lazy content follows from its parts or setting.",
 ['programs', 'inputs'], 'for every content and syntax type',
 'Tests exercise dispatch indirectly for the types in the fixtures.',
 ['content.go', 'sequence.go', 'styled.go', 'lazy.go', 'ast/node.go'], [('Visit and IsFlow methods', 'all content and syntax types')],
 'type-driven summary check of every Visit and IsFlow method',
 'All implementations found through the type system. ' + A)
prop('C34', 'Navigation between sections follows document order',
 "The top of a section is its root. The previous section is the sibling before it, or its parent when it is the first child, and none at the root; the next sibling is the sibling after it, or else its parent's next sibling, and none at the root; the next section is its first child if it splits and has one and else its next sibling. A section contains itself and everything at any depth below it, and nothing else; it is or has as a child itself and its direct children, and nothing else.",
 ['inputs'], 'for every tree and position',
 'Navigation is barely exercised by tests, and only for the positions in the fixtures.',
 ['section.go'], [('Top, Prev, Next, NextSibling, Contains, IsOrHasChild', 'section.go')],
 'path-condition and loop-position analysis of the navigation functions against their recursive specifications',
 'Each exit is matched with the specification by its facts. ' + A)
prop('C35', 'The built-in functions put everything they are given into their result',
 "Every built-in function which makes content - styled text, links, references, targets, lists, images, tables, definitions - keeps every argument in the part of the result it is for: all items in order, all rows and columns, subject and definition, path and description, target and display. Table rows which are not lists and definitions which are not lists of two are refused with an error. Setting a partial, a style, a title or a section option affects exactly the section the function was called in.",
 ['inputs'], 'for every call of every built-in function',
 'Tests call each with few arguments in one arrangement.',
 ['baselit/plugin.go', 'section.go'], [('built-in functions', 'baselit/plugin.go')],
 'symbolic summaries of every exported method of the basic plugin compared with a table of result terms, with loop summaries for tables and definitions',
 'Exact result terms on every path. ' + A)
prop('C36', 'Every command-line option takes effect',
 "Building uses the options given: the engine and file extension asked for, the custom templates of that engine, the slow-call threshold, the tolerance for broken references, the section selected by tag or loaded by path with the input as its parent, the output directory or else standard output, and the search index of the whole document when asked for. Serving uses the input, templates, threshold, port and output directory given; profiles are served on the port and written to the file given for them. The threshold is handed on to every nested evaluation, and every function call is timed by it exactly if it is positive, until the call is over.",
 ['configurations'], 'for every combination of options',
 'The command is not tested at all.',
 ['booklitcmd/command.go', 'load/processor.go', 'stages/evaluate.go'], [('option handling', 'booklitcmd/command.go'), ('SlowInvokeThreshold', 'stages/evaluate.go')],
 'configuration-flow analysis: on every path the option terms must reach the operation they control, under exactly the condition that they are set',
 'Paths of the command are classified by option facts. ' + A)
prop('C37', 'Section numbers are the position path of the section',
 "The number of a section consists of its one-based position among its siblings at each level below the root, joined by dots, in decimal; the root has none.",
 ['inputs'], 'for every tree and section', 'Positions and depths beyond those in the fixtures are not sampled.',
 ['section.go'], [('Number', 'section.go')],
 'recursive symbolic summary with counting recurrences rewritten to the iteration number; every exit compared with the recursive specification under its path facts',
 'Exits are matched by facts about the element the search stopped at. ' + A)
prop('C40', 'Suggestions for an unknown tag are the similar ones',
 "The tags suggested for an unknown reference are exactly the tags of all sections of the document, each once, whose name matches the name asked for with a Levenshtein score above one half; the error reported for the reference carries all of them.",
 ['inputs'], 'for every tree, every set of tags and every name', 'Tests check one suggestion in one section.',
 ['section.go', 'reference.go'], [('SimilarTags', 'section.go'), ('unknown tag errors', 'reference.go')],
 'inductive coverage analysis of the recursive tag search with the selecting condition read off the path facts, and field provenance of the error',
 'The score itself is computed by a library and trusted. ' + A)
prop('C41', 'Highlighted code shows the code unchanged',
 "Highlighting code shows exactly the text of the code given, in a block if the code is one, for known and unknown languages, in the style asked for. Transformers get to see every match in the output and nothing else is lost, repeated or reordered by them; what remains is output as it is.",
 ['inputs'], 'for every code, language, style and any transformers', 'Tests highlight one snippet; transformers and unknown languages are not sampled.',
 ['chroma/plugin.go'], [('Syntax, SyntaxTransform', 'chroma/plugin.go'), ('TransformAll', 'chroma/plugin.go')],
 'dataflow from the code to the output through tokeniser, formatter and transformers, with a tiling analysis of text slices in the loop over matches',
 'What the external highlighter does with the text it is given is trusted. ' + A)
prop('C44', 'A page lists exactly the anchors on it',
 "A section is said to have anchors exactly if one of its own tags is anchored or, unless it splits its sections onto pages of their own, one of its children has anchors. Its anchor tags are exactly those of its own tags which have an anchor, unchanged, once each and in the order they were set.",
 ['inputs'], 'for every tree, any nesting and any mix of tags', 'Only user templates call these; no test does.',
 ['section.go'], [('HasAnchors, AnchorTags', 'section.go')],
 'recursive symbolic summary with existence analysis over loops (early exits and accumulators) and coverage analysis of the list built',
 'Exits are matched with the recursive definition by their facts. ' + A)
prop('C45', 'The functions templates may use do what is documented',
 "Templates can use rawHTML and rawURL to show the text of content exactly as it is without escaping, walkContext to get a pair of the current and another section, stripAux to leave out auxiliary content and joinLines to put a prefix before every line of a text but the first, changing nothing else; all of these, url, htmlURL, render and headerDepth are always there.",
 ['inputs'], 'for every content, section and text', 'No test calls these with more than trivial arguments, and some are never called.',
 ['render/html.go', 'render/text.go'], [('HTMLFuncs', 'render/html.go'), ('TextFuncs', 'render/text.go')],
 'symbolic summaries of the functions found by name in the template function maps, compared with their documented values; texts are split into symbolic lines',
 'Texts of up to five lines are analysed, each line an arbitrary text. ' + A)
# not applicable
prop('C42', 'Describing an error tells everything there is to tell about it',
 "The message of every error with a detailed form names the function, the tag and the underlying error it is about. Its printed form tells file and line, shows the excerpt of every location it carries - where a title was set first, each place an ambiguous tag is defined along with its file - lists every suggested tag, and for a failed function describes the function's error in detail if that has a detailed form; its form on pages shows the same. An error page shows the detailed form wherever an error or one it wraps has one and else its escaped message, and if that fails tells so. Text put into messages is never taken for a format.",
 ['inputs', 'programs'], 'for every error type, any number of locations and suggestions, and every error plugins return',
 'The tests compare few messages; a missing location or nested error shows only for the error concerned, in the output form concerned.',
 ['errors.go', 'errhtml/bindata.go'], [('error types', 'errors.go PrettyPrint, PrettyHTML'), ('error page', 'errors.go ErrorResponse'), ('error templates', 'errhtml')],
 'path-sensitive must-write analysis of every description method against the fields of its error type (loop summaries for lists), with template parse-tree queries',
 'Every path of every description is checked against the fields of the type. ' + A)
prop('C43', 'The plain text of content is the text of its parts',
 "The plain text of content - given to functions taking text, used to name a tag after its title, put in the search index and highlighted as code - consists of the text of exactly its parts, each once and in order: all items of a list, cells of a table, lines of preformatted text, subjects and definitions; the content of styled, auxiliary and linked content; for a reference what it displays, or else the title of its tag or, without one, its name. Targets and tables of contents have none.",
 ['inputs'], 'for every content, of any number of parts and nesting',
 'Tests convert plain sentences to text; lists, tables, references and nesting within text are not sampled.',
 ['content.go', 'sequence.go', 'reference.go'], [('String methods', 'all content types'), ('conversion to text', 'stages/evaluate.go')],
 'symbolic summary of every String method: the returned text is decomposed into constants, nested texts and loops, and compared with the parts its type has',
 'Structural decomposition of the returned term on every path. ' + A)
prop('C38', 'Parsing takes time linear in the size of the document',
 "The time to parse a document grows linearly with its size, for any nesting.",
 ['inputs'], 'for every document', 'Tests parse small documents.',
 ['ast/booklit.peg.go'], [('packrat parser', 'ast/booklit.peg.go')], na='Running time of backtracking recursive descent is a runtime quantity; the parser does not memoise by default and no sound static bound in reach excludes exponential backtracking in nested arguments.')
prop('C39', 'Distinct sections are written to distinct files',
 "No two pages of a document are written to the same file, and every page file lies within the output directory.",
 ['inputs'], 'for every document', 'Tests use distinct, plain tags.',
 ['render/writer.go'], [('page naming', 'render/writer.go')], na='File names are derived from tags chosen by the author (or from titles at run time), so whether two collide or contain path separators depends on run-time text; the code makes no such guarantee (documented in DESIGN.md as a limitation, not claimed).')
