# The properties: claimed (PROPS) and not applicable (NA).
PROPS = [
dict(id='C01', title='Every content field of a model object takes part in its hash',
 statement='The hash of every low-level model object depends on every content field of that object, and for maps on every key and every value: changing, adding or removing a value, or renaming a key, is always fed into the hash, independently of what the other fields hold. A field is left out only where the code says so (extensions of contact and license, a v2 path item reference).',
 over=['inputs'], quant='every object type, every field, every document content',
 why='Unit tests hash one or two hand-written objects per type; a field left out, hashed only when another one is set, or dropped by a loop that stops early is invisible unless a test happens to vary exactly that field.',
 files=['datamodel/low/base/*.go', 'datamodel/low/v2/*.go', 'datamodel/low/v3/*.go', 'datamodel/low/arazzo/*.go', 'datamodel/low/overlay/*.go', 'datamodel/low/hash.go'],
 mech=[('Hash methods', 'datamodel/low/**/Hash()'), ('node hashing', 'datamodel/low/hash.go')],
 observe=['Hash()', 'low.AreEqual', 'CompareDocuments'],
 technique='interprocedural field-sensitive dataflow to hash sinks over SSA, with control dependence',
 note='Decides that a value derived from each field reaches the hash under no condition on another field. Does not decide collision freedom: two different field values in different slots can still produce the same byte stream.'),
dict(id='C02', title='What-changed compares every content field of both objects',
 statement='For every pair of objects the change report compares, every content field is looked at in both documents: a modification, an addition and a removal of that field are each reported, with the old value taken from the left and the new value from the right document, compared with the same field of the other side, and labelled with that field\'s own keyword. Differences found are never dropped before the report is returned, and whether one field is compared never depends on another field.',
 over=['inputs'], quant='every comparator, every content field, every pair of documents',
 why='The comparison tests exercise selected fields with selected edits; a field that is never compared, compared in one direction only, paired with a sibling field, or recorded into a list nobody reads gives a clean report and no failing test.',
 files=['what-changed/model/*.go', 'what-changed/what_changed.go'],
 mech=[('Compare* functions', 'what-changed/model'), ('CreateChange, CheckProperties', 'what-changed/model/comparison_functions.go')],
 observe=['CompareDocuments', 'Changes'],
 technique='paired-origin dataflow over SSA (left/right document) plus must-pass-through path and whole-loop rules',
 note='Decides that each field of both objects reaches one comparison, that additions and removals have a report site, sides and labels are right, and that found changes are collected on every path. Does not decide that the comparison of two given values is correct.'),
dict(id='C03', title='Change totals and change lists cover every nested report exactly once',
 statement='The totals and the flat list of a change report are complete: for every object of the report, TotalChanges, TotalBreakingChanges and GetAllChanges take in its own changes and the report of every nested object it holds, each exactly once and under no condition other than that nested report being present.',
 over=['inputs'], quant='every report type, every nested report, every pair of documents',
 why='A nested report left out of one of the three methods, or counted twice, shows only when a test puts a change at exactly that nesting point and asserts all three views; most nesting points are never tested.',
 files=['what-changed/model/*.go', 'what-changed/what_changed.go'],
 mech=[('TotalChanges, TotalBreakingChanges, GetAllChanges', 'what-changed/model/*.go')],
 observe=['DocumentChanges.TotalChanges', 'DocumentChanges.TotalBreakingChanges', 'DocumentChanges.GetAllChanges'],
 technique='field-sensitive dataflow from each nested report field to the method result, with loop, gate and multiplicity analysis over SSA',
 note='Relates the three methods to the fields of the report types; that the nested reports themselves are filled in is C02.'),
dict(id='C05', title='Every field of a low-level object is read from its own keyword',
 statement='Building the low-level model reads every content field of every object from the document keyword of that field: the value, the key node and the value node of a field come from a lookup of its own keyword and of no other field\'s, no other keyword of the object decides whether the field is filled (except where it makes the build fail), and every object is handed to the reflective model builder before it is built, so that no field that the type declares stays empty when the document has it.',
 over=['inputs'], quant='every object type of OpenAPI 2/3, Arazzo and Overlay, every content field, every document',
 why='A fixture shows a field only in the combination of keywords it happens to contain and tests rarely look at the key and value node of a field; a node taken from a sibling keyword, or a field filled only next to another one, passes them all.',
 files=['datamodel/low/base/*.go', 'datamodel/low/v2/*.go', 'datamodel/low/v3/*.go', 'datamodel/low/arazzo/*.go', 'datamodel/low/overlay/*.go', 'datamodel/low/model_builder.go', 'datamodel/low/extraction_functions.go'],
 mech=[('Build methods', 'datamodel/low/**'), ('BuildModel, SetField', 'datamodel/low/model_builder.go')],
 observe=['low-level model fields', 'KeyNode and ValueNode of fields', 'BuildV2Model, BuildV3Model'],
 technique='backward slicing over SSA from every field assignment to the keyword constants it was looked up with, with control dependence; must-pass-through rule for the model builder',
 note='Decides which keyword feeds which field and under which other keyword; that the value is converted correctly by the reflective builder is not decided.'),
dict(id='C04', title='Breaking classification follows the configured rule',
 statement='Every change the report carries is classified as breaking by the rule configured for the component and property it is about and for what happened to it: added, removed or modified. A rule the configuration offers is never bypassed by a fixed value, every rule the comparison consults exists in the configuration under the same json and yaml name and has a default, and merging a user configuration keeps the three kinds apart. (An added required parameter is breaking whatever the rule says; kinds with no rule keep their fixed classification.)',
 over=['inputs', 'configuration'], quant='every report site, every rule, every user configuration',
 why='The default rules give the same answer for many kinds, so a change classified by a sibling\'s rule, by the rule of another kind, or by a constant is invisible until a user overrides that one rule; no test overrides each of 200 rules at each of several hundred sites.',
 files=['what-changed/model/*.go'],
 mech=[('BreakingRulesConfig', 'what-changed/model/breaking_rules*.go'), ('CreateChange, PropertyCheck', 'what-changed/model/comparison_functions.go')],
 observe=['Change.Breaking', 'SetActiveBreakingRulesConfig', 'BreakingRulesConfig.Merge'],
 technique='interprocedural constant and origin propagation over SSA from every change record to the rule lookup that classifies it',
 note='Decides which rule classifies which change, not whether the default values of the rules are the right ones.'),
dict(id='C06', title='Every field of a low-level object reaches the high-level object made from it',
 statement='Making a high-level object from a low-level one carries over every content field: each field of the high-level object is assigned from the field of the same name of the low-level object and from no other field, for every element of a list or map, and whether it is assigned depends on that field alone.',
 over=['inputs'], quant='every high-level object type, every field, every document',
 why='High-level constructors are copied field by field; a field that is taken from its neighbour, forgotten, or copied only when another one is set passes every test that does not look at exactly that field in exactly that document.',
 files=['datamodel/high/base/*.go', 'datamodel/high/v2/*.go', 'datamodel/high/v3/*.go', 'datamodel/high/arazzo/*.go', 'datamodel/high/overlay/*.go'],
 mech=[('New* constructors', 'datamodel/high/**')],
 observe=['fields of the high-level model', 'BuildV2Model', 'BuildV3Model'],
 technique='field-sensitive dataflow over SSA from low-level fields to high-level field assignments (through goroutines, channels and local function literals), with control dependence',
 note='Relates the fields by name. That the conversion of the value itself is right is decided for nested objects (they are checked themselves) but not for scalar conversions.'),
dict(id='C07', title='Rendering writes every field of a high-level object under its own keyword',
 statement='Rendering a high-level object back to YAML or JSON writes every exported field of it: under the keyword of that field and of no other, the same keyword in both formats, two fields never under one keyword, an explicit zero told apart from an absent value, whatever the other fields hold (a reference object writes only its reference), every element of a list or map, and with the position and style information of its own low-level object.',
 over=['inputs'], quant='every rendered OpenAPI 3, Arazzo and Overlay object type, every exported field, every value',
 why='Rendering is driven by struct tags and hand-copied marshalling methods; a tag with the neighbour\'s keyword or without renderZero, or a field written only inside the branch of another one, compiles and passes every test that does not render exactly that field.',
 files=['datamodel/high/base/*.go', 'datamodel/high/v3/*.go', 'datamodel/high/arazzo/*.go', 'datamodel/high/overlay/*.go', 'datamodel/high/node_builder.go', 'orderedmap/builder.go'],
 mech=[('struct tags and MarshalYAML methods', 'datamodel/high/**'), ('NodeBuilder', 'datamodel/high/node_builder.go'), ('ToYamlNode', 'orderedmap/builder.go')],
 observe=['Render', 'MarshalYAML', 'RenderAndReload'],
 technique='rules over struct tags of the type-checked program, plus dataflow over SSA from receiver fields to keyword/value pairs and returned nodes, with control dependence',
 note='Decides which field goes under which keyword and under which condition; how the node builder formats a scalar (style, number lexeme) is not decided. Writing false for uniqueItems, nullable and deprecated is not demanded (it is their default).'),
dict(id='C08', title='No failure is swallowed: errors are handed on to the caller',
 statement='Every error that a function of the library, or a read or parse of a document or file, returns is handed on: it is returned, joined, collected, wrapped or stored by the code that receives it on every path on which it is not nil, so that a failure while reading, indexing, building, resolving, rendering, bundling, overlaying, generating or running a workflow is reported to the caller and never turned into a silent success with missing content. The documented best-effort steps are the only exceptions: parsing with the document check switched off, $id resolution and registration (the identifier is used as written), content type detection of remote files, a path item that cannot be built (logged, the other paths are kept), a sibling merge that fails, circular references the configuration allows, word dictionaries and fallback mock values.',
 over=['inputs', 'environment'], quant='every call of a function that can fail, every failure',
 why='Error branches are the least tested code: a failure that is checked and then dropped, overwritten, or returned as nil on one path compiles, and every test without that failure at that point passes.',
 files=['datamodel/**/*.go', 'index/*.go', 'bundler/*.go', 'overlay/*.go', 'arazzo/*.go', 'generator/golang/*.go', 'renderer/*.go', 'utils/*.go', 'document.go'],
 mech=[('every call with an error result', 'all packages'), ('failure analysis', 'interprocedural least fixpoint: which error results can be non-nil')],
 observe=['errors of NewDocument, BuildV2Model, BuildV3Model', 'Render, RenderInline, MarshalYAMLInlineWithContext', 'Rolodex.GetCaughtErrors', 'BundleDocument, BundleBytes', 'overlay.Apply', 'Engine.RunWorkflow'],
 technique='interprocedural can-fail fixpoint over SSA, then per call a forward flow of the error value and a must-reach path analysis from every non-nil branch to a return, join, store or wrapping of it',
 note='Scope: errors of the library\'s own functions and interfaces and of os, io, io/fs, net/http, yaml and json parsing. Close, strconv, url and filepath helpers, and encoding of in-memory values are out of scope. A value handed to any call counts as handed on; what that call does with it is decided at its own sites only if it returns an error.'),
dict(id='C09', title='Objects made by hand do not crash the library',
 statement='A high-level object (OpenAPI, Arazzo, Overlay, schema, change comparison) that a program assembles by hand, with no low-level object behind it and with any of its pointer and map fields left unset, can be rendered, compared, hashed, bundled, mocked and queried without a nil dereference: code that uses the low-level object of a high-level object, or what a pointer field of one points to, does so only where it has made sure that it is there.',
 over=['inputs'], quant='every use of a low-level object behind a high-level one and of a pointer field of a high-level object, in every package',
 why='Tests build objects by parsing documents, where the low-level object is always there and most fields are set; the combination of an unset field and one method is met only by users who assemble documents.',
 files=['datamodel/high/**/*.go', 'renderer/*.go', 'bundler/*.go', 'what-changed/**/*.go', 'arazzo/*.go', 'generator/golang/*.go', 'document.go'],
 mech=[('low fields and accessors', 'datamodel/high/**'), ('consumers of high-level objects', 'renderer, bundler, what-changed, arazzo, generator')],
 observe=['Render, MarshalYAML, GoLow', 'renderer.MockGenerator', 'CompareDocuments', 'arazzo.Engine'],
 technique='access-path nil analysis over SSA: every dereference must be dominated by a nil test or a store of a new object, locally, in every caller, or where the closure is made',
 note='Covers pointer fields and low-level objects reached by access paths of fields and accessors; nil elements of slices and maps and nil receivers or arguments themselves are not covered.'),
    dict(id="C10", title="No document crashes the library: what may not be there is looked at first",
      statement="Reading, indexing, resolving, building, comparing, rendering, bundling and overlaying a document never panics on account of something that the document leaves out: a function's result, a lookup in a map or a found node that can be nil is used only where it was found to be there (by testing it, or the error or flag returned with it), and an element at a fixed place of a list (the value beside a $ref key, the content of a document node, the part of a reference behind its '#') is taken only where the list was found to be long enough. References to missing or empty files and components, odd or empty lists, aliases, and unparsable addresses lead to errors or are skipped.",
      over=["inputs"], quant="every nilable result, map lookup and constant index in the library, over every document",
      why="The crashing inputs are malformed or unusual documents: a reference to an empty file, a $ref behind an alias, a list where an object is expected, a huge array index. Tests sample a few; one missing guard on one path is enough, and many of the paths run in goroutines, where a panic ends the program.",
      files=["index/*.go", "datamodel/**/*.go", "bundler/*.go", "renderer/*.go", "what-changed/**/*.go", "overlay/*.go", "arazzo/*.go", "utils/*.go", "generator/golang/*.go"],
      mech=[("nil-result summaries", "every function of the library and of the packages it uses"), ("constant indexes into slices", "all packages")],
      observe=["NewDocument, BuildV2Model, BuildV3Model", "CompareDocuments", "BundleBytes, BundleBytesComposed, BundleBytesWithConfig", "index.NewSpecIndex, Resolver", "overlay.Apply"],
      technique="interprocedural nil-result summaries with correlated error/flag results over SSA, and length facts from dominating tests, predicates, constructors and callers",
      note="Covers nilable results, map lookups and constant indexes. Fields read from parsed models, type assertions, computed indexes other than those listed in DESIGN.md, and unbounded recursion are not covered by this rule."),
    dict(id="C11", title="Waits end: no goroutine, lock or channel is left waiting",
      statement="Building, indexing, resolving, comparing, rendering and bundling always come to an end however their goroutines are scheduled and whichever of them fail: a lock that is taken is released on every path (early returns and panics that are recovered included) and is never taken again by the goroutine that holds it; locks are not taken in opposite orders; a goroutine that is waited for reports exactly once on every path, and the one that waits expects exactly as many reports as goroutines were started; no goroutine is left blocked on a channel nobody reads any more because another one failed; what waits for a file to be fetched or indexed is always woken, also when fetching or indexing fails, and files that wait for each other do not wait forever.",
      over=["schedules", "inputs", "failures"], quant="every lock, channel, wait group and goroutine of the library, every path",
      why="The counts, hand-overs and wake-ups are spread over dozens of hand-written fan-outs whose failing paths tests rarely take; a missing unlock, a report that is skipped on an error path, or one goroutine more than is counted hangs (or leaks) only for the input and schedule that takes that path.",
      files=["index/*.go", "datamodel/**/*.go", "what-changed/**/*.go", "utils/*.go", "renderer/*.go", "orderedmap/*.go", "arazzo/*.go"],
      mech=[("mutexes", "index/*.go, datamodel/low/**"), ("fan-outs with done channels and wait groups", "datamodel/low/**, what-changed/model/*.go, index/*.go"), ("waiters for files", "index/rolodex*.go, index/find_component_external.go")],
      observe=["NewDocument, BuildV2Model, BuildV3Model", "CompareDocuments", "Rolodex.Open, IndexTheRolodex", "SpecIndex", "goroutine leaks"],
      technique="typestate analysis of locks with a lock-order graph, and path enumeration with symbolic counting of goroutine starts, reports and receives over SSA",
      note="Waits on user-supplied functions, HTTP and file systems themselves are outside the property; channel protocols are matched by path names of channels and by symbolic counts (constants, lengths, collection sizes)."),
    dict(id="C12", title="Work done side by side does not race",
      statement="Memory that goroutines of the library share is only touched in step: what two goroutines that run at the same time both use, or a goroutine and the function that started it and has not yet waited for it, is either read by both or used under a common lock (or is an element, channel or round variable of its own); a field that is protected by a lock of its object is read and written only with that lock held (for writing, when it is written), except while the object is being prepared or released; and package variables that change while the program runs (caches, the active breaking rules) are used only under their lock.",
      over=["schedules", "inputs"], quant="every go statement and every pair of concurrent bodies, every field that a lock protects, every package variable",
      why="A data race shows itself only under the one schedule in which both sides meet; the tests run without the race detector, mostly on one document at a time, and a lost update or a torn map corrupts a model silently or ends the program.",
      files=["index/*.go", "datamodel/**/*.go", "what-changed/**/*.go", "utils/*.go", "renderer/*.go", "arazzo/*.go"],
      mech=[("fan-outs", "datamodel/low/**, what-changed/model/*.go, index/*.go"), ("locks of Rolodex, SpecIndex, file systems, schema proxies", "index/*.go, datamodel/**/schema_proxy.go"), ("package caches", "index/rolodex_remote_loader.go, what-changed/model/breaking_rules.go")],
      observe=["NewDocument, BuildV2Model, BuildV3Model", "CompareDocuments", "Rolodex, RemoteFS, LocalFS used concurrently", "race detector"],
      technique="interprocedural effect analysis (access paths with must-held locks) over SSA, compared between concurrent goroutine bodies and their starters; guarded-by inference for struct fields and package variables",
      note="Effects are followed through eight calls and four path segments; memory reached through interface values with many implementations, and atomicity of several locked steps, are not decided. Caches that the counting queries of an index fill on first use are treated under C13."),
    dict(id="C13", title="Asking does not change what is asked",
      statement="Looking is free of side effects: hashing, comparing, rendering, marshalling, searching, counting, mocking, generating code and reading through accessors leave the documents, models, nodes and indexes they are given as they were. Whatever such a function writes - a field, an element of a list or map, the order of a list - belongs to an object it has made itself (also in the functions it calls), except what is only kept so that the same question need not be worked out again (built schemas, hashes, counts). So asking twice gives the same answer, comparing or rendering a document does not alter its next rendering, and what is asked of one part has no effect on others.",
      over=["inputs", "histories"], quant="every write in every function that is reached from a query, over every sequence of calls",
      why="Tests call each query once on a fresh document and look at its answer; that it has sorted a list of the document in place, written a computed name into a shared node, or cleared a flag shows only in a later question about the same document.",
      files=["datamodel/**/*.go", "what-changed/**/*.go", "renderer/*.go", "index/*.go", "document.go", "generator/golang/*.go", "orderedmap/*.go", "utils/*.go"],
      mech=[("writes to fields of documents, models, indexes and nodes", "all packages"), ("objects made by a query", "clone_node.go, node_builder.go, schema_proxy.go, constructors")],
      observe=["Hash, CompareDocuments, Render, RenderInline, MarshalYAML, GetX accessors", "SpecIndex queries", "renderer, generator"],
      technique="interprocedural effect and freshness (ownership) analysis over SSA from all query functions",
      note="Building, opening and indexing (functions named Build, New, Open, Index, Create, ...) are commands, not questions; they and what only they do are outside. Caches and counters that are kept are listed in DESIGN.md. Results may share memory with the model; what a caller does with them is not covered."),
    dict(id="C14", title="The same input always gives the same output",
      statement="Results do not depend on the order in which Go happens to go through a map, or on which goroutine is ready first: what is collected from a map or from goroutines into an ordered result (a list, an ordered map, the content of a node, text, a hash) is put in a fixed order - the order of the document or a sorted one -, an element is not chosen because it happened to come first or last, and elements do not overwrite each other under the same key. So reading, indexing, bundling, rendering, mocking, hashing and generating give the same models, lists and bytes every time. (A change report is a set of changes: the order of its lists is not promised; nor is which of several errors is reported first.)",
      over=["schedules", "map orders"], quant="every loop over a Go map, every receiving loop and every group of goroutines in the library",
      why="A run under test sees one order; a map with one or two entries, or a quick goroutine, nearly always shows the order the author had in mind. That two definitions swap places, or another file wins, appears on some runs only.",
      files=["index/*.go", "datamodel/**/*.go", "bundler/*.go", "renderer/*.go", "generator/golang/*.go", "arazzo/*.go", "orderedmap/*.go", "utils/*.go"],
      mech=[("loops over maps", "all packages"), ("fan-outs and their collectors", "datamodel/translate.go, datamodel/low/**, index/*.go"), ("sorting of what was collected", "all packages")],
      observe=["BuildV2Model, BuildV3Model", "Rolodex indexes and circular references", "bundled documents", "mocks", "generated code", "hashes"],
      technique="order-taint analysis over SSA: effects whose order shows (appends, ordered-map sets, text, last or first element wins) in loops over maps, receive loops and concurrent goroutine bodies, followed through calls and callbacks, unless sorted afterwards",
      note="Whether a sorting comparator is total, and the order in which several documents are fetched, are not decided. Reports of changes and the choice among errors are outside."),
    dict(id="C15", title="What the configuration says is what happens",
      statement="Settings take effect. Every setting of a configuration (of documents, indexes, local file systems, bundling, arazzo sources and engine, mocks, JSONPath) is acted on somewhere; what a document configuration says reaches the index configuration under the setting of the same name, for OpenAPI 3 and Swagger alike, also when one configuration is made from another; the configuration a caller hands in is the one that is used, for the root document and, but for what belongs to a single file (its path, base URL, parsed content), for every file it refers to - it is not replaced by a fresh one, not overwritten, and defaults fill in only what is not set. Files and the network are touched only where the configuration allows it: local files with BasePath or AllowFileReferences, remote ones with AllowRemoteReferences, neither for references when SkipExternalRefResolution is set; arazzo sources only within AllowedSchemes, AllowedHosts (redirects included), FSRoots (symbolic links followed), MaxSources and MaxBodySize.",
      over=["inputs", "configurations"], quant="every setting, every place where a configuration is made or changed, every call that opens a file or a connection and every path to it",
      why="Tests set one or two settings at a time on the root document; that one is dropped on the way to a file three references deep, in the Swagger half only, or that one way of reaching the network has no test in front of it, shows only with that combination - and then reads what it was told not to.",
      files=["document.go", "datamodel/document_config.go", "datamodel/low/v2/swagger.go", "datamodel/low/v3/create_document.go", "index/*.go", "arazzo/*.go", "bundler/*.go", "utils/*.go"],
      mech=[("making and copying configurations", "datamodel/low/v2/swagger.go, datamodel/low/v3/create_document.go, index/index_model.go"), ("child configurations of referenced files", "index/rolodex*.go"), ("tests in front of files and network", "index/rolodex*.go, index/find_component_external.go, index/search_index.go, arazzo/resolve.go")],
      observe=["NewDocumentWithConfiguration, BuildV2Model, BuildV3Model", "index.Rolodex, LocalFS, RemoteFS", "arazzo.ResolveSources", "bundler"],
      technique="field-flow analysis of configuration structs over SSA, and gate analysis: every path from an entry point to a file or network call is cut by a test of the permitting setting (interprocedural, over the call graph)",
      note="That a setting is acted on is decided, not that it is acted on in exactly the documented way. What a file system or handler supplied by the program does is its own business. The circular-reference and sibling-ref settings are only followed to the code that reads them."),
    dict(id="C16", title="What is taken is given back, and what is released is let go",
      statement="Nothing is held on to by accident. Every file, response body and cancelable context that the library opens is closed or cancelled on every path, errors included (or handed to the caller). An object borrowed from a pool starts out empty - it carries nothing over from its last use -, and once it has been given back it is not used again, not given back again and not kept by anyone. What is marked as being under way (schemas being rendered, workflows being run, types being described, files being read, nodes on the current path of a circle search) is unmarked on every path when it is over, so that it is not taken for a circle or for busy afterwards. Release of a document, its SpecInfo, an index, a resolver or a rolodex lets go of every field through which it holds nodes, models or references, whatever state it is in; ClearAllCaches empties every package-wide cache and pool that holds anything of a document, and the Clear methods of an object all of its caches, so that a long-running process does not grow from document to document.",
      over=["inputs", "failures", "histories"], quant="every call that opens something, every borrowed object, every mark, every field of a releasable type, every package variable that grows, every path",
      why="A file left open on one error path, a pooled hasher that was not reset, a mark that stays behind on an early return, or a new cache that nobody added to the clearing function shows no failure in a test: it shows after the next use, the next document, or a day of running.",
      files=["index/*.go", "arazzo/*.go", "renderer/*.go", "datamodel/**/*.go", "utils/*.go", "generator/golang/*.go", "document.go", "cache.go"],
      mech=[("files and responses", "index/rolodex*.go, arazzo/resolve.go, renderer/schema_renderer.go"), ("pools", "datamodel/low/hash.go, datamodel/low/extraction_functions.go, index/utility_methods.go"), ("marks", "datamodel/high/base/schema_proxy.go, arazzo/engine.go, arazzo/validation.go, index/resolve_refs_node.go, generator/golang/from_reflect.go"), ("Release and ClearAllCaches", "document.go, cache.go, index/index_model.go, index/rolodex.go, datamodel/spec_info.go")],
      observe=["open files and connections", "Hash", "circular reference reports", "Document.Release, SpecIndex.Release, Rolodex.Release", "ClearAllCaches"],
      technique="typestate analysis over SSA paths (opened/closed, borrowed/returned, marked/unmarked) with interprocedural summaries, and field coverage of Release and Clear functions against the type declarations and the package variables that grow",
      note="A path on which a borrowed object is not given back at all is allowed (the garbage collector has it). Document.Release deliberately leaves the indexes to whoever owns them. That two documents never share a cache entry is not decided."),
]
NA = []
