import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    if obs: a["observe_at"]=[obs]
    if hook is not None: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
p("C01","Dehydration writes exactly the RDF dataset the layout describes",
"For every layout and tree value, and however the operating system slices the input and output streams, a successful dehydration writes exactly the dataset (up to blank node naming, in the graphs the layout selects) that the layout's patterns describe for that value, nothing more and nothing less. A value the layout does not admit (wrong shape or type, missing required key, unknown key, no sum variant or more than one, resources that would need two different names) is refused with a failure status and no dataset at all.",
["inputs","schedules"],"all layouts (record, sum, set, list, tuple, literal, id, unit, nested and by reference), all tree values in JSON or CBOR, all chunkings and retryable interruptions of the streams",
"The tests run seven fixed pairs of files through the library; layouts compose without bound and the command-line path (stream decoding, layout loading, output writing) is not tested at all.",
["layouts/src/distill/de/mod.rs","layouts/src/distill/de/data.rs","layouts/src/abs/syntax/layout/mod.rs","layouts/src/abs/syntax/build.rs","src/main.rs","src/format/rdf.rs"],
[("layout interpretation of a value","layouts/src/distill/de/mod.rs dehydrate_with_ref"),("variable environments","layouts/src/distill/de/mod.rs Environment"),("layout compilation","layouts/src/abs/syntax/layout/*.rs Build impls"),("N-Quads output","src/format/rdf.rs RDFFormat::write")],
"interpretation of inputs and anonymous resources","tldr dehydrate: exit status and standard output")
p("C02","Hydration writes exactly the tree value the layout describes",
"For every layout, RDF dataset and choice of subjects, and however the operating system slices the streams, a successful hydration writes exactly the tree value obtained by matching the layout's patterns against the dataset in the selected graphs: every required part matched exactly once, optional parts present exactly when matched, set items all present, list items in list order. A dataset that matches ambiguously, misses required data, holds literals of another type, or fits no sum variant or several, is refused with a failure status and no value at all.",
["inputs","schedules"],"all layouts, datasets and subjects; all orders of the statements in the input; all chunkings and retryable interruptions of the streams; JSON (compact or pretty) and CBOR output",
"Pattern matching is a search whose result depends on the whole dataset; the tests sample seven datasets and never an ambiguous, incomplete or reordered one.",
["layouts/src/distill/hy/mod.rs","layouts/src/distill/hy/data.rs","layouts/src/matching.rs","layouts/src/pattern.rs","src/main.rs","src/format/tree.rs"],
[("layout interpretation of a dataset","layouts/src/distill/hy/mod.rs hydrate_with_ref"),("pattern matching","layouts/src/matching.rs Matching"),("substitutions","layouts/src/pattern.rs Substitution::with_quad"),("tree output","src/format/tree.rs TreeFormat::write_typed")],
None,"tldr hydrate: exit status and standard output")
p("C03","A value piped through dehydrate then hydrate comes back unchanged",
"When a value accepted by a layout that records all of its content is dehydrated and the written dataset is piped into hydration with the same layout and subject, the value comes back (numbers by value, sets up to order and duplicates), and dehydrating it again gives the same dataset up to blank node naming. If either process is stopped part way or the pipe between them breaks, the pipeline reports failure, and the consumer was given at most a prefix of the producer's output; it never reports success with a different value.",
["inputs","fault_sequences","crash_points"],"all lossless layouts and values; JSON and CBOR; all pipe chunkings; a crash of the producer, an early close by the consumer or an I/O error at any byte",
"The tests check one direction per file and never feed one direction's output to the other, let alone through a pipe that breaks.",
["layouts/src/distill/de/mod.rs","layouts/src/distill/hy/mod.rs","src/main.rs","src/format/rdf.rs","src/format/tree.rs"],
[("both distillation directions","layouts/src/distill/de/mod.rs, layouts/src/distill/hy/mod.rs"),("stream encoding and decoding","src/format/rdf.rs, src/format/tree.rs")],
None,"exit statuses and streams of the two processes")
p("C04","Converting between formats preserves the value",
"Converting a tree value between JSON and CBOR preserves it: null, booleans, text, arrays, objects and every number keep their value (when writing CBOR: integers from -2^63 to 2^64-1 and numbers representable in binary64 exactly, others as the nearest binary64), and what has no JSON counterpart (byte strings, non-text keys) is refused rather than altered. Tagged CBOR input is either refused or read as the value it denotes. Converting an RDF dataset preserves exactly its set of statements, and hydration writes the same value in either tree format, with the CBOR tags its layouts ask for.",
["inputs","schedules","fault_sequences"],"all values, datasets and chains of conversions over any stream chunking and interruption",
"The space of values is unbounded and the interesting ones (zero, negative fractions, exponents, 64-bit limits, surrogate pairs, multi-byte characters split across reads) are not in the tests.",
["layouts/src/value/mod.rs","layouts/src/value/ser.rs","layouts/src/value/de.rs","layouts/src/value/cbor/serde_cbor.rs","layouts/src/value/cbor/mod.rs","src/format/tree.rs","src/format/rdf.rs"],
[("number conversion","layouts/src/value/mod.rs Number"),("CBOR tags and encoding","layouts/src/value/cbor/serde_cbor.rs"),("serde bridges","layouts/src/value/ser.rs, layouts/src/value/de.rs")],
None,"tldr convert tree, convert rdf, hydrate -o: standard output")
p("C05","Success is reported only when all was read and all was delivered",
"Whenever reading a layout file or the input fails, or the output device refuses, loses or cannot take some of the output, the command ends with a failure status; it ends with a success status only if the whole output was accepted by the output device. An interrupted or partial read or write is not a failure: the operation is continued and neither loses nor repeats a byte.",
["fault_sequences","crash_points"],"every failing system call position and kind (open, read, write; EIO, ENOSPC, EPIPE, EACCES, ENOENT, EISDIR; short, zero and interrupted transfers) in every command",
"Tests run on healthy files and pipes; which call fails, and after how many bytes, is not something they control.",
["src/main.rs","src/format/rdf.rs","src/format/tree.rs","generators/rust/generator/src/bin/main.rs"],
[("status reporting","src/main.rs main, run"),("output writing and flushing","src/format/tree.rs, src/format/rdf.rs"),("layout loading","src/main.rs run, load_layout")],
None,"exit status against the bytes accepted by the simulated devices")
p("C06","The same input gives the same bytes on every run",
"Two runs of the same command on the same layouts and input produce byte-identical standard output, the same status and the same diagnostics, whatever the process's hash seeds, memory addresses, clock, environment and stream chunking. The order of the statements in an RDF input changes neither the status nor the hydrated value.",
["schedules","inputs"],"all hash seeds, address layouts, clocks, chunkings and statement orders, for every command",
"A test process sees one hash seed and one address layout per run and compares values, not bytes across processes.",
["layouts/src/distill/de/mod.rs","layouts/src/distill/hy/mod.rs","layouts/src/value/mod.rs","layouts/src/abs/syntax/build.rs","generators/rust/generator/src/lib.rs"],
[("resource naming","layouts/src/distill/de/mod.rs dehydrate"),("set ordering","layouts/src/distill/hy/mod.rs unordered lists"),("diagnostics","src/main.rs Error::into_diagnostic")],
"hash maps of the interpretation and of the scope","standard output and error of repeated runs")
p("C07","A failed run leaves no output that could pass for a result",
"A run that is refused (bad layout, bad input, non-conforming data, wrong arguments) writes nothing to standard output and says why on standard error. A run that fails while writing has delivered a prefix of the output it would have produced, and nothing else; no run writes to, creates or alters any file.",
["fault_sequences","crash_points","inputs"],"all refused inputs, all sink failures at any byte, and a crash at any system call of every command",
"The point at which the device fails, or the process dies, cannot be placed by a test.",
["src/main.rs","src/format/rdf.rs","src/format/tree.rs"],
[("compute before write","src/main.rs Command::run, Convert::run"),("diagnostics","src/main.rs main")],
None,"bytes accepted by the simulated devices, files opened for writing")
p("C08","A truncated or damaged input is never mistaken for a whole one",
"Input cut short at any byte of its document, cut by a read error, or damaged so that it is no longer well formed, is refused: the command fails and writes nothing. What the command does depends only on the bytes actually delivered up to end of file, so an input that stays well formed gives exactly the result of that shorter or changed input.",
["fault_sequences","crash_points","inputs"],"every truncation point, read error position and damaged byte of the JSON, CBOR, N-Quads and layout documents, under every chunking",
"Tests read complete files from disk.",
["src/format/tree.rs","src/format/rdf.rs","src/main.rs"],
[("stream decoding","src/format/tree.rs TreeFormat::load, src/format/rdf.rs RDFFormat::load"),("layout parsing","src/main.rs load_layout")],
None,"exit status and standard output under input faults")
p("C09","Commands use the layout the user designated, and only well-formed layouts",
"A command uses the layout named on the command line, or else the single layout given as main file, and refuses to guess when there is none or several; included files add definitions without becoming candidates, every definition is found by its identifier whatever file and nesting it comes from and whatever the order of the files, and user definitions take precedence over the built-in ones. A layout set that defines an identifier twice, uses an undeclared variable or an unresolvable identifier, or contains an unknown or duplicate entry, is refused, and so is any use of a reference that nothing defines.",
["inputs","fault_sequences"],"all sets, orders and roles of layout files, identifier spellings (absolute, relative to a base, prefixed), designations, with and without the built-in layouts, and all faults while loading",
"Loading is a history of insertions into a shared collection; the tests build one layout at a time.",
["src/main.rs","layouts/src/lib.rs","layouts/src/prelude.rs","layouts/src/preset.rs","layouts/src/abs/mod.rs","layouts/src/abs/syntax/build.rs","layouts/src/abs/syntax/mod.rs","layouts/src/abs/syntax/pattern/compact_iri.rs"],
[("default layout selection","src/main.rs DefaultLayoutRef"),("registry union","layouts/src/lib.rs LayoutRegistryUnion"),("identifier resolution","layouts/src/abs/syntax/pattern/compact_iri.rs"),("scopes","layouts/src/abs/syntax/build.rs Scope"),("built-in layouts","layouts/src/prelude.rs, layouts/src/preset.rs")],
"collection of layouts built from the files","status and output of commands")
p("C10","Concurrent callers of the library get the answers they would get alone",
"When several threads hydrate and dehydrate at the same time with the same layout collection, dataset and built-in layouts, each call returns exactly what it returns when run alone, for every interleaving of their accesses to the shared components, and every call completes.",
["schedules"],"all interleavings of the caller threads at every access to the shared layout registry, dataset, vocabulary and interpretation",
"The tests are single threaded.",
["layouts/src/distill/de/mod.rs","layouts/src/distill/hy/mod.rs","layouts/src/matching.rs","layouts/src/lib.rs","layouts/src/prelude.rs","layouts/src/value/mod.rs"],
[("shared registry and lazily initialised presets","layouts/src/lib.rs LayoutRegistry, layouts/src/prelude.rs, layouts/src/preset.rs"),("matching over a shared dataset","layouts/src/matching.rs")],
"lazy statics, shared registry and dataset","return values of hydrate, dehydrate and their _with variants")
p("C11","A call that fails leaves the caller's dataset and resources untouched",
"When a dehydration into a caller-owned dataset and interpretation fails, because the value does not conform, a layout is missing from the caller's registry, or a caller component panics while the value is being interpreted (a lookup, or the source of fresh resources), the dataset and the terms assigned to resources are as they were before the call, and later calls are unaffected. A call that succeeds only adds: exactly its own statements and terms, with everything already there kept.",
["histories","fault_sequences"],"all histories of successful and failing calls sharing one dataset and interpretation, with failures injected at any access to a caller component",
"Tests make one call on an empty dataset and never fail it half way.",
["layouts/src/distill/de/mod.rs","layouts/src/distill/hy/mod.rs"],
[("output staging","layouts/src/distill/de/mod.rs dehydrate_with"),("sum variant isolation","layouts/src/distill/de/mod.rs dehydrate_with_ref")],
"caller-owned dataset, vocabulary and interpretation","contents of the caller-owned components after each call")
p("C12","Distinct resources never share a name",
"Every resource the layout introduces for a value gets its own fresh name, and two different parts of a value are never merged: in the dataset a command writes, and across a whole history of calls drawing fresh resources from one shared source, different introduced resources have different names, equal occurrences of one resource have the same name, and names given by the value are used as given.",
["inputs","histories","schedules"],"all values and layouts introducing resources, all histories of calls sharing one source of names, all orders in which the calls draw from it",
"Name collisions need particular counts and interleavings of introduced resources that samples of one or two resources do not reach.",
["layouts/src/distill/de/mod.rs","layouts/src/abs/syntax/build.rs","layouts/src/abs/mod.rs"],
[("anonymous resources","layouts/src/distill/de/mod.rs dehydrate map_resource"),("introduced variables","layouts/src/distill/de/mod.rs Environment::intro"),("anonymous layouts","layouts/src/abs/syntax/build.rs anonymous_resource")],
"interpretation and name generator","datasets written or returned")
p("C13","The code generator reports failures and always emits the same, faithful code",
"For every layout file it accepts, the code generator writes the same Rust item on every run, whose kind, name, fields or variants (names, types, patterns, inputs and graphs) are those of the designated layout. It ends with a success status only when it has read all its files and delivered the whole item; an unreadable, malformed or truncated file, an unknown layout or a failing output gives a failure status and no item.",
["inputs","fault_sequences","schedules"],"all layouts with generated identifiers, all hash seeds and chunkings, every failing open, read or write",
"There is no test of the generator binary, and the failing call position is not controllable from a test.",
["generators/rust/generator/src/lib.rs","generators/rust/generator/src/utils.rs","generators/rust/generator/src/bin/main.rs"],
[("item generation","generators/rust/generator/src/lib.rs generate"),("identifier derivation","generators/rust/generator/src/utils.rs"),("file loading and status","generators/rust/generator/src/bin/main.rs main")],
None,"exit status and standard output of the generator binary")
p("C14","Every command ends in an orderly way, within a bounded amount of work",
"Every command ends, with a result or with a failure it reports itself (never by a panic, a crash or a stack overflow), after an amount of work bounded by the size of its input, whatever the data and the layouts: cyclic lists, values that are parts of themselves, self-referencing statements, layouts that refer to themselves, deeply shared structures, damaged files, and streams that deliver one byte at a time or are repeatedly interrupted (as long as the interruptions stop). Slicing or interrupting the streams does not change the result or make the work grow out of proportion.",
["inputs","fault_sequences","schedules"],"all datasets including cyclic ones, all layouts, all chunkings and finite sequences of interruptions",
"Non-termination and crashes need particular shapes of data and tests cannot distinguish slow from never.",
["layouts/src/distill/hy/mod.rs","layouts/src/matching.rs","layouts/src/distill/de/mod.rs","src/format/rdf.rs","src/format/tree.rs"],
[("list traversal","layouts/src/distill/hy/mod.rs ordered lists"),("backtracking search","layouts/src/matching.rs Matching::next"),("stream loops","src/format/*.rs")],
None,"deterministic count of allocations and system calls per run")
p("C15","Derived Rust types and layouts describe the same data",
"Derived serializers and deserializers and the layout engine, sharing one store, agree: what a derived type serializes is exactly what the layout engine writes for the equivalent layout and value, what either writes the other reads back as the same value, and both refuse the same incomplete or ambiguous data (a blank node identifier aside, which only derived types read). Types generated from layout files compile and agree with them in the same way. This holds for any history of writers adding to and removing from the store. A failing component of the caller is never hidden: a read does not change the store, and a write that is cut short adds nothing that the whole write would not have added.",
["histories","inputs","schedules"],"all histories of writes, removals and reads by derived types and layouts over a shared store, for the derivable shapes (record, optional field, sum, set, list, tuple, literals, id)",
"The tests only check that the derived code compiles; none serializes or deserializes anything.",
["generators/rust/treeldr-rs/src/de/matching.rs","generators/rust/treeldr-rs/src/ser/environment.rs","generators/rust/treeldr-rs/src/datatypes.rs","generators/rust/treeldr-rs-macros/src/generate/ser.rs","generators/rust/treeldr-rs-macros/src/generate/de.rs","generators/rust/treeldr-rs-macros/src/parse.rs"],
[("derived serialization","generators/rust/treeldr-rs-macros/src/generate/ser.rs"),("derived deserialization","generators/rust/treeldr-rs-macros/src/generate/de.rs"),("runtime matching","generators/rust/treeldr-rs/src/de/matching.rs")],
"shared dataset, vocabulary and interpretation","store contents and values read")
p("C16","Building layouts in any order and history gives the same collection",
"Layouts added to one builder in any order, with failing additions in between, give a collection in which every layout of a successful addition, nested or not, is found under its identifier with its own definition (the same one whether serde or the JSON reader read its text), anonymous ones never replace each other, and a definition is refused exactly when its identifier is already defined. A refused addition never changes or removes what was defined before it. Collections layered on one another answer every lookup from the one that takes precedence, and from the other one only when it does not define the identifier.",
["histories","fault_sequences"],"all histories of additions (valid, invalid, clashing, anonymous) to shared builders and collections, with any source of fresh names",
"Tests build one layout in one fresh builder.",
["layouts/src/abs/mod.rs","layouts/src/abs/syntax/build.rs","layouts/src/abs/syntax/layout/mod.rs","layouts/src/lib.rs"],
[("builder insertion","layouts/src/abs/mod.rs Builder"),("build contexts","layouts/src/abs/syntax/build.rs Context"),("collections","layouts/src/lib.rs Layouts, LayoutRegistryUnion")],
"builder and layout collections","lookups and distillation results after each step")
p("C19","Library reads depend only on what the caller's resources denote",
"Reading a value through the library, from whatever dataset, interpretation and vocabulary the caller supplies, returns exactly the value the layout describes for what the resources denote: the order of the statements, which of several equivalent names an input or a pattern uses, and further names a layout does not ask for make no difference. Data a layout can read in two different ways is refused, never read one of those ways at random. A failure of the caller's components during a read makes that read fail, without effect on the reads that follow.",
["histories","inputs","schedules","fault_sequences"],"all datasets over resources with any number of names and literal forms, all statement orders, all layouts, all histories of reads, every failing component access",
"The tests read through the identity interpretation, where every resource has exactly one name, and only in the order the parser yields.",
["layouts/src/distill/hy/mod.rs","layouts/src/distill/hy/data.rs","layouts/src/matching.rs","layouts/src/lib.rs"],
[("reading by layout","layouts/src/distill/hy/mod.rs Hydrate"),("literals and identifiers","layouts/src/distill/hy/data.rs"),("pattern matching","layouts/src/matching.rs Matching")],
"dataset, interpretation and vocabulary of the caller","values and errors returned by hydration")
p("C17","Regular expression patterns accept exactly the language they denote",
"A text or identifier pattern denotes a set of strings, and compiling it to a deterministic automaton preserves that set.",
["inputs"],"all regular expressions and strings","Sampling cannot cover a language.",
["layouts/src/abs/regexp.rs","layouts/src/utils/automaton.rs"],
[("parsing and compilation","layouts/src/abs/regexp.rs"),("determinisation","layouts/src/utils/automaton.rs")])
p("C18","Layout syntax trees survive printing and parsing",
"Serializing an abstract layout to JSON and parsing it again gives the same layout.",
["inputs"],"all abstract layouts","Sampling cannot cover all trees.",
["layouts/src/abs/syntax/mod.rs","layouts/src/abs/syntax/layout/mod.rs"],
[("serde and JSON conversions","layouts/src/abs/syntax/*.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: 
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
