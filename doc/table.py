prop("C01", "CRD generation does not depend on iteration order, scheduling, clock or env",
     "Generating CRDs from the same sources with the same options always gives byte-identical manifests, exit status and diagnostics. Nothing about the process that the user does not control - hash-map iteration order, scheduling of concurrent tasks, sizes of partial reads, time of day, unrelated environment variables - shows in the result, including when markers on a type or field contradict or override each other.",
     ["schedules", "inputs", "programs"], "every project and CRD command line, every map iteration order, task schedule, read split, clock and environment",
     "The tests run each fixture once under whatever order the runtime picks and compare to a golden file; an order that matters shows with small probability and only for fixtures that happen to combine the right markers.",
     ["pkg/crd", "pkg/markers", "pkg/loader", "pkg/genall"],
     [("priority-ordered application of markers", "pkg/crd/spec.go, pkg/crd/schema.go"), ("sorted kinds, versions and fields", "pkg/crd/gen.go, pkg/crd/flatten.go"), ("per-package locks in the type checker", "pkg/loader/refs.go")],
     ["generated files", "standard output", "standard error", "exit status"])
check("C01", "map orders, schedules, read splits, clocks and environments, against a reference execution",
      NOTE + "A difference between two executions of the same command is a violation by itself; no model is needed.")

prop("C02", "Generated RBAC roles grant exactly the declared permissions",
     "For every namespace scope, the generated role allows a request if and only if at least one RBAC marker in the loaded packages allows it, whatever the order in which rules are visited, normalised and merged. There is one role object per scope, and the manifests are byte-identical from run to run.",
     ["schedules", "inputs", "programs"], "every set of RBAC markers, and every map iteration order and schedule",
     "Merging rules is order-dependent when several rules share parts of their keys; the tests check a few fixed sets in one order.",
     ["pkg/rbac/parser.go", "pkg/markers", "pkg/genall"],
     [("rule keys, normalisation and merging", "pkg/rbac/parser.go"), ("sorted rule keys and namespaces", "pkg/rbac/parser.go")],
     ["generated role manifests", "exit status"])
check("C02", "map orders, schedules and read splits, against a reference authorizer over every distinguishing request",
      NOTE + "The oracle is an executable reference authorizer evaluated on every request the markers of the case can tell apart.")

prop("C03", "Webhook manifests contain exactly the declared webhooks",
     "The generated webhook configurations contain each declared webhook exactly once, with the declared field values, under the declared configuration names, and nothing else. The manifests are byte-identical from run to run.",
     ["schedules", "inputs", "programs"], "every set of webhook markers over any number of packages, and every map iteration order and schedule",
     "The tests compare a handful of fixtures to golden files, in one order each.",
     ["pkg/webhook/parser.go", "pkg/markers", "pkg/genall"],
     [("translation of markers", "pkg/webhook/parser.go"), ("sorted configurations", "pkg/webhook/parser.go")],
     ["generated webhook manifests", "exit status"])
check("C03", "map orders, schedules and read splits, against a reference translation of every marker",
      NOTE + "The oracle is an executable reference translation of the markers placed in the case.")

prop("C04", "Deep-copy generation is reproducible and its output compiles",
     "Generating deep copies from sources that compile, and whose types follow the API conventions (structs, maps, slices, pointers, basic types and types that copy themselves, named or nested in one another), always succeeds and gives code with which the whole module still compiles and in which every type that asked for an object implementation has one. The generated code is byte-identical whatever the iteration order, schedule, clock or environment.",
     ["schedules", "inputs", "programs"], "every project that type-checks, and every map iteration order and schedule",
     "The tests generate for one fixture package and compare to a golden file; import aliasing, type shapes and orders outside of it are not reached.",
     ["pkg/deepcopy", "pkg/loader", "pkg/markers"],
     [("import aliases", "pkg/deepcopy/traverse.go"), ("methods sorted by type name", "pkg/deepcopy/gen.go")],
     ["generated code", "type errors of the tree after generation", "exit status"])
check("C04", "map orders, schedules and read splits; the generated tree is type-checked inside the simulator",
      NOTE + "Whether generated code compiles is decided by go/types over the tree the simulated run left behind.")

prop("C05", "Apply-configuration generation is reproducible",
     "Generating apply configurations from the same sources with the same options always gives byte-identical code, exit status and diagnostics, whatever the iteration order, schedule, clock or environment.",
     ["schedules", "inputs", "programs"], "every project and every map iteration order and schedule",
     "One fixture is generated once and compared to a golden file.",
     ["pkg/applyconfiguration"], [("ordered targets and contexts", "pkg/applyconfiguration/gen.go")],
     ["generated code", "exit status"])
check("C05", "map orders, schedules, read splits, clocks and environments, against a reference execution",
      NOTE + "gengo and code-generator are instrumented too. Header files without a YEAR placeholder, as gengo fills that one in from the clock on purpose.")

prop("C06", "Patching manifests replaces exactly the schemata and is reproducible",
     "Patching existing CRD manifests gives every version that the sources have the schema that CRD generation gives it, drops the schema of versions the sources do not have, and leaves everything else - other fields, other kinds, key order, comments, other files - as it was. The result is byte-identical whatever the iteration order, schedule, clock or environment.",
     ["schedules", "inputs", "programs"], "every project with hand-written manifests, and every map iteration order and schedule",
     "The tests patch a few fixtures in one order and compare to golden files; agreement with the other generator is not checked.",
     ["pkg/schemapatcher", "pkg/crd"],
     [("node-preserving YAML edit", "pkg/schemapatcher/internal/yaml"), ("ordered kinds and packages", "pkg/schemapatcher/gen.go")],
     ["patched manifests", "exit status"])
check("C06", "map orders, schedules and read splits, against the CRD generator's schemata and the manifest before patching",
      NOTE + "Schemata are compared with those of the CRD generator only for projects without recursive types, whose flattening depends on the set of roots.")

prop("C07", "Help, marker documentation and scaffolding are reproducible",
     "Usage text, marker documentation, version, generated help code and scaffolding are byte-identical on every run of the same command, whatever the iteration order, schedule, clock or environment.",
     ["schedules", "configurations"], "every help-like command line and every map iteration order and schedule",
     "No test renders the documentation twice; registries are maps, so order comes from luck or from sorting.",
     ["pkg/genall/help", "cmd/controller-gen", "cmd/helpgen", "pkg/markers/reg.go", "pkg/typescaffold"],
     [("sorted definitions", "pkg/markers/reg.go, pkg/genall/help")], ["standard output", "standard error", "exit status", "generated files"])
check("C07", "map orders, schedules, clocks and environments, against a reference execution",
      NOTE + "Both streams are compared byte by byte.")

prop("C09", "A run that cannot write its output does not claim success",
     "If an output file, directory or standard output cannot be created, written or closed - out of space, quota, I/O error, permission, read-only, out of descriptors, partial write - the run reports a failure that says why and exits with a non-zero status. It never panics or hangs, and whenever it exits with status zero everything it should have produced is there, complete.",
     ["fault_sequences", "schedules", "configurations"], "every failure at every output operation, for every generator and output rule",
     "Tests never make output fail.",
     ["pkg/genall/genall.go", "pkg/genall/output.go", "pkg/deepcopy/gen.go", "pkg/schemapatcher/gen.go", "cmd/helpgen/main.go", "cmd/controller-gen/main.go"],
     [("errors returned by open, write and close", "pkg/genall/genall.go"), ("per-package error lists", "pkg/loader/loader.go")],
     ["exit status", "standard error", "files"])
check("C09", "output failures at every kind of output operation, against the fault-free execution of the same command",
      NOTE + "Failures of standard error itself are not injected.")

prop("C10", "A run that cannot read its input does not claim success",
     "If a source file, directory, manifest or header file cannot be read, or the go command that loads packages fails or dies half way, the run reports a failure that says why and exits with a non-zero status. It never panics or hangs, and whenever it exits with status zero its output is exactly what it would have been without the failure.",
     ["fault_sequences", "schedules", "configurations"], "every failure at every input operation, for every generator",
     "Tests cover missing paths at most; no read ever fails half way.",
     ["pkg/loader/loader.go", "pkg/loader/refs.go", "pkg/genall/input.go", "pkg/schemapatcher/gen.go"],
     [("errors recorded per package and printed at the end", "pkg/loader/loader.go")],
     ["exit status", "standard error", "files"])
check("C10", "input failures at every kind of input operation, against the fault-free execution of the same command",
      NOTE + "The go command is emulated; it fails as a whole or returns truncated output.")

prop("C11", "An interrupted run is repaired by running again",
     "If a run is killed, loses power or fails to write at any point, it leaves all of its inputs intact, and running the same command again without further interruption succeeds and leaves exactly the output of a run that was never interrupted. This holds after any number of interrupted runs.",
     ["crash_points", "fault_sequences", "histories"], "every crash point, power cut and write failure in one or more runs, for every generator and output rule that does not write over its input",
     "No test interrupts a run.",
     ["pkg/genall/output.go", "pkg/deepcopy/gen.go", "pkg/loader/loader.go"],
     [("truncate and rewrite of outputs", "pkg/genall/output.go"), ("build tag that hides generated code from the loader", "pkg/loader/loader.go")],
     ["files after the last run", "exit status"])
check("C11", "crash points, power cuts and write failures over one to three consecutive runs on the same files",
      NOTE + "A torn generated Go file that stops the next run is a known finding (it is truncated and written in place).")

prop("C12", "In-place patching never destroys a manifest",
     "Whatever interrupts or fails a run that patches manifests in place - a crash at any point, an unreadable manifest, a full disk - every manifest is afterwards either exactly as it was or exactly as patching should make it.",
     ["crash_points", "fault_sequences"], "every crash point and every input or output failure on the manifests while patching in place",
     "No test interrupts or fails patching.",
     ["pkg/schemapatcher/gen.go", "pkg/genall/output.go"],
     [("everything is read and converted before anything is written", "pkg/schemapatcher/gen.go")],
     ["files after the run"])
check("C12", "crash points, power cuts and I/O failures while patching in place",
      NOTE + "The one manifest being written at the moment of the interruption can be torn: known finding.")

prop("C08", "Wrong input is always rejected, with every mistake reported at its place",
     "If the sources, markers or arguments are wrong - malformed or misapplied markers, types without a schema, undefined names, syntax errors, missing imports, import cycles, kinds without storage or served version, impossible webhooks, unknown generators or options - the run ends, fails with a non-zero status, and reports each mistake at the file and line where it is. It never panics, hangs or succeeds, and which mistakes are reported does not depend on iteration order or on how concurrent tasks are scheduled.",
     ["schedules", "inputs", "programs"], "every combination of mistakes over the packages of a project, and every map iteration order and schedule",
     "Tests of errors are few, each with a single mistake, run once. Packages are parsed and checked in parallel, so an error can be lost, duplicated or turned into a hang by a schedule no test sees.",
     ["pkg/loader/loader.go", "pkg/loader/refs.go", "pkg/loader/errors.go", "pkg/genall/genall.go", "pkg/markers", "pkg/crd", "pkg/webhook/parser.go", "cmd/controller-gen/main.go"],
     [("errors recorded per package and printed at the end", "pkg/loader/loader.go"), ("files parsed in parallel", "pkg/loader/loader.go"), ("generators report whether there were errors", "pkg/genall/genall.go")],
     ["exit status", "standard error"])
check("C08", "map orders and schedules over projects with planted mistakes, each of which has to be reported at its place",
      NOTE + "The position and kind of every planted mistake are the reference. Diagnostics of import cycles are only required to mention the cycle: which import go/packages drops to break it depends on a map's order.")

prop("C13", "Generators that run together do what each does alone",
     "Running several generators in one invocation produces, for each of them, exactly the files that running it alone produces, in whatever order they are named, as long as their outputs do not overlap. The invocation succeeds if and only if each would succeed alone. When the output of one generator cannot be written, the others' output is complete all the same, and the run fails.",
     ["schedules", "inputs", "fault_sequences"], "every set and order of generators and output rules, every map iteration order and schedule, every output failure",
     "Tests run one generator at a time, on a runtime of its own; packages, type information and marker registry are shared when there are several.",
     ["pkg/genall/genall.go", "pkg/genall/options.go", "pkg/loader/refs.go", "pkg/markers/collect.go"],
     [("shared roots, collector and type checker", "pkg/genall/genall.go"), ("node filter made of every generator's", "pkg/genall/genall.go"), ("continuing after a generator's failure", "pkg/genall/genall.go"), ("output rule per generator", "pkg/genall/output.go")],
     ["generated files", "exit status", "standard error"])
check("C13", "generator orders, schedules, map orders and output failures of a joint run, against runs of each generator alone",
      NOTE + "Each generator alone, in a process of its own, is the reference. With mistakes in the sources only the exit status is compared, and that something is reported: a mistake in one generator's markers may hide another's.")

prop("C16", "The result of a run does not depend on what earlier runs left behind",
     "Whatever is in the places a run writes to - longer, shorter, empty or unrelated files, or the output of earlier runs with other options, generators or sources - a run whose sources, command and configuration are the same ends the same way, with the same diagnostics and byte-identical output. Files it does not produce are left as they were.",
     ["histories", "schedules", "inputs"], "every history of earlier runs and edits on the same files, for generators that do not patch in place",
     "Every test starts from fresh files. An output that is not truncated, generated code that is read back as a source, or a stale file that shadows an input shows only with the right history.",
     ["pkg/genall/output.go", "pkg/deepcopy/gen.go", "pkg/loader/loader.go", "pkg/schemapatcher/gen.go"],
     [("outputs created or truncated", "pkg/genall/output.go"), ("build tag that hides generated code from the loader", "pkg/loader/loader.go")],
     ["files after the last run", "exit status", "standard output", "standard error"])
check("C16", "histories of runs, edits and leftovers on one file system, with schedules, map orders and clocks, against a run on fresh files",
      NOTE + "A run of the same command on fresh files is the reference.")

prop("C17", "Nothing outside of the configured outputs is touched",
     "Generators create, change or remove files only where the output rules send them: the configured directories, or beside the sources for generated code. Whatever fails, whatever the schedule and wherever the run is interrupted, sources, headers, input manifests and everything else on disk stay as they were. Output rules that discard or print write no files.",
     ["fault_sequences", "crash_points", "schedules", "inputs"], "every project, output rule, failure and crash point",
     "Tests look at the files they expect, not at the others, and inject no failures.",
     ["pkg/genall/output.go", "pkg/genall/genall.go", "pkg/deepcopy/gen.go", "pkg/schemapatcher/gen.go"],
     [("output rules", "pkg/genall/output.go"), ("per-generator rules", "pkg/genall/options.go")],
     ["every mutating file operation", "files after the run"])
check("C17", "schedules, failures at any file operation and crash points, with every file operation checked against the output rules",
      NOTE + "The invariant is checked at each mutating operation of the simulated file system while the run proceeds, and over all files afterwards.")

prop("C18", "How packages are named does not matter",
     "Patterns that select the same packages - wildcards, directories one by one, absolute or relative, import paths, repeated or overlapping, in any order, with options and generators in any order - give the same exit status, the same diagnostics and byte-identical output.",
     ["inputs", "schedules"], "every way of naming the packages of a project whose types are not recursive, for generators whose output does not override one another's",
     "Tests name each fixture in one way. The order and number of patterns decides the order in which packages are loaded, checked and flattened, and which of them share a loading configuration.",
     ["pkg/loader/loader.go", "pkg/loader/paths.go", "pkg/genall/genall.go", "pkg/crd"],
     [("roots found from patterns, nested modules expanded", "pkg/loader/loader.go"), ("canonical packages shared between loads", "pkg/loader/loader.go")],
     ["generated files", "exit status", "standard error"])
check("C18", "wordings of the same packages, each under other schedules and map orders, against one another",
      NOTE + "Two wordings of the same command are compared with each other; no model is needed. Recursive types are left out: how far they are unrolled depends on the root they are first reached from.")

prop("C14", "Concurrent loading has no data races, deadlocks or lost errors",
     "Packages are loaded, parsed and type-checked by concurrent tasks. Whatever their schedule: no two of them access memory without synchronisation when one writes, none waits forever or panics, and exit status, diagnostics and output of the run are the same - including when files cannot be read or parsed, packages share dependencies, are ill-typed, or import one another in cycles.",
     ["schedules", "inputs", "programs"], "every schedule of the tasks of a run, for every set of packages with and without mistakes",
     "Tests run on whatever schedule the machine gives them, with few small packages and hardly an error, and a lost error or stale flag shows only under some schedules.",
     ["pkg/loader/loader.go", "pkg/loader/refs.go", "pkg/markers/collect.go"],
     [("files parsed in parallel", "pkg/loader/loader.go (parsePackage)"), ("imports type-checked in parallel", "pkg/loader/loader.go (typeCheck)"), ("per-package lock", "pkg/loader/loader.go (Package.Mutex)")],
     ["data race reports", "exit status", "standard error", "generated files"])
check("C14", "random and few-preemption schedules, nothing else varied, against the run-to-block schedule, and again with the Go race detector under the same scheduler",
      NOTE + "The simulator's own synchronisation is hidden from the race detector, so it sees only the happens-before of the program itself. In race builds only races and abnormal ends are judged.")

prop("C15", "Marker registry and collector are safe for concurrent use",
     "Every call on a marker registry - registering, defining, looking up, listing definitions, adding and reading help - takes effect at one moment between its start and its end, whatever other calls run at the same time, from the first call on: concurrent histories are linearizable, without data races, panics or lost entries. Tasks that collect the markers of parsed packages through one collector at once each get what a single task gets.",
     ["schedules", "histories"], "every concurrent history of calls on one registry, and every schedule of tasks sharing one collector",
     "Tests use registries from one goroutine.",
     ["pkg/markers/reg.go", "pkg/markers/collect.go", "pkg/markers/zip.go"],
     [("registry lock and one-time initialisation", "pkg/markers/reg.go"), ("collector cache and lock", "pkg/markers/collect.go")],
     ["results of calls", "data race reports"])
check("C15", "generated concurrent programs under random schedules, histories checked for linearizability against a map model, and again with the race detector",
      NOTE + "Linearizability is decided by exhaustive search over the orders of each recorded history against a sequential model of the registry.")

prop("C20", "Runs in one process do not influence each other",
     "Several runs made in one process through the Go API - one after the other, concurrently, or twice with the same runtime - each end with the result, diagnostics and output they have alone in a process of their own, whatever other runs do, fail at, or are configured to.",
     ["histories", "schedules", "inputs"], "every sequence and every interleaving of runs over one or several projects, with and without mistakes",
     "Each test makes its own runtime and looks at its own result; state kept in packages or shared through options, or unsynchronised, is not noticed.",
     ["pkg/genall/genall.go", "pkg/genall/options.go", "pkg/crd/gen.go", "pkg/crd/known_types.go", "pkg/loader/loader.go", "pkg/markers"],
     [("runtime with its own collector, checker and outputs", "pkg/genall/genall.go"), ("defaults and marker tables in package variables", "pkg/genall, pkg/crd/markers, pkg/rbac, pkg/webhook")],
     ["error result", "diagnostics", "generated files", "data race reports"])
check("C20", "sequential, repeated and concurrently scheduled runs of one process, against each run in a process of its own, and again with the race detector",
      NOTE + "Each run alone is the reference. Output directories of the runs differ.")

prop("C21", "A CRD does not depend on what the parser was asked before",
     "The CRD of a kind and the flattened schema of a type are the same whatever was asked of the parser before, in whatever order and how often - other types' schemata, flattened schemata, other kinds' CRDs, packages needed early or late. No request changes what an earlier one gave.",
     ["histories", "inputs"], "every history of requests to one parser, for projects whose types are not recursive",
     "Tests ask for one thing on a fresh parser. Schemata are cached and flattened out of shared pieces; a shared piece that is modified shows in what is asked for next.",
     ["pkg/crd/parser.go", "pkg/crd/flatten.go", "pkg/crd/spec.go", "pkg/crd/schema.go"],
     [("schemata made on demand and cached", "pkg/crd/parser.go"), ("copies before modification", "pkg/crd/flatten.go, pkg/crd/spec.go")],
     ["CRDs", "flattened schemata"])
check("C21", "histories of requests and map orders, against a parser that was asked for nothing else",
      NOTE + "The parser asked only for the CRDs is the reference. Recursive types are left out: how far they are unrolled depends on where they are first reached from.")
prop("C19", "Overlapping runs do not disturb each other",
     "Two runs of the tools on one project may overlap in time, as under make -j: the same command twice, or different commands none of whose outputs is an output or manifest input of the other. However their file operations interleave, neither panics or hangs, a run that claims success printed and wrote what it would have printed and written had one run after the other, and a run whose inputs the other does not change does not fail because of it. A run that loads Go code the other is just writing may fail, with a reason.",
     ["schedules", "histories", "inputs"], "every interleaving of the file operations of two runs on one project",
     "Tests run one process at a time. Shared temporary names, lock files, outputs that are appended to, renamed or read back show only when another process acts between two particular operations.",
     ["pkg/genall/output.go", "pkg/genall/genall.go", "pkg/applyconfiguration/gen.go", "pkg/loader/loader.go"],
     [("output files opened and written", "pkg/genall/output.go"), ("temporary header file", "pkg/applyconfiguration/gen.go"), ("inputs read", "pkg/genall/input.go")],
     ["generated files", "exit status", "standard output", "standard error"])
check("C19", "two simulated processes on one file system, switched at file operations by a seeded schedule, against each alone and both orders one after the other",
      NOTE + "The go command counts as one operation. Runs in which one process reads manifests that the other one writes are left out.")

#MORE

prop("N01", "CRD schemata accept exactly the JSON that the Go types describe",
     "The schema generated for a Go type accepts every JSON document the type marshals to and expresses each declared validation.",
     ["inputs", "programs"], "every Go type and marker combination", "The fixtures cover one large example.",
     ["pkg/crd/schema.go", "pkg/crd/markers"], [("type-to-schema mapping", "pkg/crd/schema.go")], ["generated CRDs"])
NA.append({"property": "N01", "reason": "A pure function of the input, with no schedule, clock, fault or interleaving in it once C01 holds; deciding it needs input generation against a schema semantics, not simulation."})
prop("N02", "Deep copies are equal to and share nothing with the original",
     "At run time a generated deep copy is semantically equal to its original and shares no mutable memory with it.",
     ["inputs", "programs"], "every generated type and value", "Tests only compare the text of the generated code.",
     ["pkg/deepcopy/traverse.go"], [("copy strategies per kind of type", "pkg/deepcopy/traverse.go")], ["generated code at run time"])
NA.append({"property": "N02", "reason": "A property of compiled generated code as a pure function of values; nothing for a scheduler or fault injector to decide. That the code compiles and is reproducible is C04."})
prop("N03", "Marker arguments are parsed into the values that were written",
     "Every well-formed marker comment is parsed to the value its author wrote, and every malformed one is rejected.",
     ["inputs"], "every marker text and argument type", "Tests sample the grammar.",
     ["pkg/markers/parse.go"], [("argument parser", "pkg/markers/parse.go")], ["parsed values", "errors"])
NA.append({"property": "N03", "reason": "A pure function of a string; no schedule, clock, I/O or fault is involved. Reporting of the resulting errors under every schedule is part of C08."})
