"""One entry per claimed property: what it says, and which engine decides it. gen.py writes properties.jsonl and MANIFEST.json from this."""
FLOW_ASSUME = ["programs outside the enumerated families, inputs outside the enumerated domains, unsafe code, interior mutability and side effects of user destructors are not covered",
               "the concrete interpreter of MIR (flowmc/src/interp.rs) is trusted as the meaning of the programs; library calls it models follow their documentation"]
FLOW_RULE = ("every sequence of the family's statements up to the weight bound, times all tails; programs that do not type- or borrow-check are rejected by rustc and not counted; "
             "a program is non-trivial when at least one dynamic dependence or effect was observed in it")
FLOW = "crates/flowistry/src/"
PROPS = {}

def prop(id, title, statement, over, text, why, files, mech, engine, level, technique, note, rule=FLOW_RULE, assumptions=FLOW_ASSUME, replay=None, observe=None):
    PROPS[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, engine=engine, level=level, technique=technique,
                     note=note, rule=rule, assumptions=assumptions, observe=observe or [],
                     replay=replay or "save the quoted prelude and function as x.rs, then: flowmc file %s x.rs" % id)

prop("C01", "Dependencies of a value include everything that can change it",
     "If changing an argument, or what a single instruction computes, writes, or branches to, can change the value a place has at a program point of some execution, then that argument or instruction is among the dependencies the analysis reports for the place at that point. "
     "This holds through references, fields, arrays, boxes, containers, closures, trait objects, calls, loops and nested branches of safe code, and in the bodies of closures, generic and async functions just as well.",
     ["programs", "inputs"], "for all safe programs without interior mutability, all inputs, all program points and all places there; decided for every program of the enumerated families up to the size bound, every input of the bounded domain and every single-point perturbation of every run",
     "The expected-slice tests fix the answer for about 90 hand-written programs; nothing relates the reported dependencies to what programs do when they run, so a dependency missing for another combination of statements goes unseen.",
     [FLOW + "infoflow/analysis.rs", FLOW + "infoflow/mutation.rs", FLOW + "mir/aliases.rs", FLOW + "mir/placeinfo.rs"],
     [("transfer function: data, provenance and control dependencies of each mutation", FLOW + "infoflow/analysis.rs"), ("dependencies of a place = union over its reachable and conflicting places", FLOW + "infoflow/analysis.rs")],
     "flowmc", "model_checking", "exhaustive exploration of concrete executions (all programs x inputs x single-point perturbations within bounds), each compared with the analysis of the real code",
     "bounded-exhaustive: no missing dependency in any program of the families up to the weight bound; trusts the MIR interpreter")
prop("C02", "The forward slice of a change includes everything it affects",
     "If changing an argument, or what one instruction computes, changes what another instruction computes, writes or decides in an execution that leaves the function at the same place, that other instruction is in the forward slice of the changed value. ",
     ["programs", "inputs"], "for all safe programs, inputs and instructions; decided for every program of the enumerated families up to the size bound, every input of the domain and every single-point perturbation of every run",
     "The forward-slice tests cover 9 hand-written programs; whether the superset comparison that computes forward slices loses an affected instruction depends on how aliasing, branches and partial writes combine.",
     [FLOW + "infoflow/dependencies.rs", FLOW + "infoflow/analysis.rs"],
     [("forward dependencies by comparing dependency sets of later mutations with those of the target", FLOW + "infoflow/dependencies.rs")],
     "flowmc", "model_checking", "exhaustive exploration of concrete executions (all programs x inputs x perturbations within bounds), each compared with the forward slices computed by the real code",
     "bounded-exhaustive; values are compared shallowly (what a reference points to is affected where it is written)")
prop("C03", "Every memory cell a dereference can reach is among its reported aliases",
     "Whenever an execution dereferences a reference, the variable or caller-owned memory it then refers to is denoted by one of the aliases the analysis reports for that dereference.",
     ["programs", "inputs"], "for all safe programs, inputs and executed dereferences; decided for every dereference executed by any program of the families on any input of the domain",
     "Five alias unit tests check hand-picked bodies; soundness of the region-based computation is a statement about every way references can be created, moved, stored, reborrowed and returned.",
     [FLOW + "mir/aliases.rs", FLOW + "mir/placeinfo.rs"],
     [("loan sets per region, closed over outlives constraints, queried per place", FLOW + "mir/aliases.rs")],
     "flowmc", "model_checking", "exhaustive exploration of concrete executions; the address of every executed dereference is compared with the aliases computed by the real code",
     "bounded-exhaustive; raw pointers are out of scope")
prop("C04", "Every write of an instruction is covered by a mutation reported for it",
     "Whatever memory of the function or its caller an instruction writes when it executes, including through a called function, is covered by one of the mutations the analysis reports for that instruction. A mutation reported as definite does overwrite its place.",
     ["programs", "inputs"], "for all safe programs, inputs and executed instructions; decided for every instruction executed by any program of the families on any input of the domain",
     "The mutation tests list the mutations of a dozen hand-written bodies; a call may mutate through any combination of references, fields and holders in its arguments.",
     [FLOW + "infoflow/mutation.rs", FLOW + "mir/utils.rs", FLOW + "mir/placeinfo.rs"],
     [("modular approximation of calls from argument types", FLOW + "infoflow/mutation.rs"), ("definite/possible status of a mutation", FLOW + "infoflow/mutation.rs")],
     "flowmc", "model_checking", "exhaustive exploration of concrete executions; every write is compared with the mutations computed by the real code",
     "bounded-exhaustive; raw pointers and interior mutability are out of scope")

ANALYSE_ASSUME = ["programs outside the enumerated families are not covered"]
prop("C05", "What is reported about a function depends on its callees' signatures only",
     "In the default (modular) mode, everything reported about a function - dependencies of every place at every point, forward and backward slices - stays the same when the bodies of the functions it calls are replaced by anything with the same signature.",
     ["programs"], "for all functions and all bodies of their callees; decided for every program of the families that call local functions, against the same program with every callee body replaced by `loop {}`",
     "A test fixes one callee body; that the answer does not read callee bodies (through type inference results, borrowck facts, control flow or caches) is a statement about every callee.",
     [FLOW + "infoflow/analysis.rs", FLOW + "infoflow/mutation.rs", FLOW + "infoflow/recursive.rs"],
     [("calls are approximated from argument and return types", FLOW + "infoflow/mutation.rs"), ("recursion only when asked for", FLOW + "infoflow/analysis.rs")],
     "flowmc", "exploration", "exhaustive enumeration of programs within bounds; the real analysis is run on each program and on its twin with hollow callees, and all answers are compared",
     "bounded-exhaustive over the families; one replacement body (the most different one) per callee", assumptions=ANALYSE_ASSUME,
     rule="every sequence of the family's statements up to the weight bound; an evaluation is one (location, place) answer or one slice; non-trivial = something is reported")
prop("C06", "Coarser evaluation modes report more, never less",
     "A dependency reported in the default mode is also reported when mutability is ignored, when aliasing is conservative, and when both are. Asking for the default mode explicitly changes nothing, and a mode leaves no trace in later analyses.",
     ["programs", "configurations"], "for all programs, places and points, and the four mutability x pointer modes; decided for every program of the families",
     "The mode tests fix one or two programs per mode; the modes switch independent code paths (loan filtering, region constraints) whose combined effect must be monotone on every program.",
     [FLOW + "extensions.rs", FLOW + "mir/aliases.rs", FLOW + "mir/placeinfo.rs", FLOW + "infoflow/analysis.rs"],
     [("ignore-mut loan filter and alias filter", FLOW + "mir/placeinfo.rs"), ("conservative region constraints", FLOW + "mir/aliases.rs")],
     "flowmc", "exploration", "exhaustive enumeration of programs within bounds x evaluation modes; every answer of the real analysis is compared between modes",
     "bounded-exhaustive over the families", assumptions=ANALYSE_ASSUME,
     rule="every sequence of the family's statements up to the weight bound, in every mode; non-trivial = some mode reports strictly more")
prop("C07", "Analysing into callees loses no dependency",
     "In the mode which analyses called functions instead of approximating them by signature, the reported dependencies still include everything that can change a value: C01 holds in that mode too, through callees that overwrite, exchange, return, hide or conditionally write their arguments.",
     ["programs", "inputs"], "for all safe programs and callees, all inputs, points and places; decided for every program of the families that call local functions or closures, every input and single-point perturbation",
     "Two dozen recursion tests compare slices of hand-written programs; translating a callee's places and dependencies into the caller must be right for every signature and every way the callee uses its arguments.",
     [FLOW + "infoflow/recursive.rs"],
     [("translation of callee places into caller places", FLOW + "infoflow/recursive.rs"), ("dependencies of a mutated argument = arguments whose dependencies it includes", FLOW + "infoflow/recursive.rs")],
     "flowmc", "model_checking", "exhaustive exploration of concrete executions (all programs x inputs x single-point perturbations within bounds), each compared with the recursive analysis of the real code",
     "bounded-exhaustive; trusts the MIR interpreter")
prop("C08", "Code over plain values gets nothing beyond the textbook dependencies",
     "On straight-line, branching and looping functions without references and calls, a reported dependency is always justified by a chain of assignments and controlling branches leading from it to the place: the reported set is contained in what an elementary flow-sensitive whole-variable dependence analysis computes.",
     ["programs"], "for all programs over scalars, tuples, structs and enums without references or calls; decided for every program of five families",
     "An over-approximation passes every soundness test; only a bound from above, on every program, notices that slices silently grow.",
     [FLOW + "infoflow/analysis.rs", FLOW + "infoflow/mutation.rs", FLOW + "mir/engine.rs"],
     [("strong updates clear what is overwritten", FLOW + "infoflow/analysis.rs"), ("control dependence of a mutation", FLOW + "infoflow/analysis.rs")],
     "flowmc", "model_checking", "explicit-state fixpoint of an elementary dependence semantics on every program within bounds, compared state by state with the real analysis",
     "bounded-exhaustive over the families; bounds the analysis from above by an independent implementation working from the definition of control dependence", assumptions=ANALYSE_ASSUME,
     rule="every sequence of the family's statements up to the weight bound; a state is a program point, a transition one place compared there; programs using references or calls are counted as outside_fragment")
prop("C09", "Data that never meets is never reported as dependent",
     "If a function handles two groups of variables that share nothing mutable - separate locals, separate fields of one struct, separate lifetimes of one holder or of the parameters, or only a shared read-only reference in common - then nothing of one group is reported among the dependencies of the other.",
     ["programs"], "for all such programs; decided for every interleaving, up to the bound, of the two groups' statements in five families",
     "This is the precision the tool promises (field, lifetime and mutability distinctions); each is tested on one or two programs, but must survive every interleaving of borrows, calls, closures, loops and branches.",
     [FLOW + "mir/aliases.rs", FLOW + "mir/placeinfo.rs", FLOW + "infoflow/mutation.rs", FLOW + "infoflow/analysis.rs"],
     [("lifetimes separate aliases", FLOW + "mir/aliases.rs"), ("immutable references cannot be written through", FLOW + "mir/placeinfo.rs")],
     "flowmc", "exploration", "exhaustive enumeration of all interleavings of two disjoint groups of statements within bounds, checked on the real analysis",
     "bounded-exhaustive over the families", assumptions=ANALYSE_ASSUME,
     rule="every sequence of both groups' statements up to the weight bound; an evaluation is one reported dependency of an observed variable; non-trivial = something of its own group is reported")
prop("C10", "The dataflow engine computes the least solution of the equations",
     "For every control-flow graph and transfer function the engine's state after each reachable instruction equals the least solution of the dataflow equations: entry state at the start, effects applied in order, joins over all predecessors, loops to the fixpoint.",
     ["inputs"], "for all control-flow graphs and distributive or non-distributive effects; decided for all graphs of up to 3 blocks (thorough: 4) with every assignment of four effects to their instructions",
     "The engine replaces rustc's block-level one by an instruction-level work list; no unit test runs it on irreducible, nested or self-looping graphs.",
     [FLOW + "mir/engine.rs"],
     [("instruction-level work list in reverse post-order", FLOW + "mir/engine.rs")],
     "flowmc", "model_checking", "explicit enumeration of all small control-flow graphs and effects; the real engine's solution is compared with a round-robin least fixpoint at every instruction",
     "bounded-exhaustive up to graph size; unreachable blocks and blocks consisting only of a jump to themselves are outside (the front end emits neither)", assumptions=["graphs larger than the bound are not covered"],
     rule="every assignment of terminators and effects to the blocks, all blocks reachable; states = instructions compared, transitions = effect applications by the engine")
prop("C11", "The relations between places obey their laws",
     "Normalisation is idempotent and separates fields. A place is among its own parts; parts extend it without crossing a reference. Conflicts are exactly the parts and the enclosing places up to the innermost reference; distinct variables and distinct fields never conflict. What is reachable mutably is reachable. A place without dereference has only itself as alias; memory passed in is an alias of itself.",
     ["programs", "inputs"], "for all bodies and all places in them; decided for every place (and its parts) mentioned by any program of the families and a set of bodies using most language features",
     "A dozen unit tests evaluate the relations on five bodies; everything else is built on these laws.",
     [FLOW + "mir/placeinfo.rs", FLOW + "mir/aliases.rs", FLOW + "mir/utils.rs"],
     [("children / conflicts / normalize / reachable values", FLOW + "mir/placeinfo.rs")],
     "flowmc", "exploration", "exhaustive enumeration of programs within bounds and of all places and pairs of places in them; the laws are evaluated on the real relations",
     "bounded-exhaustive over the families", assumptions=ANALYSE_ASSUME,
     rule="every place mentioned in a program and its parts, and every pair on the same variable; non-trivial = some place is a part of another")
prop("C12", "The answer about a function does not depend on what was asked before",
     "What is reported about a function is the same whatever other functions were analyzed before it, in whatever order the functions of the crate come, in whatever order its places and points are asked about, and after analyses in other modes.",
     ["histories", "programs"], "for all sequences of queries; decided on every program of the families, in the default and the recursive mode, for: first analysis versus after all others in reverse order, forward versus reverse query order, before versus after an analysis in another mode",
     "Results are cached at several levels (places, loans, borrowck facts, recursion, thread-local modes and body stack); tests start each query from fresh caches.",
     [FLOW + "infoflow/mod.rs", FLOW + "infoflow/recursive.rs", FLOW + "extensions.rs", FLOW + "mir/placeinfo.rs"],
     [("cache of bodies being recursed into", FLOW + "infoflow/recursive.rs"), ("caches keyed by place", FLOW + "mir/placeinfo.rs"), ("thread-local evaluation mode and body stack", FLOW + "infoflow/mod.rs")],
     "flowmc", "exploration", "exhaustive enumeration of programs within bounds, each under opposite histories; all answers of the real analysis compared",
     "bounded-exhaustive over programs; histories: the two opposite crate orders, two query orders and a change of mode", assumptions=ANALYSE_ASSUME,
     rule="every sequence of the family's statements up to the weight bound; an evaluation is one answer compared; non-trivial = something is reported")
prop("C13", "Every query on every well-formed function is answered",
     "Analysing any function that passes the compiler, in any of the eight evaluation modes, and asking for dependencies and slices of any place at any point ends with an answer, never a panic.",
     ["programs", "configurations"], "for all functions; decided for every program of the families and for about ninety functions exercising most of the language (async, generics, trait objects, unions, raw pointers, statics, recursion, diverging functions, closures), in all eight modes",
     "The tests run the default mode on their own programs; a panic on a user's function is a crash of the tool.",
     [FLOW + "infoflow/mod.rs", FLOW + "infoflow/mutation.rs", FLOW + "infoflow/recursive.rs", FLOW + "mir/aliases.rs"],
     [("total match over instructions, types and regions", FLOW + "mir/aliases.rs")],
     "flowmc", "exploration", "exhaustive enumeration of programs within bounds x all eight modes, run on the real analysis",
     "bounded-exhaustive over the families", assumptions=ANALYSE_ASSUME,
     rule="every sequence of the family's statements up to the weight bound, in every mode; an evaluation is one answered query")

IFC = "crates/flowistry_ifc/src/"
IFC_ASSUME = FLOW_ASSUME + ["flows through enums, collections and raw pointers into data whose variable is not of a secure or insecure type are covered only by single programs"]
prop("C14", "The flow checker misses no flow of secure data into insecure data",
     "If changing a value of a type marked Secure - or a part of one, held in a variable, a field or behind a parameter - can change data of a type marked Insecure at any moment of some execution of a function, the checker reports a flow from the one to the other for that function, naming their declarations. "
     "This includes flows through branches, calls and references, values overwritten or cleared afterwards, loops, closures, and functions which never return.",
     ["programs", "inputs"], "for all safe functions and inputs; decided for every program of three families with two-part secrets and sinks, every input and single-point perturbation, and for single programs covering closures, async, formatting macros and divergence",
     "The checker has one example program and no tests; a missed leak is silent by nature.",
     [IFC + "analysis.rs", IFC + "lib.rs"],
     [("secure and insecure places by trait, compared by their dependencies", IFC + "analysis.rs"), ("every body of the crate is visited", IFC + "lib.rs")],
     "flowmc", "model_checking", "exhaustive exploration of concrete executions (all programs x inputs x single-point perturbations within bounds); every flow seen is looked up in what the real checker prints",
     "bounded-exhaustive; trusts the MIR interpreter", assumptions=IFC_ASSUME,
     rule="every sequence of the family's statements up to the weight bound, times all tails; non-trivial = a flow of secure data was seen in executions")
prop("C15", "The flow checker finishes, reports only caused flows, and its verdict agrees",
     "On every crate that compiles the checker finishes and either reports flows or prints that there are no security issues, never both or neither. "
     "A flow is reported only if, according to the dependency analysis, the insecure data depends on an argument or instruction that gives the secure data its value; in particular not for data that is never initialised, or when secure and insecure data merely coexist. What is said about a function does not depend on the other functions of the crate.",
     ["programs"], "for all crates; decided for every program of three families, for crates consisting of the quiet ones, and for single-function crates covering diverging functions, async, closures, generics, traits, constants and macros",
     "There are no tests; false alarms and crashes depend on control flow and types which the one example does not have.",
     [IFC + "analysis.rs", IFC + "lib.rs"],
     [("report loop and spans", IFC + "analysis.rs"), ("verdict over all bodies", IFC + "lib.rs")],
     "flowmc", "exploration", "exhaustive enumeration of programs within bounds; the output of the real checker is compared with the dependencies computed for the program",
     "bounded-exhaustive over the families", assumptions=IFC_ASSUME,
     rule="every sequence of the family's statements up to the weight bound; an evaluation is one reported flow or verdict; non-trivial = something is reported")

IDE = "crates/flowistry_ide/src/"
IDE_ASSUME = ["the position and span utilities of the external rustc_utils crate (Spanner, CharRange) are trusted", "requests run the plugin in-process, through its own argument parser and serialization; the cargo wrapper of rustc_plugin is not run"]
prop("C16", "What focus mode is told to show is what the analysis says",
     "For every selectable span of a function, the answer to a focus request lists exactly the code related to it by the analysis in the requested evaluation mode: the forward and backward slices of everything the span stands for, as non-blank one-line ranges within the function. "
     "The direct influence of a span is in its slice, includes the instructions in the slice which mention the same data, and nothing which has no data in common with it. All parameters and the whole body are in the containers.",
     ["programs", "configurations", "inputs"], "for all functions, spans and modes; decided for every span of every program of all families, in the default and another evaluation mode (thorough: all eight for part of the programs)",
     "The IDE crate has no tests of its own: positions, grouping of spans, union of slices and the evaluation mode given on the command line are unchecked.",
     [IDE + "focus/mod.rs", IDE + "focus/direct_influence.rs", IDE + "plugin.rs", FLOW + "infoflow/dependencies.rs"],
     [("targets grouped by span, slices of each group", IDE + "focus/mod.rs"), ("dependencies to spans", FLOW + "infoflow/dependencies.rs")],
     "flowmc", "exploration", "exhaustive enumeration of programs within bounds and of all spans in each; the plugin's answer is compared with slices computed one target at a time",
     "bounded-exhaustive over the families", assumptions=IDE_ASSUME,
     rule="every sequence of the family's statements up to weight 1 (thorough 2), laid out over several lines; an evaluation is one selectable span in one mode")
prop("C17", "Every cursor position leads to the innermost function around it",
     "The list of functions given for a file is exactly the functions, methods, closures and async functions written in it, and a focus request at any position of the file answers for the innermost of them around that position, or says that there is none (between functions, in constants, in code generated by a macro).",
     ["inputs", "programs"], "for all files and positions; decided for all files of up to two (thorough three) nested or adjacent constructs out of nineteen, in three layouts (one line, several lines, CRLF with tabs), at every position of small files and at all boundaries plus a fixed stride in larger ones, and for crates of three files",
     "The function at a position depends on nesting, macros, tabs, multi-byte characters and line ends; no test asks the IDE crate anything.",
     [IDE + "plugin.rs", IDE + "spans.rs"],
     [("target span and enclosing bodies", IDE + "plugin.rs"), ("spans of a file", IDE + "spans.rs")],
     "flowmc", "exploration", "exhaustive enumeration of files within bounds and of cursor positions in them; each answered by the real plugin and compared with markers in the text",
     "bounded-exhaustive over constructs and positions", assumptions=IDE_ASSUME,
     rule="every forest of at most two (thorough three) constructs; positions: all, or all function boundaries, line ends and every 12th position; non-trivial = some position is inside of a function")
prop("C18", "Every IDE request has exactly one answer, of the right kind",
     "A request prints one decodable answer and nothing else, or nothing at all exactly if the crate does not build. A file which is not part of the crate, and a position outside of functions, are reported as such rather than crashing or being mistaken for a build error; unusable arguments are refused.",
     ["fault_sequences", "configurations"], "for all requests and states of the crate; decided for every combination of request kind and target, sixteen states of the crate's main file (good ones, ten kinds of build failures, absent), presence of its module file, and all eight modes",
     "The extension decides what to tell the user by the kind of the answer; the tests never produce one.",
     [IDE + "plugin.rs", IDE + "spans.rs", IDE + "playground.rs"],
     [("errors separated from build failures, answer encoded once", IDE + "plugin.rs")],
     "flowmc", "exploration", "exhaustive enumeration of requests x crate states x modes, each run on the real plugin with its stdout captured and decoded",
     "exhaustive over the listed requests, states and modes", assumptions=IDE_ASSUME,
     rule="the full product; non-trivial = the request is answered with data")

EXT = "ide/src/"
EXT_ASSUME = ["the environment of the extension (VS Code's documents, editors, events, dialogs and child processes) is a stand-in which follows their documentation: idemc/world.cjs",
              "the backend is a miniature one which keeps the protocol (idemc/model.cjs); the real one is checked by C16-C18", "schedules longer than the bound are not covered"]
EXT_RULE = ("every sequence of the part's user actions, and of completions, failures and dismissals of whatever is pending, up to the depth; each executed on a fresh instance of the real extension, then everything pending is completed in order; "
            "non-trivial = something was highlighted, or an error was indicated, in that schedule")
prop("C19", "What focus mode shows is the slice of the selection in the saved text",
     "Once nothing is pending and focus mode is on, exactly the slice of the current selection (or of the mark of its function) in the current text is highlighted and the rest of the function greyed out. "
     "Nothing stays highlighted in any editor when focus mode is off or when a document has unsaved changes; results which arrive after the text changed or focus mode was switched off are never shown.",
     ["schedules"], "for all orders of toggling, selecting, editing, saving, external changes, switching editors, and completions of pending requests and saves; decided for every such sequence up to depth 5-7 (thorough 6-8) in four settings",
     "The extension's tests need a running VS Code and wait for each request; what happens when the user acts while a request is in flight depends on the order of callbacks.",
     [EXT + "focus.ts", EXT + "decorations.ts", EXT + "range.ts"],
     [("focus mode's state machine and its awaits", EXT + "focus.ts"), ("request to the backend, saving first", EXT + "setup.ts")],
     "idemc", "exploration", "stateless exploration of all schedules of the real extension under a controlled environment, up to a depth",
     "bounded-exhaustive over schedules; trusts the stand-in for VS Code", rule=EXT_RULE, assumptions=EXT_ASSUME, replay="see the schedule in the first line; node idemc/run.cjs explores it")
prop("C20", "The status indicator and the error pane tell the truth",
     "Once nothing is pending, the status bar says whether focus mode is off, active, waiting for a save, failing, or unable to find the file - never that something is loading - and the error pane is open only while focus mode is on and the last attempt failed. "
     "An error does not outlive its cause: after the crate builds again and is saved, or after focus mode is restarted, the analysis is shown. No event handler ever throws.",
     ["schedules", "fault_sequences"], "for all orders of user actions, completions, failures of backend processes (killed, not startable, no answer, half an answer), build errors and analysis errors; decided for every such sequence up to depth 5-7 (thorough 6-8) in four settings",
     "Failures in the middle of a session, and their order relative to what the user does meanwhile, are not reproducible in an editor-driven test.",
     [EXT + "focus.ts", EXT + "errors.ts", EXT + "status_bar.ts", EXT + "setup.ts"],
     [("modes", EXT + "focus.ts"), ("error pane and dialogs", EXT + "errors.ts"), ("status around processes", EXT + "setup.ts")],
     "idemc", "fault_enumeration", "stateless exploration of all schedules of user actions, completions and process faults on the real extension, up to a depth",
     "bounded-exhaustive over schedules and faults; trusts the stand-in for VS Code", rule=EXT_RULE, assumptions=EXT_ASSUME, replay="see the schedule in the first line; node idemc/run.cjs explores it")
prop("C21", "Marks pin the focus of their function until removed, and select selects it",
     "After a mark is set, the slice of the marked selection is shown wherever else in that function the user selects something; other functions are unaffected; removing the mark returns to the current selection; an edit removes all marks. "
     "Selecting the focused region selects exactly the ranges of the slice. Both switch focus mode on when it is off.",
     ["schedules"], "for all orders of marking, unmarking, selecting, moving the cursor, editing, saving, toggling and completions; decided for every such sequence up to depth 6 (thorough 7)",
     "Marks interact with caching per function, edits and requests in flight; the extension's tests set a single mark.",
     [EXT + "focus.ts"], [("mark per function state", EXT + "focus.ts")],
     "idemc", "exploration", "stateless exploration of all schedules of the real extension under a controlled environment, up to a depth",
     "bounded-exhaustive over schedules; a mark command given while something else is pending may be ignored", rule=EXT_RULE, assumptions=EXT_ASSUME, replay="see the schedule in the first line; node idemc/run.cjs explores it")
prop("C22", "A selection stands for its innermost function and its places",
     "The function focused on is the innermost one around the whole selection, whatever the order of the backend's list, line breaks and the direction of the selection; the request names a position in that very function. "
     "Within it the selection stands for the places it covers; if it covers none, for those it touches and the innermost around it. Everything in the containers that is not in the slice is greyed out, and nothing else.",
     ["inputs"], "for all answers of the backend and all selections; decided for all nestings of up to two (thorough three) functions, all laminar sets of up to three places and all slices of up to three (thorough four) ranges over a set of positions with lines and columns beyond ten",
     "Interval search, ordering by size and inversion of ranges are only ever run on the layout of one test project.",
     [EXT + "range.ts", EXT + "decorations.ts", EXT + "focus.ts"], [("search and ordering of ranges", EXT + "range.ts"), ("inversion of ranges", EXT + "decorations.ts"), ("choice of places", EXT + "focus.ts")],
     "idemc", "exploration", "exhaustive enumeration of backend answers and selections within bounds, each run through the real extension",
     "bounded-exhaustive over layouts and selections", assumptions=EXT_ASSUME, rule="every laminar family of intervals over the chosen positions up to the bound, times every selection at and next to those positions; non-trivial = something has to be shown",
     replay="see the case in the first line; node idemc/enum.cjs lookup.cjs runs it")
prop("C23", "Each outcome of a backend request is shown as what it is",
     "However the output of the backend arrives - in any pieces, with noise on stderr - a complete answer is shown and no error. An answer cut short at any byte, garbage, an analysis error, a failing, killed or missing process are each reported as an error of the right kind with its message, once, and only if the user asked; the command for the last error shows it again, and a bug report, with the message in it, is opened exactly if the user wants it. "
     "The next successful attempt clears it. Requests are made in the crate, about the selected position, after the text was saved.",
     ["fault_sequences", "inputs"], "for all outcomes of each of the two requests, made in each of five ways; decided for about thirty kinds of outcome, every split and every truncation of the answer",
     "The tests only have successful runs of the real backend.",
     [EXT + "setup.ts", EXT + "errors.ts", EXT + "focus.ts"], [("decoding of the answer and classification of failures", EXT + "setup.ts"), ("presentation of errors", EXT + "errors.ts")],
     "idemc", "fault_enumeration", "exhaustive enumeration of process outcomes (exit, signal, output split and truncated at every byte) x requests x ways of asking, each run through the real extension",
     "exhaustive over the listed outcomes", assumptions=EXT_ASSUME, rule="the product of outcomes, requests and ways (splits and truncations: in two of the ways on the quick tier); non-trivial = the outcome is a complete answer",
     replay="see the case in the first line; node idemc/enum.cjs outcomes.cjs runs it")
prop("C24", "Activation ends with working commands or a message, in the right crate",
     "Whatever fails on the way - finding or installing the toolchain, downloading the binaries, building them from source, asking for the library path, the first build - activation ends; commands are registered exactly if a backend of the matching version is available, and otherwise the user has been told. "
     "A matching backend is never reinstalled, another one is replaced, building from source is the last resort, and nothing is installed against the user's will. The backend is put where cargo finds it, and runs with its own toolchain, in the outermost directory with a manifest between the workspace folder and the active file.",
     ["fault_sequences", "configurations"], "for all outcomes of all steps and all placements of manifests; decided for the complete tree of outcomes of the ten steps and choices, and all placements up to four (thorough six) directories deep",
     "Installation runs once per machine; no test can make its steps fail.",
     [EXT + "setup.ts", EXT + "download.ts", EXT + "extension.ts"], [("installation and choice of the workspace root", EXT + "setup.ts"), ("download", EXT + "download.ts"), ("registration of commands", EXT + "extension.ts")],
     "idemc", "fault_enumeration", "exhaustive walk of the tree of step outcomes and user choices, and enumeration of directory layouts, each run through the real extension",
     "exhaustive over the listed outcomes and layouts", assumptions=EXT_ASSUME, rule="every path through the tree of outcomes; every placement of manifests; non-trivial = the extension ends up usable",
     replay="see the case in the first line; node idemc/enum.cjs activate.cjs runs it")

prop("C25", "A call is blamed for exactly what functions of its signature can do",
     "Whatever some safe function of the callee's signature can change - at once, through the reference it returns, or later through a reference it leaves behind in its arguments - is reported to be changed there. "
     "Data which no function of the signature can change is not: nothing reached only through shared references is changed by a call, and an access through a reference is no change of data whose lifetime keeps the reference from leading there.",
     ["programs"], "for all signatures; decided for all signatures of one parameter with up to three type constructors (references of two lifetimes and both mutabilities, pairs, options, boxes, structs holding a reference) and of two parameters with three in total (thorough: two each), with and without a returned reference, against every one-line implementation",
     "This is the modular promise of the tool - types alone tell what a call does. The tests call some twenty functions; the promise is about every combination of lifetimes, mutabilities and nesting in a signature.",
     [FLOW + "infoflow/mutation.rs", FLOW + "mir/aliases.rs", FLOW + "mir/placeinfo.rs", FLOW + "mir/utils.rs"],
     [("mutable data reachable from the arguments", FLOW + "infoflow/mutation.rs"), ("loans flowing along lifetimes", FLOW + "mir/aliases.rs")],
     "flowmc", "exploration", "exhaustive enumeration of signatures within bounds and of one-line implementations of each, which rustc accepts or rejects; the real analysis of calls to each signature is compared with what the accepted ones do",
     "bounded-exhaustive over signatures; from above, lifetimes are taken as the only bound on where references lead (mutability of what they lead to is not)", assumptions=["signatures outside the grammar, interior mutability and unsafe code are not covered", "rustc decides which implementations are functions of a signature"],
     rule="every signature of the grammar x every path to write, return or store; an evaluation is one variable or field asked about after a call; non-trivial = it can be changed")
prop("C26", "The editor shows what the backend says, at the same characters",
     "Whatever characters a text has and however its lines end: for every cursor position, and every place the backend knows, the extension asks the backend about that very character, and the real backend's containers, slices, seeds and direct influences are drawn on exactly the characters they are about.",
     ["inputs"], "for all texts, cursor positions and places; decided for all fillings of six gaps of a program - comments, strings, before, within and after the functions - with up to one (thorough two) of five exotic pieces (two-, three- and four-byte characters, combining marks, tabs), with both line endings and with a byte order mark",
     "The extension and the backend are tested apart and on plain text; each counts columns in its own way, and only the pair can be wrong.",
     [EXT + "range.ts", EXT + "focus.ts", EXT + "decorations.ts", "crates/flowistry_ide/src/spans.rs", "crates/flowistry_ide/src/focus/mod.rs", "crates/flowistry_ide/src/plugin.rs"],
     [("conversion of positions in the extension", EXT + "range.ts"), ("positions the backend reports", "crates/flowistry_ide/src/focus/mod.rs"), ("positions the backend is asked about", "crates/flowistry_ide/src/plugin.rs")],
     "idemc", "exploration", "exhaustive enumeration of texts within bounds; the real backend is run on every position of each, and the real extension, served with its answers, on every cursor position and place",
     "bounded-exhaustive over the texts; the backend's answers are taken as what is meant (C10-C12, C17 judge them)", assumptions=EXT_ASSUME[:1] + ["texts outside the enumerated ones are not covered"],
     rule="all fillings within the bound x both line endings x every cursor position and every place; non-trivial = something has to be shown",
     replay="see the text in the first line: flowmc worker C26 0 1 > answers; ANSWERS=answers node idemc/enum.cjs e2e.cjs")
prop("C27", "Commands answer from the files as they are, whatever was asked before",
     "After any history of requests and edits, a request to the command-line tools gets the answer which the files as they are now call for, the same as in a fresh copy of the workspace: no stale answer, none missing, none hidden by another request, option or failure before it. "
     "This holds for every target of a workspace whose crates use each other; a request fails exactly when what it is about does not compile.",
     ["histories"], "for all histories; decided for all sequences of up to three (thorough five) requests and edits, out of eighteen requests - lists of functions, slices with and without options, preloading, checking flows, of library, module, binary, example, test and second crate - and five edits, among them one which does not compile, on a workspace of two crates",
     "The plugin runs inside cargo, which caches what compilers print and write; the tests call the compiler directly, once per text.",
     ["crates/flowistry_ide/src/plugin.rs", "crates/flowistry_ide/src/spans.rs", "crates/flowistry_ifc/src/lib.rs"],
     [("arguments, options and failure of a request", "crates/flowistry_ide/src/plugin.rs"), ("stopping before anything is written, so that cargo asks again", "crates/flowistry_ide/src/spans.rs"), ("going on, so that dependent crates find what they need", "crates/flowistry_ifc/src/lib.rs")],
     "cargomc", "exploration", "exhaustive enumeration of histories up to a depth; each is carried out with the real commands through cargo, and every answer compared with what the texts say and with the answer in a fresh copy",
     "bounded-exhaustive over histories of one workspace; requests do not overlap (cargo locks the directory)", assumptions=["other workspaces, edits and requests than the listed ones, kills in mid-request and several requests at once are not covered", "cargo and rustc_plugin are taken as they are installed"],
     rule="every sequence within the bound; edits which change nothing are left out, and a history does not end with an edit; non-trivial = the request is answered",
     replay="make the workspace of tools/cargomc.py (FILES) and do the steps of the first line in it, with the built commands in PATH")
