PW = "crates/tinymist-world/src/"

prop("U01", "Every change of a world's entry, inputs, fonts, packages or files is a revision",
     """The revision of a universe is raised by one when a change made to its entry, inputs, fonts, packages or files ends, and never otherwise; the state changes only in
     such a transaction. With it the changes become visible to new snapshots, together with a fresh view of the disk; changed packages or another workspace root also drop the caches of files read.
     So two snapshots of the same revision are of the same state.""",
     ["histories"], "all sequences of changes of a universe, and all ways a change can end", "A missed revision shows only as a result that is taken for an older one, after one particular sequence of changes.",
     [PW + "world.rs"], [("CompilerUniverse::modify", PW + "world.rs"), ("RevisingUniverse", PW + "world.rs"), ("increment_revision", PW + "world.rs")], ["revision and content of snapshots"], note=STUB)

prop("U02", "A snapshot is of one state, and a fork of it differs only in what was asked for",
     """A snapshot of a universe has its entry, inputs, features, library, fonts, packages, files and revision, and nothing computed before. A world or snapshot made of another for another entry or
     other inputs differs by these alone, and shares no file read under another workspace root. Typst sees the world's own main file, library, fonts, files and the same day throughout, and no request for a day ends the compiler.""",
     ["histories", "inputs"], "all states of universes, entries, inputs and offsets of time", "Tests compile one document; a fork that mixes two states compiles as well.",
     [PW + "world.rs", PW + "snapshot.rs", PW + "compute.rs"], [("CompilerUniverse::snapshot_with", PW + "world.rs"), ("CompilerWorld::task", PW + "world.rs"), ("CompileSnapshot::task", PW + "snapshot.rs"), ("CompilerWorld::today", PW + "world.rs")],
     ["typst::World as the compiler sees it"], note=STUB)

prop("U03", "A snapshot computes each thing once, and tells all of typst's diagnostics",
     """Each task of a computation graph has one cell, is run at most once in it, and everyone who asks gets what it made or what was provided first; a configured task is never computed.
     A document is made exactly if its kind is enabled and there is a main file, from the world of its kind, with typst's errors and warnings except the one that html is experimental. A document is shown
     only if it has no errors, and the diagnostics are all errors and warnings of the enabled kinds, each once.""",
     ["schedules", "configurations"], "all orders in which tasks are asked for, by any threads", "Needs tasks asked for in particular orders, and compile errors of both kinds of documents.",
     [PW + "compute.rs"], [("WorldComputeGraph::compute", PW + "compute.rs"), ("WorldComputeGraph::provide", PW + "compute.rs"), ("CompilationTask::execute", PW + "compute.rs"), ("DiagnosticsTask", PW + "compute.rs")],
     ["documents and diagnostics of a snapshot"], note=STUB)

prop("U04", "A compilation reads each file once, and every file it read is a dependency",
     """A world reads each file and source at most once, and every reader gets what was read. Each file read while compiling, whether it could be read or not, is among the dependencies of
     the compilation (the depended files of its artifact), each once, and nothing read otherwise is. Files taken over by the next world are taken as a whole.""",
     ["schedules", "programs"], "all documents and the files they read, all interleavings of readers", "A forgotten dependency shows only when that file changes, and a preview stays stale.",
     [PW + "source.rs", PW + "world.rs"], [("SourceDb::slot", PW + "source.rs"), ("SourceDb::iter_dependencies_dyn", PW + "source.rs"), ("SourceDb::take_state", PW + "source.rs")], ["iter_dependencies after a compilation"], note=STUB)
