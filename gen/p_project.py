PJ = "crates/tinymist-project/src/"
JNOTE = STUB + " The operating system's watcher is assumed to report changes of the files it was told to watch."

prop("J01", "Every lasting change of a watched file is reported, as what was read last",
     """When a watched file is read again, what was read is reported, unless it is what was reported last or it is empty or an error right after a change, in which case it is
     kept and reported by a recheck shortly after. Rechecks report only the content that was kept for them, and an outdated recheck changes nothing. What the actor takes as
     known content is exactly what was reported last, so removals, truncations and rewrites with the old content are all told in the end.""",
     ["histories", "schedules", "fault_sequences"], "all histories of changes, failures and rechecks of a file", "Needs a file watcher and a particular order of file events and timers.",
     [PJ + "watch.rs"], [("NotifyActor::notify_entry_update", PJ + "watch.rs"), ("NotifyActor::recheck_notify_event", PJ + "watch.rs"), ("UndeterminedNotifyEvent", PJ + "watch.rs")], ["FilesystemEvent sent to the consumer"], note=JNOTE)

prop("J02", "The files watched are exactly those the projects depend on",
     """After each synchronization of dependencies every file some project depends on has an entry, is watched if it exists, and was read again once, with what changed reported.
     A file no project depends on is unwatched, its entry dropped after some synchronizations. A file replaced on disk is watched again before it is read, so that its later changes are seen.""",
     ["histories", "schedules"], "all sequences of dependency sets, file events and failures to watch", "Needs an operating system's watcher and files that are replaced.",
     [PJ + "watch.rs"], [("NotifyActor::update_watches", PJ + "watch.rs"), ("NotifyActor::notify_event", PJ + "watch.rs"), ("NotifyActor::run", PJ + "watch.rs")], ["watch and unwatch calls, FilesystemEvent"], note=JNOTE)

prop("J03", "Edits and file changes are applied completely and in the order they were made",
     """A change of edited files is applied at once to every project, unless some file goes back from memory to disk or an earlier change is still under way, in which case it takes
     the way through the file watcher and comes back together with the content on disk. Whatever comes back is applied to every project, the edits before the files. Edits made meanwhile
     are never overtaken or dropped.""",
     ["schedules", "histories"], "all interleavings of edits, saves and closings with file events", "Needs a particular interleaving of the editor's and the watcher's messages.",
     [PJ + "compiler.rs", "crates/tinymist-vfs/src/notify.rs"], [("ProjectCompiler::process_inner", PJ + "compiler.rs"), ("apply_delayed_memory_changes", PJ + "compiler.rs")], ["vfs content of each project"], note=STUB)

prop("J04", "The latest compilation wins, also across removal and restart of projects",
     """The result of a compilation is taken over only if it is of a later revision than the one taken over before; with it come its document and the set of all files it read,
     which is watched from then on. Interrupts reach only the project they name, and none if it was removed. A project that takes the place of another starts from the primary's state, with a
     reason to compile, and never takes over a compilation of the one removed.""",
     ["schedules", "histories"], "all orders in which compilations end, and projects are removed and replaced", "Compilations end in any order on other threads; tests run one at a time.",
     [PJ + "compiler.rs"], [("ProjectInsState::process_compile", PJ + "compiler.rs"), ("ProjectCompiler::process_inner", PJ + "compiler.rs"), ("ProjectCompiler::remove_dedicates", PJ + "compiler.rs"), ("ProjectCompiler::restart_dedicate", PJ + "compiler.rs"), ("ProjectInsState::run_compile", PJ + "compiler.rs")],
     ["latest document, dependencies watched, compile handler calls"], note=STUB)

prop("J05", "Every change leads to a compilation of the state after it, for its reason",
     """A project whose files, fonts, inputs or entry change has a reason to compile afterwards, named after what changed, and keeps all reasons it had. It compiles exactly if it has a reason and
     a file to compile; what is compiled is a snapshot of its present revision that carries the reasons, which are taken only then. A change of the task sets the inputs and entry given, and forgets
     the document of the former entry.""",
     ["histories", "schedules"], "all sequences of interrupts between compilations", "A lost reason shows only as a preview that stays stale after one particular sequence of changes.",
     [PJ + "compiler.rs"], [("ProjectCompiler::process_inner", PJ + "compiler.rs"), ("ProjectInsState::may_compile", PJ + "compiler.rs"), ("ProjectInsState::snapshot", PJ + "compiler.rs"), ("CompileReasons", PJ + "compiler.rs")],
     ["compilations started, signals of snapshots"], note=STUB)

prop("J06", "The lock file is changed as a whole, under its lock, and keeps what is in it",
     """A change of the lock file is made on what it has, while it is locked, and is written only if no step failed and the text differs; afterwards the file has exactly the new text, which starts
     with its version and has every document, task and route. A document or task takes the place of the one with its id, a route the last place, and updates are carried out in order. Paths in it are
     read as the places they were stored for, and a lock file of another version is left alone.""",
     ["histories", "fault_sequences", "inputs"], "all lock files, all failures of a step, and all sequences of updates", "A lost entry shows only when the lock file already had one, and a step fails or another tool wrote it.",
     [PJ + "lock.rs", PJ + "model.rs", "crates/tinymist-task/src/primitives.rs"], [("LockFile::update", PJ + "lock.rs"), ("LockFile::serialize_resolve", PJ + "lock.rs"), ("LockFileUpdate::commit", PJ + "lock.rs"), ("ResourcePath", "crates/tinymist-task/src/primitives.rs")],
     ["contents of tinymist.lock, files of the project cache"], note=STUB + " That the file system locks, cuts and writes as told is assumed (the locks themselves: S-checks); a crash between cutting and writing loses the file, as the code says itself.")

prop("J07", "What is stored is read again as it was",
     """Each field and variant of a stored type is read by the one name it is stored under, and is stored in a form of its own, or in the place of its parent, exactly if it is read so. A field is
     left out only on the value it is read as when it is missing.""",
     ["inputs", "programs"], "all values of the types that are both stored and read", "A field that is not read again shows only on the values that are left out, and in files of an earlier run.",
     [PJ + "model.rs", "crates/tinymist-task/src/model.rs", "crates/tinymist-world/src/entry.rs", "crates/tinymist-world/src/config.rs", "crates/sync-lsp/src/lsp.rs"],
     [("ProjectInput", PJ + "model.rs"), ("ExportTask", "crates/tinymist-task/src/model.rs"), ("EntryOpts", "crates/tinymist-world/src/entry.rs"), ("CompileOpts", "crates/tinymist-world/src/config.rs")],
     ["JSON and TOML of lock files, materials, settings and messages"], technique="dataflow over the derived serializers and deserializers in the compiler's intermediate representation", note=STUB + " Untagged types and those with a tag and a content field are not compared field by field; the serde library is assumed.")
