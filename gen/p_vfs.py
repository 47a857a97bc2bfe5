VF = "crates/tinymist-vfs/src/"
STUB = """The crate does not build here (typst, rpds and others are not in the cache); it is type-checked against interface stubs of the missing crates in
/verif/stubs, whose bodies are opaque to the analysis. The verdict assumes the real crates have these interfaces and that their maps, cells and locks do what their names say."""

prop("V01", "Reading a file gives the content of the topmost layer that has it",
     """A file shadowed by id has that content, else the content of its resolved path: shadowed by path, else from the last change notified, else from disk; an id without a
     path gives an error. Adding, removing and clearing files of a layer affect exactly those files, a change set applies its removals before its insertions.
     The disk layer reads the whole file, refuses directories and reports every failure for that path, and a reset reaches it through every layer.""",
     ["histories", "inputs"], "all sequences of shadowing and change events, and all ids read after them", "The layers have no tests, and the order matters only for files present in several of them.",
     [VF + x for x in ("lib.rs", "overlay.rs", "notify.rs", "resolve.rs", "system.rs")],
     [("OverlayAccessModel", VF + "overlay.rs"), ("NotifyAccessModel", VF + "notify.rs"), ("SystemAccessModel", VF + "system.rs")], ["content returned by Vfs::read"], note=STUB)

prop("V02", "A changed file is read again in the next revision",
     """Shadowing or unshadowing a path or an id, clearing the shadows and applying a change set make every file that was read under an affected path or id unread, and changed
     in the revision to come. Resetting the cache does so for all files. Whenever anything is made unread, the edit makes a new revision.""",
     ["histories"], "all histories of reads and edits, any number of ids per path", "A missing invalidation shows only for the one file, path or layer concerned, as stale content later on.",
     [VF + "lib.rs"], [("RevisingVfs", VF + "lib.rs")], ["content and revision after an edit"], note=STUB)

prop("V03", "Snapshots are isolated from later edits",
     """An edit works on its own copies of the file and path tables and publishes them in new cells with the next revision, or changes nothing when nothing was invalidated, so a
     snapshot keeps its own. An entry a snapshot may still be reading is not shared with the next revision, as its path would be recorded in the old table. A
     compilation is clean exactly when every file it used is known and unchanged since its revision.""",
     ["schedules", "histories"], "all interleavings of snapshot reads with edits", "Needs a read that is in progress while an edit begins.",
     [VF + "lib.rs"], [("Vfs::revise", VF + "lib.rs"), ("RevisingVfs::drop", VF + "lib.rs")], ["snapshots, later revisions"], note=STUB)

prop("V04", "Within a revision a file is read once, and its source matches its content",
     """Content and source come from the one-time cells of the file's entry, so all readers of a revision see the same. The path a content came from is listed under that path
     alone, before the content is visible. The source is parsed from exactly that content without its byte order mark, or reused for the same file and content, and cached sources are evicted only after being unused for more revisions than the threshold.""",
     ["schedules", "histories"], "all interleavings of readers and all histories of contents", "Depends on cache hits, on order marks and invalid text, and on concurrent readers.",
     [VF + "lib.rs"], [("Vfs::read_content", VF + "lib.rs"), ("Vfs::source", VF + "lib.rs"), ("PathMap::insert", VF + "lib.rs"), ("SourceCache", VF + "lib.rs")], ["bytes and sources read"], note=STUB)

prop("V05", "A file id never resolves to a path outside its root",
     """The path of a file is its virtual path resolved inside the root of its workspace or package; one that would leave the root is refused. Files without a root and untitled files
     have no path. An id that names no known workspace, and a package that cannot be found, give an error.""",
     ["inputs"], "all file ids, including those written by the user in imports", "Ids are attacker-controlled text; only escaping or unknown ones show a defect.",
     [VF + "path_mapper.rs"], [("RootResolver", VF + "path_mapper.rs"), ("WorkspaceResolver::resolve", VF + "path_mapper.rs")], ["paths handed to the access layers"], note=STUB + " VirtualPath::resolve is trusted to refuse paths that leave the root.")

prop("V06", "A workspace root has one id, and an id one root",
     """Every root, clean or not, gets one id for its clean form, and the id's path is that root for ever. The package of an id is named so that parsing it gives the id back, only
     given out numbers are ids, and titled and untitled files differ. Files are created with the id of their root or without any.""",
     ["histories", "schedules"], "all sequences of roots, by any threads", "Needs several roots, or one root spelled in several ways.",
     [VF + "path_mapper.rs"], [("WorkspaceResolver::workspace_id", VF + "path_mapper.rs"), ("WorkspaceId", VF + "path_mapper.rs")], ["file ids, workspace paths"], note=STUB)
