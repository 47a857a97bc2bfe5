PW_ = "crates/tinymist-world/src/"
PJ_ = "crates/tinymist-project/src/"

prop("E01", "An entry is the file it is made of, in its root",
     """An entry made of a root and a path is that path in the workspace of that root; a single file is its name in its directory, whether it is made, selected or read from what is stored. A file outside
     of the workspace, a relative single file and a path without a name are refused. The workspace root of an entry is the one its main file belongs to, the entry's own for a file of a
     package, and it is inactive exactly if it has no file.""",
     ["inputs", "configurations"], "all roots and paths, and all ways to make, select and store an entry", "Entries are made from paths of editors, settings and lock files; a few paths are sampled.",
     [PW_ + "entry.rs"], [("EntryState", PW_ + "entry.rs"), ("EntryOpts", PW_ + "entry.rs"), ("EntryState::try_select_path_in_workspace", PW_ + "entry.rs")],
     ["root and main file of the compiled project"], note=STUB)

prop("E02", "A file is compiled in the root that is configured for it",
     """The root of a file is the configured one, or else the first root of the workspace the file is below, or else the nearest directory above it that has a typst.toml, or else its directory; a
     remembered directory is taken only while it has its typst.toml. The entry of the file is the rest of its path in that root. The default entry and the lock file are those of that root, and
     a root that is not absolute is refused.""",
     ["inputs", "configurations", "histories"], "all files, configured roots, workspaces and directories with or without typst.toml", "Depends on the settings, the workspace folders and the file system around the file.",
     [PJ_ + "entry.rs"], [("EntryResolver::root", PJ_ + "entry.rs"), ("EntryResolver::resolve_with_root", PJ_ + "entry.rs"), ("EntryResolver::resolve_lock", PJ_ + "entry.rs"), ("EntryResolver::resolve_default", PJ_ + "entry.rs")],
     ["root and main file of the compiled project, place of tinymist.lock"], note=STUB + " A file found to have no typst.toml above it is remembered as such until the server is restarted, as the code says itself.")
