SF = "crates/tinymist-std/src/fs/paths.rs"
FL = "crates/tinymist-std/src/fs/flock.rs"
NOEDGE = "needs fault injection or a crash at one particular step; the tests write one small file that succeeds"
prop("S01", "Atomic file replacement",
     """Replacing a file's text atomically is all or nothing: the complete new text goes to a fresh temporary file in the target's
     own directory, which gets an existing target's permission bits and only then, if every step succeeded, is renamed over the
     target as the last step. At no moment before that rename is the target touched, so a crash or failure leaves the old file.
     The reported outcome is the outcome of these steps.""",
     ["inputs", "crash_points", "fault_sequences"], "all targets, contents and failures of any file-system step, a crash between any two steps", NOEDGE,
     [SF], [("write_atomic", SF)], ["file-system calls", "returned result"])
prop("S02", "File helpers do exactly what they say and report failures",
     """Writing a file only if it changed leaves a file that already holds the text untouched and otherwise leaves exactly the new
     text; appending adds the bytes at the end and loses nothing; reading text returns the file's text only when it is valid UTF-8.
     Every other file helper (metadata, read, write, create, open, create or remove directory, copy) performs exactly that one
     operation on exactly the given paths. Every failing step is reported as an error, never swallowed.""",
     ["inputs", "fault_sequences"], "all paths, contents and failures of any step", "The tests exercise success on one small file only.",
     [SF], [("helpers", SF)], ["file-system calls", "returned result"])
prop("S03", "Recursive removal stays inside the directory and never follows links",
     """Removing a directory tree removes a symbolic link itself (never what it points to), recurses only into real directories,
     and touches nothing but the given path and entries read from it. A failing file removal is retried only after making a
     read-only file writable, and success is reported only if everything was removed. Removing a lock file's siblings removes
     every other entry of its directory but never the lock file itself.""",
     ["inputs", "fault_sequences"], "all directory trees (including links to directories and read-only files) and failures of any step", "No test removes a tree with links in it, and an escape destroys data outside the tree.",
     [SF, FL], [("_remove_dir_all / remove_file", SF), ("remove_siblings", FL)], ["file-system calls", "returned result"])
prop("S04", "Link-or-copy produces the destination without losing the source",
     """Linking a source to a destination touches nothing when both are the same file; otherwise an existing destination (also a
     dangling link) is removed before linking, directories are linked symbolically (relatively when the source lies in the
     destination's directory), files are linked hard, and when hard linking fails the source is copied to the destination. The
     source is never removed or overwritten. Success is reported only if the last linking or copying step succeeded.""",
     ["inputs", "fault_sequences"], "all pairs of paths (same file, links, directories) and failures of any step", "No test links anything.",
     [SF], [("_link_or_copy", SF)], ["file-system calls", "returned result"])
prop("S05", "Cache directories appear only complete",
     """Creating a directory excluded from backups leaves an existing directory alone; otherwise the directory appears under its
     name only by renaming a fresh temporary directory of the same parent that already carries the cache-directory tag file with
     its signature. A failed rename counts as success only if the path exists afterwards, and other failures are reported. A
     helper that runs an action in a temporary directory runs it once on a fresh directory in the given parent, returns the
     action's outcome, and removes the directory afterwards.""",
     ["inputs", "crash_points", "schedules"], "all paths, failures of any step, concurrent creation, a crash between any two steps", NOEDGE,
     [SF], [("create_dir_all_excluded_from_backups_atomic, temp_dir_in", SF)], ["file-system calls", "returned result"])
prop("S06", "File locks exclude each other and are released",
     """A file lock is handed out only after the operating system granted the lock of the requested kind (exclusive or shared) on
     the very file the handle owns, unless the file is on NFS or its file system does not support locking. A lock held elsewhere is
     waited for by the blocking openers and yields nothing at once from the trying ones, while any other failure is an error. The
     locked file lies at the requested path under the root, is opened without truncating it (creating it and a missing parent
     directory only in the creating variants), is what reads, writes and seeks act on, and dropping the handle unlocks it exactly once.""",
     ["inputs", "schedules", "fault_sequences"], "all competing lock holders, all errno values, all five opening variants", "Needs a second lock holder or an injected errno; no test takes a lock.",
     [FL], [("Filesystem::open_*, try_acquire, sys", FL)], ["flock/open calls", "returned handle"])
HS = "crates/tinymist-std/src/hash.rs"
FM = "crates/tinymist-std/src/adt/fmap.rs"
QR = "crates/tinymist-std/src/concepts/query.rs"
prop("S07", "Fingerprints survive every change of representation",
     """Converting a fingerprint to a 128-bit number, a pair of words or text and back yields the same fingerprint, for every
     fingerprint; its text is the given prefix, the base64 of the low word and, unless the high word is zero, the base64 of the high
     word without its trailing zero bytes. Parsing splits the text after the low word's eleven characters and refuses everything that is not
     such a text with an error, never a panic. Fingerprints are equal exactly if both words are.""",
     ["inputs"], "all 2^128 fingerprints and all strings (also empty, cut inside a character, too long, not base64)", "Tests convert a few fingerprints; which of 2^128 lose bytes or which string panics is not sampled.",
     [HS], [("Fingerprint", HS)], ["returned value", "absence of panics"])
prop("S08", "Hashes cover the type and the whole value; conflicts never go unnoticed",
     """An item's hash covers the item's type and then the item; a plain hash exactly the value; each in a fresh hasher, so equal items
     hash equally whatever was hashed before. The fingerprint hasher keeps every byte in order and both words of a fingerprint come
     from one 128-bit hash of exactly these bytes. A checked fingerprint is returned only when it is new (then its bytes are remembered) or the
     same bytes are already remembered under it; a value stored with a hash hashes as that hash.""",
     ["inputs", "histories"], "all items and types, all sequences of fingerprinted items, colliding or not", "Collisions and type confusion do not occur in tests that hash a handful of items.",
     [HS], [("FingerprintBuilder::resolve, item_hash128, HashedTrait", HS)], ["returned hash", "remembered bytes"])
prop("S09", "The sharded map puts and finds every fingerprint in one shard",
     """A map created with any shard size has a power of two of at least one and at most 512 shards, and never panics or overflows. Every
     fingerprint is routed, by itself alone, to one shard inside the map; looking a fingerprint up goes to the very shard it is inserted in,
     and taking the items out yields the items of all shards.""",
     ["inputs", "configurations"], "all shard sizes up to the largest number, all fingerprints", "Tests use the default size only, while a wrong mask or shift loses items only for some fingerprints.",
     [FM], [("FingerprintMap", FM)], ["shard count", "shard index", "items"])
prop("S10", "A query is computed at most once and all readers see that result",
     """Reading a query runs its computation only inside the one-time initialisation of its cell, so at most once however many threads ask,
     and what the computation returns (a value or an error) is what every reader gets. The computation of a query with a
     context gets exactly that context, which is then gone. A query made from a value is already computed; the others are not.""",
     ["schedules", "histories"], "all interleavings of concurrent readers, all successes and failures of the computation", "A second computation or a torn result needs racing readers; tests call it from one thread.",
     [QR], [("QueryRef::compute, compute_with_context", QR)], ["runs of the computation", "returned result"])
PA = "crates/tinymist-std/src/path.rs"
prop("S11", "Path operations keep the path's meaning",
     """Writing a path with forward slashes keeps every component in order: names and '..' are separated by one slash, the root is
     written as a slash, '.' is dropped, and an empty result is '.'. The relative path between two paths is computed from the first
     to the second, both with '.' and '..' resolved first; normalizing pushes names, pops at '..' and ignores '.', and stripping a
     base compares canonical paths. Walking up from a path yields it and each parent, ending after the stop directory; a bare
     executable name is the first file of that name along PATH and any other name is itself.""",
     ["inputs", "configurations"], "all sequences of path components, all environments", "Tests list a few dozen paths; a separator lost after one particular sequence of components is not among them.",
     [PA, SF], [("unix_slash, diff", PA), ("normalize_path, PathAncestors, resolve_executable", SF)], ["returned path"])
ER = "crates/tinymist-std/src/error.rs"
prop("S12", "Wrappers and conversions keep the value",
     """Taking the value out of a shared pointer moves it when no one else holds the pointer and copies it otherwise; an owned-or-borrowed
     handle reads and writes exactly the value it holds. Bytes written as base64 text are read back unchanged, and text that is not such is an
     error. A time stamp or system time becomes the date of exactly that moment, and one outside the range of dates becomes no date, never a panic.""",
     ["inputs"], "all values, all numbers of pointer owners, all time stamps and system times including those far from today", "Tests never reach the edges of the date range and take values with one owner.",
     ["crates/tinymist-std/src/concepts/takable.rs", "crates/tinymist-std/src/concepts/cow_mut.rs", "crates/tinymist-std/src/concepts/marker.rs", "crates/tinymist-std/src/time.rs"],
     [("TakeAs", "crates/tinymist-std/src/concepts/takable.rs"), ("ToUtcDateTime", "crates/tinymist-std/src/time.rs")], ["returned value", "absence of panics"])
prop("S13", "Errors keep their location, message and arguments",
     """Adding context to a result leaves a success untouched (without computing the arguments) and turns a failure into an error that carries
     the given location, the failure's whole text or the failure itself, and the given arguments; the mapping functions and conversions do the same. An error
     prints its location, message and arguments, leaves out only what it does not have, and never prints nothing. Logging a failure
     yields a success's value and logs the message together with the error, at error level.""",
     ["inputs"], "all errors: every kind with and without location, message and arguments, every conversion", "Tests build no error with arguments or without a location, so a lost part of a message is not seen.",
     [ER], [("Error, WithContext, IgnoreLogging, prelude", ER)], ["returned error", "printed text"])
