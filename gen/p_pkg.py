
PK = "crates/tinymist-package/src/"
FSNOTE = STUB + " A rename within a directory is assumed to be atomic, as on every supported system."

prop("P01", "A package resolves to its directory, and is downloaded only if it is missing",
     """A package resolves to the directory namespace/name/version below the data directory if that exists, else below the cache directory if that exists or exists after a
     download; otherwise it is not found. Only packages of the preview namespace that are in neither directory are downloaded, into their directory in the cache, and a failed
     download is the failure reported. The directories are the ones configured, else the platform's own.""",
     ["configurations", "inputs", "histories"], "all package specs, directory configurations and states of the two directories", "The crate's tests need the network or are ignored; what is found depends on files of the machine.",
     [PK + "registry/http.rs"], [("PackageStorage::prepare_package", PK + "registry/http.rs"), ("HttpRegistry::storage", PK + "registry/http.rs")], ["path or error of resolve"], note=STUB)

prop("P02", "A package directory is seen only when the package is complete",
     """A download is unpacked next to the package's directory, in a hidden directory that no other download uses, and moved in place after everything was unpacked, so no crash, failure
     or other reader ever sees a part of a package under its name. A download succeeds only if the package is in place; a missing package, a failed request, a bad archive and
     a request that cannot be made are each reported as such.""",
     ["crash_points", "schedules", "fault_sequences"], "all failures of request, unpacking and moving, stops in between, and concurrent downloads", "Needs a crash or a second process in the middle of a download.",
     [PK + "registry/http.rs"], [("PackageStorage::download_package", PK + "registry/http.rs"), ("threaded_http", PK + "registry/http.rs")], ["package directory, result of the download"], note=FSNOTE)

prop("P03", "Copying a pack copies every file whole, and only inside of the target",
     """A directory, map or archive pack gives each of its files once, under its full name and with its own content, except those its filter refuses and entries below hidden
     directories. Copying it into another pack keeps all of the content under the same name and fails with the first failure. Files are created only at names that stay inside of the target directory.""",
     ["inputs", "fault_sequences"], "all packs, including archives made to escape, and all failures while copying", "Archives are untrusted; long names, `..` parts and failures in the middle are not sampled.",
     [PK + "pack/fs.rs", PK + "pack/memory.rs", PK + "pack/tarball.rs", PK + "pack/ops.rs"],
     [("DirPack::clone_into_pack", PK + "pack/fs.rs"), ("FilterDirPack::read_all", PK + "pack/fs.rs"), ("TarballPack::read_all", PK + "pack/tarball.rs"), ("MapPack", PK + "pack/memory.rs"), ("FilterPack", PK + "pack/ops.rs")], ["files created, listing"], note=STUB)

prop("P04", "The newest version of a package is the largest its index or directory names",
     """The newest version of a preview package is the largest among all index entries with exactly its name, of another one the largest among the entries of the data directory's namespace/name whose
     names are versions; with none, the request fails. The index is fetched at most once, from the registry's index, and lists exactly the packages of the answer, each with its own name, version and
     description in the preview namespace; a failed or unreadable answer makes it empty, never a panic. The registry lists this index, and the cached index only what was fetched before.""",
     ["configurations", "inputs", "fault_sequences"], "all package names, indices, directory contents and failed requests", "The index needs the network, and the directory depends on the machine.",
     [PK + "registry/http.rs"], [("PackageStorage::determine_latest_version", PK + "registry/http.rs"), ("PackageStorage::download_index", PK + "registry/http.rs"), ("PackageRegistry for HttpRegistry", PK + "registry/http.rs"), ("PackageStorage::cached_index", PK + "registry/http.rs")],
     ["version chosen, list of packages"], note=STUB)
