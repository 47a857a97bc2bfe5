prop("A01", "A compile command line makes the document and task it describes",
     """The task of a compile command exports in the given format, else in that of the output file's extension in any letter case, else PDF (another extension is refused), to the given output path,
     at the given time (else never), with exactly the given pages, PDF standards and PPI, under the given task name, else the document's id. The declared document has the given name, else its
     path as id, and exactly the given main file, root, font paths, system font setting and package paths. An `--input` is split at its first '=', both sides trimmed, refused without '=' or key;
     no argument makes it panic.""",
     ["inputs", "configurations"], "all argument values and combinations", "The command line is not exercised by any unit test, and its arguments combine freely.",
     [PJ_ + "args.rs", PW_ + "args.rs"], [("TaskCompileArgs::to_task", PJ_ + "args.rs"), ("DocNewArgs::to_input", PJ_ + "args.rs"), ("parse_input_pair", PW_ + "args.rs")],
     ["the exported file, the document and task entries of tinymist.lock"], note=STUB)

prop("A02", "Compile arguments become a world with that main file, root and inputs",
     """The main file of a compilation is the given one, relative to the current directory (of a stored document: to the lock file), in the given root, else in the main file's directory (the lock
     file's); a file outside of the root or a missing file argument is refused. The universe is made of exactly that entry and the given inputs, features, fonts, certificate and package paths, each of
     them passed on whole, and the embedded fonts. It is refused only if one of these steps fails.""",
     ["inputs", "configurations"], "all arguments and stored documents", "Depends on the current directory, the stored project and every combination of arguments.",
     [PJ_ + "lsp.rs", PW_ + "args.rs", PW_ + "system.rs"], [("WorldProvider for CompileOnceArgs", PJ_ + "lsp.rs"), ("WorldProvider for (ProjectInput, ImmutPath)", PJ_ + "lsp.rs"), ("LspUniverseBuilder", PJ_ + "lsp.rs"), ("CompileOnceArgs::resolve_inputs", PW_ + "args.rs")],
     ["root, main file, sys.inputs, fonts and packages of the compilation"], note=STUB)
