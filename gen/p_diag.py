WD = "crates/tinymist-world/src/"
prop("U05", "Each diagnostic is printed whole, at its place; temporary files are removed",
     """Each diagnostic of a compilation is printed once on the standard error with its severity, message and hints, at the place of its span in the source of the world if it has one, and is followed by each point of its
     trace; only a failing output or source lookup ends this early. Lines, columns and texts are those of the file the span is in, named by its path if it has one. A file shadowed while a function runs
     is shadowed no more afterwards, also if the function fails.""",
     ["inputs", "configurations"], "all diagnostics, traces, hints, files and formats", "No test prints a diagnostic, and a place that is off is still a place.",
     [WD + "system/diag.rs", WD + "world.rs", WD + "lib.rs"], [("print_diagnostics", WD + "system/diag.rs"), ("CodeSpanReportWorld", WD + "world.rs"), ("ShadowApiExt", WD + "lib.rs")],
     ["errors and warnings printed by the command line"], note=STUB)
