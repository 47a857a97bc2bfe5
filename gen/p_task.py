PT = "crates/tinymist-task/src/"

prop("T01", "A task runs for exactly the changes its timing names",
     """Whether an export or another task is run after a compilation depends on its timing and on why the revision was made alone: never is never; on typing is for changes in memory,
     on saving for changes on disk, with a title for changes on disk while the document has a title; and whatever has a timing is run when the entry changed.
     A reason is not lost when revisions are merged, and without a document the question about a title stays open.""",
     ["histories", "configurations"], "all timings, sets of reasons and documents", "Each timing has to be crossed with each reason; the tests have none of it.",
     [PW + "snapshot.rs", PT + "model.rs"], [("ExportSignal::should_run_task", PW + "snapshot.rs"), ("ExportSignal::merge", PW + "snapshot.rs"), ("ProjectTask::when", PT + "model.rs")], ["whether an export is made"], note=STUB)

prop("T02", "An export is written where its pattern says, and never for a file of a package",
     """The output of a task is a pattern in which the root, the directory and the name of the main file are filled in, as often as they occur; without a pattern it is beside the main file.
     There is no output without a root or main file, for a file of a package, or for a path outside the root, and an untitled file is written to the directory for temporary files.
     The extension is that of the format.""",
     ["inputs", "configurations"], "all patterns, roots and main files", "An unusual pattern or main file writes over files at a place nobody asked for.",
     [PT + "primitives.rs", PT + "model.rs"], [("PathPattern::substitute", PT + "primitives.rs"), ("ProjectTask::extension", PT + "model.rs")], ["path of an exported file"], note=STUB)

prop("T03", "An export has the pages, the gap, the resolution and the standards asked for",
     """A page range is read as it was written, and refused if it is empty, has no numbers or is the wrong way around. A picture is of the first page alone if only this one is asked for, and otherwise of all pages with the gap
     of the last merge; its resolution and fill, and the time and standards of a pdf, are those asked for, and equal settings hash alike. What cannot be read or drawn is an error of the export.""",
     ["inputs", "configurations"], "all page ranges, lengths, transforms and export settings, and all documents", "The combination of settings is large, and a wrong page or gap is still a picture.",
     [PT + "primitives.rs", PT + "compute.rs", PT + "compute/pdf.rs"], [("Pages", PT + "primitives.rs"), ("get_page_selection", PT + "compute.rs"), ("PngExport", PT + "compute.rs"), ("PdfExport", PT + "compute/pdf.rs")],
     ["exported pictures and pdf files"], note=STUB)

prop("T04", "A query answers with all that was found, and a text export has all text once",
     """A query gives, of each element its selector finds in the document, the field asked for or the whole, in order and in the format asked for; if one is asked for it gives exactly that, and an error if there is another number of them.
     The text of a document is every text in it once, in reading order, and nothing else.
     An error on the way ends it with that error.""",
     ["inputs", "programs"], "all documents, selectors and formats", "Documents nest without a bound; a lost text needs one particular nesting.",
     [PT + "compute.rs", PT + "compute/text.rs"], [("DocumentQuery", PT + "compute.rs"), ("serialize", PT + "compute.rs"), ("FullTextDigest", PT + "compute/text.rs")], ["answer of a query", "text of a document"], note=STUB)
