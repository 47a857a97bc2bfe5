FW = "crates/tinymist-world/src/font/"
prop("F01", "Every configured font is found once: given paths, then system, then embedded",
     """Each given path is searched once, as a directory if it is one and else as a file, then the system's fonts unless they are turned off, then all embedded ones, in this order; an unreadable path
     stops nothing. Each face of each file or data whose information can be read is added once, after those before it, with this information and a slot that loads just this face. Given paths are recorded
     as absolute ones; no font file makes a search panic.""",
     ["inputs", "configurations"], "all font paths, font files, collections and settings", "The only test looks for the machine's fonts and checks nothing about them.",
     [FW + "system.rs", FW + "memory.rs"], [("SystemFontSearcher::resolve_opts", FW + "system.rs"), ("SystemFontSearcher::flush", FW + "system.rs"), ("MemoryFontSearcher::extend_bytes", FW + "memory.rs")],
     ["fonts of a compilation, tinymist font listing"], note=STUB)

prop("F02", "A font index means one face in the book, the slots and the loaded fonts",
     """The book and the slots of a font resolver are made of the same fonts in the same order, and every answer by index (slot, font, listing, description, shared or not) is that of the font the book has there.
     A slot loads at most once and always gives what that gave: the face at its index of exactly its own data, or nothing if it cannot be read. The source told for a font is that of the slot holding it.""",
     ["inputs", "schedules", "histories"], "all resolvers, indices, fonts and orders of loading", "A book and slots out of step show only as wrong glyphs in documents using several fonts.",
     [FW + "resolver.rs", FW + "slot.rs", FW + "loader.rs", FW + "memory.rs"], [("FontResolverImpl", FW + "resolver.rs"), ("FontSlot::get_or_init", FW + "slot.rs"), ("FontLoader::load", FW + "loader.rs"), ("MemoryFontSearcher::build", FW + "memory.rs")],
     ["glyphs of a document, font listing, data source of a font"], note=STUB)
