LN = "crates/tinymist-l10n/src/lib.rs"
LB = "crates/tinymist-l10n/src/main.rs"
prop("N01", "A translated message keeps its text and fills in every argument",
     """A message is its key's text in the current locale, or the given English text when there is no locale or no translation.
     A message without arguments is that text unchanged. With arguments the text is copied in order, character by character, except
     that each '{name}' whose name is a passed argument becomes that argument's text; any other brace is kept as it is, and nothing before or after a placeholder is lost.""",
     ["inputs"], "all message texts (several, adjacent, unknown, unclosed placeholders, non-ASCII) and all arguments", "The crate has no test of formatting; which text around which placeholder is lost depends on the text.",
     [LN], [("t_with_args, t_without_args, find_message", LN)], ["returned text"])
prop("N02", "Setting the locale picks that language or leaves the locale alone",
     """Translations are set once and a later attempt changes nothing. Setting a locale selects, ignoring the locale's case, the
     translations of exactly that locale, else those of the language it is a regional variant of (the language followed by a hyphen); when there are none
     the current locale stays and the caller is told.""",
     ["inputs", "histories"], "all locale names and catalogs, all sequences of settings", "No test sets a locale; prefixes of language names and repeated settings are not sampled.",
     [LN], [("set_locale, set_translations", LN)], ["selected translations", "returned result"])
prop("N03", "Translation files are read, updated and written without losing a text",
     """Reading a translation file skips blank lines and comments, takes '[key]' lines as keys and 'language = text' lines as texts, and
     reports any other line as an error; quoted texts are unescaped on loading. Updating keeps exactly the used keys, replaces each one's English text and keeps
     all its other languages. Writing gives every key in order with the English text first and the other languages in order, and a file that
     exists but cannot be read or understood is never overwritten.""",
     ["inputs", "fault_sequences"], "all translation files and sets of used keys, failing reads", "The update destroys translators' work when wrong; no test runs it, least of all on a malformed or unreadable file.",
     [LN], [("deserialize, load_translations, update_translations, serialize_translations, update_disk_translations", LN)], ["returned map or text", "written file"])
prop("N04", "The message extractor finds every translatable message and nothing else",
     """The extractor searches every file with the kind's extension below the directory. In Rust it reports the key and English text of each
     tinymist_l10n t! or bail! call, and in TypeScript the text of each l10nMsg call, if the next thing after
     optional blanks is the argument list starting with the literals; nothing else is reported. A literal ends at its first unescaped quote.""",
     ["inputs", "programs"], "all source files: blanks, line breaks, escapes, non-ASCII text, incomplete calls", "No test runs the extractor; a missed call silently deletes its translations at the next update.",
     [LB], [("main, check_calls, parse_char, parse_str", LB)], ["list of messages", "output file"])
prop("N05", "Catalogs agree with the places that use them",
     """Every message a call site asks for is in the catalog under its key, with the call's own English text as the English translation.
     Every placeholder of every translation names an argument the call site passes. Every text the extension's manifest refers to has at least an English
     text, and no catalog gives a key or a language of a key twice.""",
     ["programs", "configurations"], "all call sites in the Rust and TypeScript sources, all keys and languages of the three catalogs", "The call sites sit in crates that are not built here and only show when the warning appears in that language.",
     ["locales/tinymist-rt.toml", "locales/tinymist-vscode-rt.toml", "locales/tinymist-vscode.toml", "editors/vscode/package.json", "crates/tinymist/src/config.rs", "crates/tinymist-query/src/code_lens.rs", "crates/tinymist-project/src/entry.rs"],
     [("t!/bail! call sites", "crates"), ("l10nMsg call sites", "editors/vscode/src")], ["displayed messages"],
     technique="syntax-tree query over all Rust (own lexer and token trees) and TypeScript (compiler API) sources, joined with the catalogs", note="every call site and catalog entry of the current tree, up to the lexical recognition of calls")
DV = "crates/tinymist-derive/src/lib.rs"
prop("D01", "The derived type context forwards to the bound member",
     """For every struct, deriving the type context implements exactly the trait's two methods, each forwarding all its
     arguments in order to the same method of the bound member. The bound member is the expression of the first bind attribute, or the field tyctx when
     there is none. The implementation is for the struct itself with its own generics and where clause, and anything that is not a struct is refused.""",
     ["programs"], "all structs: any name, generics, where clause and bind expression", "A procedural macro is a function on programs; the crate has no tests and its users do not build here.",
     [DV], [("bind_ty_ctx", DV)], ["generated code"])
prop("D02", "The derived declaration accessors cover every variant",
     """For every enum of one-field tuple variants, the derived name and span of a value are the name and span of its variant's content, for each variant without
     exception. Its debug text is the variant's name followed by the content's debug text in parentheses. All three are implemented for the enum
     itself, and anything that is not an enum is refused.""",
     ["programs"], "all enums with one-field tuple variants", "A procedural macro is a function on programs; the crate has no tests and its user does not build here.",
     [DV], [("gen_decl_enum", DV)], ["generated code"])
