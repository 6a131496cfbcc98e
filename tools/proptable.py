# Single source for properties.jsonl, MANIFEST.json and known-findings.json (see mkdocs.py).
HOOKS = {"guard": "none", "enable": "no hooks: the monitors observe the public API of the crates and the stdio protocol of the server", "source_commits": []}
PROPS = []
NOT_CLAIMED = []
def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a, technique=technique, level_note=note))

PARSER = "crates/parser/src/parser/"
FMT = "crates/formatter/src/printer/"
SVC = "crates/service/src/"

P("C01", "Parsing any text gives a complete, lossless tree without crashing",
  "Parsing any text, valid or not, ends in reasonable time without a crash and yields a tree whose tokens, read in order, are exactly the text, byte for byte. Parsing the same text again gives the same tree and the same errors.",
  ["inputs"], "all texts (nesting up to some hundred levels): valid documents, damaged ones, truncations, token and character soup, any Unicode",
  "the tests parse a fixed set of files and a few hand-written mistakes; losslessness must hold for every text a user can have on screen while typing",
  ["crates/parser/src/parser/mod.rs", "crates/parser/src/parser/token.rs", "crates/parser/src/parser/module.rs", "crates/parser/src/parser/instr.rs", "crates/parser/src/parser/ty.rs"],
  [("error-recovering combinators that put every skipped character into error tokens", PARSER + "mod.rs"), ("error_token / error_term", PARSER + "token.rs")],
  "runtime monitor: tree/text equality checker under hostile workload, with crash and CPU-time watchdogs",
  "Exploration: tens of thousands of hostile texts per run (millions in the thorough tier); every token position is checked; crashes and hangs are observed by a parent process.")
P("C02", "Wrong text is reported, at a valid place",
  "A text with unbalanced parentheses, an unterminated string or comment, a character no token can contain, or any token the tree marks as erroneous has at least one syntax error. Every syntax error has a message and a range within the text, on character boundaries, and a stray character is covered by an error.",
  ["inputs"], "all texts; single mistakes (stray character, lost or extra parenthesis, lost keyword) at any place of any valid document",
  "tests sample a few mistakes per production; a mistake can be anywhere in any document",
  ["crates/parser/src/parser/mod.rs", "crates/parser/src/parser/token.rs", "crates/parser/src/error.rs"],
  [("retry / must record an error for what they skip", PARSER + "mod.rs"), ("report of unterminated tokens and of trailing tokens", PARSER + "mod.rs")],
  "runtime monitor: error list judged against an independent lexer and planted mistakes",
  "Exploration; the oracle is a lexer written from the WebAssembly specification plus the knowledge of the planted mistake.")
P("C03", "Valid modules parse without errors into the right tree",
  "A document that follows the WebAssembly text grammar the tool supports parses without any syntax error, whatever its white space, comments and spelling of literals. The tree has exactly the nodes and tokens of the productions used, in source order.",
  ["inputs"], "all documents of the supported grammar in all layouts",
  "tests are snapshots of given files; combinations of productions, comments at any place and literal spellings are unbounded",
  ["crates/parser/src/parser/module.rs", "crates/parser/src/parser/instr.rs", "crates/parser/src/parser/ty.rs", "crates/parser/src/parser/token.rs"],
  [("production parsers", PARSER + "module.rs"), ("folded and flat instruction parsers", PARSER + "instr.rs"), ("number lexing", PARSER + "token.rs")],
  "runtime monitor: parsed tree compared with the ground-truth tree of a document generator",
  "Exploration; the generator writes the expected tree while it writes the document. Excluded: v128.const, `select (result)`, multi-memory operands.")
P("C04", "A mistake does not disturb the fields before it",
  "When a module contains mistakes, every field that is complete before the first mistake is parsed exactly as without them, and no error is reported inside it. A stray character inside an instruction sequence of one function also leaves all other fields as they were and puts no error outside that function.",
  ["inputs"], "all valid documents, all places and kinds of one mistake (replacement, removal, insertion, truncation, arbitrary rest)",
  "tests look at whole-tree snapshots of a few broken files",
  ["crates/parser/src/parser/mod.rs", "crates/parser/src/parser/module.rs", "crates/parser/src/parser/instr.rs"],
  [("retry / retry_once recovery", PARSER + "mod.rs"), ("r_paren skipping of unexpected tokens", PARSER + "token.rs")],
  "runtime monitor: differential tree comparison between a document and its damaged variant",
  "Exploration; recovery after a mistake is judged only for stray characters in bodies, because the parser does not promise more.")
P("C05", "Formatting keeps every token and comment of a valid document",
  "Formatting a document without syntax errors, under any options, gives a document with the same tokens and comments in the same order (with comment formatting on, comments may gain surrounding blanks), without syntax errors and with the same structure.",
  ["inputs", "configurations"], "all valid documents with comments anywhere, all option combinations",
  "snapshot tests fix the output of chosen files; a comment or optional keyword in an untested place can vanish without any test noticing",
  ["crates/formatter/src/lib.rs", "crates/formatter/src/printer/mod.rs", "crates/formatter/src/printer/module.rs", "crates/formatter/src/printer/instr.rs", "crates/formatter/src/printer/ty.rs"],
  [("per-node document builders that carry trivia", FMT + "module.rs"), ("format_trivias_after_node / _token", FMT + "mod.rs")],
  "runtime monitor: token/comment conservation checker over formatter runs",
  "Exploration with an independent lexer as oracle. One recorded finding (inline import printed before inline export).")
P("C06", "Formatting is stable and independent of white space",
  "Formatting formatted text again changes nothing. Two documents that differ only in white space between tokens (no comments, one module) format to the same text. In documents with comments the number of blanks in a gap makes no difference.",
  ["inputs", "configurations"], "all valid documents, all options, all white-space variants",
  "snapshots compare one pass on one layout",
  ["crates/formatter/src/printer/mod.rs", "crates/formatter/src/printer/module.rs", "crates/formatter/src/printer/instr.rs", "crates/formatter/src/printer/ty.rs"],
  [("layout derived from the tree, not from source positions", FMT + "module.rs")],
  "runtime monitor: metamorphic comparison of formatter outputs",
  "Exploration.")
P("C07", "Formatted layout obeys the options",
  "Formatted output uses only the configured line break and indentation kind, indents by whole steps (instructions by exactly their nesting depth), starts each module field, each instruction, `else`, `end` and folded `then` on a line of its own, leaves no trailing blanks, ends with a line break, breaks lines that exceed the print width wherever they can be broken, and breaks none when everything fits (unless comments span several lines).",
  ["inputs", "configurations"], "all valid documents, all layout options",
  "the tests run two or three option values on small files",
  ["crates/formatter/src/lib.rs", "crates/formatter/src/config.rs", "crates/formatter/src/printer/mod.rs", "crates/formatter/src/printer/instr.rs"],
  [("build_options", "crates/formatter/src/lib.rs"), ("nest/group use in the printers", FMT + "instr.rs")],
  "runtime monitor: line-by-line layout checker over formatter output",
  "Exploration; width is judged on ASCII documents by comparing with the narrowest and the widest layout.")
P("C08", "Formatting a broken document loses nothing",
  "Formatting a document with syntax errors never crashes, and every non-blank character of the source is in the output in the same order; the only characters the output may add are closing parentheses.",
  ["inputs", "configurations"], "all documents with any syntax errors, all options",
  "the tests format a handful of incomplete inputs; losing user text on a half-typed document is only visible with arbitrary damage",
  ["crates/formatter/src/printer/mod.rs", "crates/formatter/src/printer/module.rs", "crates/formatter/src/printer/instr.rs", "crates/formatter/src/printer/ty.rs"],
  [("error tokens treated as trivia and printed", FMT + "mod.rs")],
  "runtime monitor: character conservation checker over formatter runs on hostile documents",
  "Exploration.")
P("C09", "Ignore directives keep text verbatim, and only that text",
  "A module or module field preceded by a line comment holding the ignore directive appears verbatim in the formatted output (line breaks normalised); everything else is formatted as if the comment were an ordinary one, and a word that merely starts with the directive has no effect.",
  ["inputs", "configurations"], "all documents, directive before any module or field, any directive text",
  "a few snapshots; the directive must work before every field kind in every layout",
  ["crates/formatter/src/printer/mod.rs", "crates/formatter/src/printer/module.rs"],
  [("should_ignore / reflow", FMT + "mod.rs")],
  "runtime monitor: verbatim checker and differential comparison with an ordinary comment",
  "Exploration.")
P("C10", "Range formatting covers the request and changes only white space",
  "Formatting any range gives a replacement for a range that covers the requested one; applying it keeps all tokens, comments and structure of a valid document and loses no text of a broken one. A request for the whole document gives the same text as formatting it.",
  ["inputs", "configurations"], "all documents, all ranges, all options",
  "tests format a few chosen ranges",
  ["crates/formatter/src/lib.rs", "crates/formatter/src/printer/mod.rs"],
  [("format_range / format_node", "crates/formatter/src/lib.rs")],
  "runtime monitor: splice-and-compare checker over random ranges",
  "Exploration.")

P("C11", "No request crashes the language service, and answers point into the text",
  "Once a document is opened, every request of the language service can be made for it, valid or broken, at any position or range (also outside the text, inside surrogate pairs or reversed) and with any formatting options, and returns without a crash. Every position and range in an answer or diagnostic denotes a place of the document: an existing line, a UTF-16 column within that line and not inside a character, start not after end.",
  ["inputs"], "all texts, all requests, all positions and ranges",
  "tests ask chosen questions about chosen valid documents; an editor asks at every keystroke about half-typed text with any Unicode in it",
  [SVC + "helpers.rs", SVC + "files.rs", SVC + "features/mod.rs", SVC + "features/semantic_tokens.rs", SVC + "features/code_action.rs", SVC + "checker/mod.rs"],
  [("position conversion", SVC + "helpers.rs"), ("token lookup", SVC + "features/mod.rs")],
  "runtime monitor: crash and answer-range checker over a hostile request workload with debug assertions and overflow checks on",
  "Exploration; about 20 kinds of requests on damaged documents; positions in answers are checked with an independent UTF-16 line index.")
P("C12", "After any history of edits answers equal those of a fresh service",
  "A language service that saw any history of edits to any documents, and answered requests in between, gives the same answers and diagnostics for the current text as a service that was just created and given only that text. Requests never change later answers, and documents do not affect each other.",
  ["histories"], "all sequences of commits and requests over several documents",
  "tests commit one text once; stale memoized answers only show after a particular sequence of edits and requests",
  [SVC + "lib.rs", SVC + "files.rs", SVC + "binder.rs", SVC + "types_analyzer.rs", SVC + "idx.rs"],
  [("memoized queries and their equality", SVC + "types_analyzer.rs"), ("symbol identity", SVC + "binder.rs"), ("interned names and documents", SVC + "idx.rs")],
  "runtime monitor: differential check of a long-lived service against a fresh one along random edit histories",
  "Exploration; histories of up to 9 edits (same-length edits, comment edits, reverts, structural edits) over up to 3 documents, all kinds of requests compared after each.")
P("C13", "Going to a definition leads exactly to what the reference denotes",
  "In a valid module, from every reference (function, type, global, memory, table, local, label; by name or by index) goto definition leads to exactly the definition that the text format's scoping and index rules give: the name of the definition, or its keyword or type if it has no name. A label reference leads to the innermost enclosing block with that label. Dangling references and tokens that are no references lead nowhere. Goto declaration never leads elsewhere than the definition; goto type definition leads from a function reference to the type that its definition uses.",
  ["inputs"], "all valid documents and all tokens in them",
  "tests ask about a handful of references; scoping involves every combination of nesting, shadowing, imports, anonymous definitions and index arithmetic",
  [SVC + "binder.rs", SVC + "idx.rs", SVC + "features/definition.rs", SVC + "features/mod.rs"],
  [("symbol table", SVC + "binder.rs"), ("find_defs / find_param_or_local_def / find_block_def", SVC + "binder.rs")],
  "runtime monitor: answers compared with the binding model of a document generator",
  "Exploration. Indices of module fields are only used where the shared counter of the tool (pinned by its tests, recorded as finding) agrees with the index space; element segments by index are not resolved by the tool.")
P("C14", "Find references lists exactly the references of a definition",
  "In a valid module, find references on a definition or on any reference to it lists exactly the references that resolve to that definition, each once, with or without the definition itself as asked. Other places give nothing.",
  ["inputs"], "all valid documents and all tokens in them",
  "tests ask about a handful of symbols; the answer must be complete and sound for every symbol",
  [SVC + "features/references.rs", SVC + "binder.rs", SVC + "idx.rs"],
  [("per-kind symbol filters", SVC + "features/references.rs"), ("is_defined_by", SVC + "idx.rs")],
  "runtime monitor: answers compared with the binding model of a document generator",
  "Exploration; same domain as C13.")
P("C15", "Rename changes every occurrence of one name and nothing else",
  "In a valid module, renaming an identifier to a fresh name edits exactly the definition and the references by name that belong to it: all occurrences of the name within the function for locals, within the module for module fields (which share one name space here), and those of the same block for labels. Afterwards every reference denotes what it denoted before. References by index stay as they are. Places that are no identifier and new names that are no identifiers are refused.",
  ["inputs"], "all valid documents, all identifier occurrences, all new names",
  "tests rename a few symbols; a missed or extra occurrence silently changes the meaning of the user's program",
  [SVC + "features/rename.rs", SVC + "binder.rs", "crates/parser/src/parser/token.rs"],
  [("rename_impl", SVC + "features/rename.rs"), ("is_id_char", "crates/parser/src/parser/token.rs")],
  "runtime monitor: edits compared with the binding model, then applied and the bindings checked again",
  "Exploration; that module fields of different kinds are renamed together is fixed by the repository's tests.")
P("C16", "A name or index is reported as undefined exactly when it is",
  "In a syntactically valid module each reference (to a function, type, global, memory, table, local or label, by name or index) that denotes nothing gets one error `cannot find ... in this scope` at its place, and references that denote something get none.",
  ["inputs"], "all valid documents with any set of dangling references",
  "tests check single mistakes; both false alarms and silence depend on combinations of scopes, kinds and nesting",
  [SVC + "checker/undef.rs", SVC + "binder.rs", SVC + "idx.rs"],
  [("check", SVC + "checker/undef.rs")],
  "runtime monitor: diagnostics compared with planted dangling references",
  "Exploration; same domain as C13. Three recorded findings (shared index counter, implicit function label, unwritten parameters).")
P("C17", "A repeated name is reported exactly when it is a repetition in its scope",
  "Each definition whose name is also the name of another definition of the same kind in the same scope (module fields of one module; parameters and locals of one function) gets one error `duplicated name` at the name, whose related places are exactly the other definitions. Names that are unique in their scope get none, whatever other functions, modules, labels or type definitions use them.",
  ["inputs"], "all valid documents with any set of repeated names",
  "tests check a few pairs",
  [SVC + "checker/dup_names.rs", SVC + "binder.rs"],
  [("check", SVC + "checker/dup_names.rs")],
  "runtime monitor: diagnostics compared with planted repetitions",
  "Exploration; sharing of names between kinds of module fields and repeated labels are left out (the tests fix the tool's own rules there).")

P("C18", "Type errors are reported exactly where the code is ill-typed",
  "In a module whose names all resolve, every type error the checker covers is reported once, at the instruction or function concerned, with the expected and actual types: a folded operand of a wrong type, a missing or superfluous folded operand, wrong or missing values for a flat instruction at the top level of a function body or global initialiser, and wrong, missing or superfluous values left at the end of a function body or global. A well-typed module gets no type error, whatever mixture of flat and folded instructions, calls, types by reference, blocks with results, unconditional branches and unreachable code it uses.",
  ["inputs"], "all modules with at most one such mistake, over all MVP, reference, table, bulk and vector instructions (except v128.const, typed select, and missing values after call_indirect)",
  "the tests check some thirty short functions; a false alarm or a silent mistake depends on the instruction, on how its operands are written and on where the types come from",
  [SVC + "checker/typeck.rs", SVC + "types_analyzer.rs", SVC + "data_set/instr_meta.rs"],
  [("TypeStack and the per-instruction signatures", SVC + "checker/typeck.rs"), ("resolve_type / get_func_sig", SVC + "types_analyzer.rs"), ("operand table", SVC + "data_set/instr_meta.rs")],
  "runtime monitor: diagnostics compared with the typing of a generator that builds well-typed programs and plants one mistake",
  "Exploration. Operands of drop, select, local.set/tee, global.set and of reference instructions accept any type in the tool and are not judged; flat code inside blocks is not judged for values left at its end.")
P("C19", "Document symbols are exactly the definitions of the document",
  "The symbols of a document form the tree of its definitions: the modules in document order, under each the functions, types, globals, memories and tables in source order (also imported ones), under each function its locals. Each symbol has the right kind, is called by its name (or index, if it has none), its range is the definition, and its selection range lies in that range, on the name if there is one. Nothing else is listed and nothing is listed twice.",
  ["inputs"], "all valid documents (numbers of unnamed module fields only where the tool's shared counter agrees)",
  "tests are snapshots of a few documents",
  [SVC + "features/document_symbol.rs", SVC + "binder.rs"],
  [("document_symbol", SVC + "features/document_symbol.rs"), ("symbol table", SVC + "binder.rs")],
  "runtime monitor: answers compared with the definitions a document generator wrote",
  "Exploration; modules without any symbol may be left out; parameters and labels are no document symbols in this tool.")
P("C20", "Semantic tokens cover every token once, with its place and kind",
  "The semantic tokens of a valid document are its tokens and comments in source order (parentheses, memory arguments and heap types excepted), each once, at its UTF-16 position with its UTF-16 length and with the kind its role calls for: keywords, instructions, numbers, strings, comments, value types, and for names and indices the kind of definition they denote (functions, parameters, locals, types). A request for a range gives exactly the tokens that overlap the range. Kinds the client did not announce are left out without shifting other tokens.",
  ["inputs", "configurations"], "all valid documents in all layouts, all ranges, all client legends",
  "tests snapshot a few ASCII documents; the delta encoding breaks on any token that is skipped, spans lines or follows wide characters",
  [SVC + "features/semantic_tokens.rs", SVC + "helpers.rs"],
  [("delta encoding", SVC + "features/semantic_tokens.rs"), ("LineIndex position conversion", SVC + "helpers.rs")],
  "runtime monitor: decoded token stream compared with an independent lexer and the roles a document generator assigned",
  "Exploration. One recorded finding: the first token of a range answer starts at column 0 (pinned by snapshots).")
P("C21", "Hover describes exactly the thing under the cursor",
  "In a valid document hovering a name, index or definition keyword of a function, global, type, memory, table, parameter or local shows the definition it denotes (its kind, name, type or full signature, also when the signature comes from a type definition or import, and the documentation in `;;;` comments before it) with the range of what is hovered. An instruction name shows that instruction's name and binary opcode; a value type shows its meaning. Names that denote nothing, strings and other literals show nothing.",
  ["inputs"], "all valid documents and every token in them",
  "tests hover over a handful of tokens",
  [SVC + "features/hover.rs", SVC + "types_analyzer.rs", SVC + "binder.rs", SVC + "helpers.rs"],
  [("hover", SVC + "features/hover.rs"), ("render_func_header", SVC + "types_analyzer.rs"), ("doc comments", SVC + "helpers.rs")],
  "runtime monitor: answers compared with the binding and signature model of a document generator and the opcode table of the specification",
  "Exploration. References of functions in start, export and element segments may show nothing.")
P("C22", "Completion of references offers exactly the definitions in scope",
  "At a reference of call, return_call, ref.func, local.*, global.*, table.* or a branch, and at the indices of start, export and type uses, completion offers exactly the definitions of that kind in scope at this place, each once: functions, globals, types, memories or tables of the enclosing module, parameters and locals of the enclosing function, labels of the enclosing blocks. Each has the right kind and type. After `$` only named ones are offered and accepting one does not repeat the `$`. At instruction names all MVP instructions are offered, and where an operand names an element segment no tables are.",
  ["inputs"], "all valid documents and all such references in them",
  "tests complete at a few places in small modules",
  [SVC + "features/completion.rs", SVC + "binder.rs", SVC + "types_analyzer.rs"],
  [("get_cmp_ctx / get_cmp_list", SVC + "features/completion.rs")],
  "runtime monitor: answers compared with the scopes of a document generator",
  "Exploration. The tool's list of instruction names lacks most later proposals (pinned by snapshots), so only MVP instructions are required.")
P("C23", "Inlay hints show the type of every variable reference, and no other hints",
  "For a range, the inlay hints are exactly: after each reference to a parameter, local or global in the range its value type, and after the closing parenthesis of each named function `(func $name)`. References to nothing have no hint.",
  ["inputs"], "all valid documents, all ranges",
  "tests snapshot a few documents",
  [SVC + "features/inlay_hint.rs", SVC + "types_analyzer.rs"],
  [("inlay_hint", SVC + "features/inlay_hint.rs"), ("extract_type / extract_global_type", SVC + "types_analyzer.rs")],
  "runtime monitor: answers compared with the binding and type model of a document generator",
  "Exploration.")
P("C24", "The call hierarchy lists exactly the calls between functions",
  "From the definition or any call of a function the call hierarchy starts at that function (name, signature, place). Its outgoing calls are exactly the call, return_call and ref.func instructions in its body with the functions they denote; its incoming calls are exactly those instructions in functions of the same module that denote it, each with the calling function and the place of the reference. Recursive calls are listed in both.",
  ["inputs"], "all valid documents, all functions in them",
  "tests ask about a few small call graphs",
  [SVC + "features/call_hierarchy.rs", SVC + "binder.rs"],
  [("prepare / incoming_calls / outgoing_calls", SVC + "features/call_hierarchy.rs")],
  "runtime monitor: answers compared with the call graph of a document generator",
  "Exploration.")
P("C25", "Folding and selection ranges follow the syntax tree",
  "The folding ranges of a valid document are exactly its parenthesised or keyword-delimited constructs that span more than one line, each once. The selection ranges have one entry per requested position, in the order of the positions; each leads from the token at the position through all enclosing constructs to the whole document, every range contained in the next; where there is no token, the answer is an empty range at the position.",
  ["inputs"], "all valid documents, all sets of positions",
  "tests ask for one position in small documents",
  [SVC + "features/folding_range.rs", SVC + "features/selection_range.rs"],
  [("folding_range", SVC + "features/folding_range.rs"), ("selection_range", SVC + "features/selection_range.rs")],
  "runtime monitor: answers compared with the ground-truth tree of a document generator",
  "Exploration.")
P("C26", "Code actions are offered exactly where they apply and change only that",
  "For a selection in a document without syntax errors: an action to split parameters, results or locals is offered exactly on a group of two or more types without comments inside, and replaces it with one group per type in the same order; joining parameters is offered exactly for the first run of two or more adjacent unnamed parameters in the selection (without comments) and replaces them with one group of the same types; the fix of a memory argument is offered exactly for blanks around its `=` in a folded instruction and removes just these. No other action is offered, only kinds the client asked for are, and applying an action leaves every other character as it was and makes no syntax error.",
  ["inputs"], "all documents without syntax errors (and with spaced memory arguments), all selections, all `only` filters",
  "tests apply one action per kind in a function or two; the neighbours of the edited text and the comments in it are arbitrary",
  [SVC + "features/code_action.rs", SVC + "refactorings/mod.rs"],
  [("code_action", SVC + "features/code_action.rs"), ("refactorings", SVC + "refactorings/")],
  "runtime monitor: offered actions and applied edits compared with those computed from the ground truth of a document generator",
  "Exploration: every selection kind (empty, node, several nodes, anything).")
P("C27", "Operands, extra modules and syntax errors are diagnosed where they occur",
  "The diagnostics of a document report: a literal operand of the wrong kind (an integer constant that is not an integer, a float constant, a variable, function, label or table that is neither index nor name, a memory argument that is none) with exactly one error whose range is this operand, and never a correct one; every module after the first one; and every syntax error of the parser with the same range and message. Diagnostics pulled and pushed are the same, have severity error, and come from source wat.",
  ["inputs"], "all documents with planted wrong operands in any instruction that takes operands, with any number of modules, and broken documents",
  "tests report a few operands of some instructions; there are hundreds of instructions and any operand of any of them can be wrong",
  [SVC + "checker/literal_operands.rs", SVC + "checker/multi_modules.rs", SVC + "checker/mod.rs", SVC + "features/diagnostics.rs"],
  [("literal operand check", SVC + "checker/"), ("pull_diagnostics", SVC + "features/diagnostics.rs")],
  "runtime monitor: diagnostics compared with mistakes planted by a document generator",
  "Exploration.")
P("C28", "Formatting requests apply the formatter, and keep the meaning",
  "Applying the answer of a formatting request gives exactly the output of the formatter with the options of the client (indent width, tabs or spaces), for the whole document and for a range; formatting a document without syntax errors leaves its diagnostics and symbols as they were, up to their positions.",
  ["inputs"], "all documents without syntax errors, all indent widths, tabs and spaces, all ranges",
  "tests of the service do not look at formatting at all beyond one or two documents",
  [SVC + "features/formatting.rs", "crates/formatter/src/lib.rs"],
  [("formatting / range_formatting", SVC + "features/formatting.rs")],
  "runtime monitor: edits of the service compared with the formatter, diagnostics and symbols compared across formatting",
  "Exploration.")
P("C29", "The server answers every message of a session as the protocol demands",
  "In a session over standard input and output, every request gets exactly one response, with its id: the result the service computes for the current text of the document, or an error for an unknown method, for invalid parameters and for a refused rename. Requests for documents that were never opened do not end the session. Diagnostics are published after every opening and change of a document (unless the client pulls them) and cleared when it is closed; of several changes in one notification the last is the text. Unknown notifications are ignored. The capabilities announced at the start are those the server has. Asked for its version on the command line, it prints it and exits. The output is well-formed messages only, and the server ends cleanly after shutdown and exit or at the end of the input.",
  ["inputs", "histories"], "all sessions: any order of openings, changes, closings, reopenings and requests of every kind on several documents, malformed and unknown requests, pipelined without waiting",
  "no test talks to the server at all; what a client sees depends on the history of the session",
  ["crates/server/src/server.rs", "crates/server/src/main.rs", SVC + "lib.rs"],
  [("message loop, dispatch of requests and notifications", "crates/server/src/"), ("LanguageService", SVC + "lib.rs")],
  "runtime monitor: online checker of the protocol of recorded sessions with the real server process, against a fresh model of the documents",
  "Exploration: thousands of random sessions with the real process per run.")
P("C30", "No input causes undefined behaviour",
  "Nothing the tool does with a document (parsing it, walking the tree, formatting, any request, replacing it while results are cached) and no number given to the conversion into syntax kinds causes a memory error or undefined behaviour: no invalid access, no use after free, no value of an enum that is none of its variants.",
  ["inputs", "histories"], "all documents, requests and raw kinds; aliasing rules aside, which the tree library violates",
  "memory errors do not show in the result of a test; the conversion from raw kinds into the enum is unchecked and must be safe for every number",
  ["crates/syntax/src/lib.rs", "crates/syntax/src/kind.rs", "crates/parser/src/parser/mod.rs"],
  [("unchecked conversion of raw kinds", "crates/syntax/src/lib.rs"), ("tree library, incremental database", SVC + "files.rs")],
  "sanitizers: AddressSanitizer build with checks for undefined behaviour under hostile workloads, Miri interpreter on small ones",
  "Exploration: thousands of documents with sanitizers, some tens in the interpreter.")
P("C31", "Completion offers the word being typed",
  "While a keyword, instruction, value type or memory argument of a valid document is being typed (its first letters are there, the rest of the document is there or still missing), completion offers it exactly once and with the right kind: keywords as keywords, instructions as operators, types as classes, the start of a memory argument as a snippet. For the keyword of a module, of a module field or of an import or export descriptor, and for value types, nothing that cannot stand there is offered.",
  ["inputs"], "all valid documents, all places of keywords, instructions of the first version of the language, types and (in folded instructions) memory arguments, all proper prefixes, with and without the text behind",
  "the tests ask at one place per production, with the same surroundings; what is offered depends on how the broken text around the cursor was recovered",
  [SVC + "features/completion.rs", SVC + "data_set/mod.rs", PARSER + "mod.rs"],
  [("context from the recovered tree", SVC + "features/completion.rs"), ("words per context", SVC + "data_set/")],
  "runtime monitor: answers judged against the word that the generator knows to stand there",
  "Exploration: hundreds of thousands of half-typed words per run.")
P("C32", "Formatter options do what the configuration says",
  "Every formatter option can be given in a configuration in snake case or camel case, in any order and combination; it is read as given, options left out have their documented defaults, writing the options and reading them back changes nothing, and values of a wrong type or unknown line breaks are refused. With comment formatting on, each comment that does not start (and each block comment that does not end) with a blank gets one there and no other comment changes; with it off comments stay as they are.",
  ["inputs"], "all subsets, orders and spellings of the options, all values; all valid documents with comments",
  "the tests set one option at a time on one document; no test reads a configuration",
  ["crates/formatter/src/config.rs", FMT + "mod.rs"],
  [("serde names, aliases and defaults", "crates/formatter/src/config.rs"), ("format_line_comment / format_block_comment", FMT + "mod.rs")],
  "runtime monitor: configuration read by the real code and its effect compared with an independent statement of the options",
  "Exploration: hundreds of thousands of configurations and documents per run.")
P("C33", "Typed views of the tree show exactly its nodes and tokens",
  "Each typed view of the syntax tree can be made from exactly the nodes of its kind (the views that stand for several kinds from exactly those, as the matching variant), and keeps the node. Its accessors return exactly the direct children of the node of that kind, all of them and in source order where they return several, the first where they return one (of limits the second number is the maximum; of a block the names before and after its end are told apart), and nothing where there is none.",
  ["inputs"], "all nodes of all documents, valid or broken; all view types and accessors",
  "the tests see the views only through the formatter and the service, and only in the shapes of their sample files",
  ["crates/syntax/src/ast/instr.rs", "crates/syntax/src/ast/module.rs", "crates/syntax/src/ast/ty.rs"],
  [("AstNode implementations and accessors", "crates/syntax/src/ast/")],
  "runtime monitor: every accessor's result on every node of generated and damaged documents compared with a direct walk over the children",
  "Exploration: every view type is seen (required), millions of accessor results per run.")

P("C34", "The work for a text stays in proportion to its size",
  "Parsing, formatting, committing and diagnosing a text of a few kilobytes, and answering any request on it, takes milliseconds and never seconds of processor time, however its constructs are nested, repeated, left open or damaged: the time may grow with the length and the nesting, but does not multiply with each further level or repetition.",
  ["inputs"], "all texts of at most 4 KB with nesting up to some hundred levels, valid or not; all operations and requests",
  "the tests run small files; a doubling per level of nesting shows only on deep or repeated constructs, of which there are as many kinds as productions and their combinations",
  ["crates/parser/src/parser/mod.rs", "crates/parser/src/parser/instr.rs", "crates/parser/src/parser/module.rs", "crates/formatter/src/printer/instr.rs", "crates/service/src/checker/typeck.rs", "crates/service/src/binder.rs"],
  [("alternatives that parse the same text again after a failure", "crates/parser/src/parser/instr.rs"), ("recursion over nested instructions", "crates/service/src/checker/typeck.rs")],
  "runtime monitor: thread CPU time of each operation on one construct (or two, or random tokens) nested and repeated more and more often, against a limit of 5 s that is some hundred times what the slowest needs",
  "Exploration: thousands of constructs, each at up to 14 sizes, per run.")

KNOWN = [
    ("C05", "import-export-order", "(module (func (export \"p1\") (import \"spectest\" \"print_i32\") (param i32)))", "`(func (export ...) (import ...) ...)`: the formatter moves the inline import before the inline export (pinned by formatter/tests/parser/imports.snap)"),
    ("C13", "index-after-type", "(module (type (func)) (func $a) (func (call 0)))", "numeric indices of module fields count all kinds together, so `call 0` finds nothing when a type comes first (one counter for all kinds, pinned by the diagnostics tests)"),
    ("C13", "index-after-global", "(module (global i32 (i32.const 0)) (func $a) (func (call 0)))", "as above, with a global before the functions"),
    ("C16", "index-after-type", "(module (type (func)) (func (call 0)))", "as above: a valid numeric reference is reported as undefined"),
    ("C16", "function-label", "(module (func (block (br 1))))", "a branch to the implicit label of the function, from inside a block, is reported as undefined (pinned by the diagnostics tests)"),
    ("C16", "params-of-type", "(module (type $t (func (param i32))) (func (type $t) (drop (local.get 0))))", "parameters that a function only takes from `(type $t)` are reported as undefined"),
    ("C20", "range-first-column", "(module (func $f (result i32) i32.const 1))", "the first token of a semantic tokens answer for a range is put at column 0 of its line instead of its own (pinned by the range snapshots)"),
]
FIXED = [
    ("C03", "2948945", "digit separators in signed hex floats and NaN payloads were rejected"),
    ("C01", "77c0bb8", "unterminated nested block comment made the parser panic"),
    ("C01", "fe0d3eb", "text after form feeds or malformed strings was dropped from the tree"),
    ("C02", "c8b20e1", "syntax errors could end before they start"),
    ("C02", "692ea2a", "unexpected tokens after the last module were not reported"),
    ("C01", "b0f6d7a", "parsing time was exponential in the number of unclosed blocks"),
    ("C05", "ea02781", "`shared` of memory limits was dropped by the formatter"),
    ("C05", "290a864", "comments before results and in unfolded `if` were dropped by the formatter"),
    ("C06", "396cafd", "abbreviated offsets and element expressions after comments were not formatted stably"),
    ("C08", "b729466", "a label after `end` was taken as the label of the block, the label was printed twice"),
    ("C08", "07cac81", "unexpected tokens and comments of incomplete nodes were discarded when formatting"),
    ("C02", "e31a00e", "unterminated strings and block comments were not reported"),
    ("C13", "f4319c8", "references of labels were listed for blocks of the same name"),
    ("C14", "f4319c8", "find references listed labels that refer to other blocks"),
    ("C15", "5965349", "rename changed symbols of other names (references by index) and labels of other blocks"),
    ("C13", "9a69ffe", "labels were not found across then, else and operands"),
    ("C13", "5a98159", "names in global exports, table uses, element segments and call_indirect were not resolved"),
    ("C11", "d80db01", "columns were counted in bytes instead of UTF-16 code units; positions beyond a line made requests panic"),
    ("C17", "05dc7ee", "duplicated tables were not reported; a label and a local of the same name were reported as duplicates"),
    ("C11", "db79d12", "formatting with a tab size of zero panicked"),
    ("C18", "29d10b4", "operands were reported as missing after unconditional branches, block types weren't known"),
    ("C18", "226ddb8", "memory arguments and table operands counted as required operands"),
    ("C18", "8ab0654", "i8x16.shuffle was expected to have another number of lane indices"),
    ("C18", "b7b3875", "the type of nop wasn't known"),
    ("C18", "6b74fb2", "calls of functions without type use made the check of types give up"),
    ("C16", "1c0b467", "the element segment of table.init was taken as the table when the table is omitted"),
    ("C18", "7307229", "types of operands were compared although their number was unknown"),
    ("C25", "735c3a5", "selection ranges were left out for positions without token and the remaining ones shifted"),
    ("C19", "c916f22", "modules were listed in an order other than that of the document"),
    ("C20", "1333c90", "columns and lengths of semantic tokens were counted in bytes"),
    ("C20", "5166d23", "tokens after one whose kind the client doesn't know were put on a wrong line"),
    ("C18", "4d14763", "select with literal operands was taken for the form with types"),
    ("C18", "fb90f9b", "calls of functions whose parameters are declared by a type were not checked"),
    ("C18", "9613401", "as 6b74fb2, written as an early return"),
    ("C11", "62b6327", "selection ranges of positions outside the text lay outside the document"),
    ("C29", "e5ea2db", "unknown methods were not answered and invalid parameters ended the server"),
    ("C29", "46136f1", "the first of several changes was taken as the text"),
    ("C29", "8a4bd7e", "requests for documents that were never opened made the server panic"),
    ("C26", "711b249", "splitting or joining parameters dropped comments between them"),
    ("C26", "bd56d07", "fixing a memory argument joined it with the operand after it"),
    ("C27", "aebd8ad", "literal operands of return_call, v128.load32_zero and v128.load64_zero were not checked"),
    ("C03", "c73ab83", "block types with several results or with several result groups were rejected"),
    ("C03", "268f401", "identifiers with apostrophes were rejected"),
    ("C01", "c990301", "parsing time was exponential in the number of nested folded `if` without `then`"),
    ("C02", "c990301", "a folded `if` without `then` was taken for an instruction silently"),
    ("C34", "c990301", "as in C01"),
    ("C02", "8487a68", "`end`, `else` and `then` at places where they do not belong were taken for instructions silently"),
    ("C13", "47b2b35", "indices written in hexadecimal or with separators were not seen as references"),
    ("C14", "47b2b35", "as in C13"),
    ("C16", "47b2b35", "as in C13: such indices were not reported when nothing has them"),
    ("C18", "47b2b35", "as in C13: instructions with such indices were not checked"),
    ("C21", "47b2b35", "as in C13: hover said nothing"),
    ("C23", "47b2b35", "as in C13: no hint"),
    ("C24", "47b2b35", "as in C13: calls were missing"),
]
