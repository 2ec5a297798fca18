# ruff: noqa
A = ["inputs", "programs"]
PARSE = ["libnixf/src/Parse/Lexer.cpp", "libnixf/src/Parse/ParseExpr.cpp", "libnixf/src/Parse/ParseSimple.cpp",
         "libnixf/src/Parse/ParseAttrs.cpp", "libnixf/src/Parse/ParseLambda.cpp", "libnixf/src/Parse/ParseOp.cpp",
         "libnixf/src/Parse/ParseStrings.cpp", "libnixf/src/Parse/ParseSupport.cpp"]

P("C01", "Parsing and analysing any text terminates safely and deterministically",
  "For every sequence of bytes, parsing it and running all the analyses ends in time roughly proportional to its size, "
  "without reading outside of the text, undefined behaviour, failed assertions or exceptions. "
  "The tree is well formed, and the same text always gives the same tree and diagnostics.",
  ["inputs"], "all byte strings (nesting up to 500 levels), valid or not, in any order within one process",
  "The unit tests parse some two hundred hand-written snippets without sanitizers; the bytes an editor sends while somebody "
  "types are arbitrary, unfinished and often not even UTF-8.",
  PARSE + ["libnixf/src/Sema/SemaActions.cpp", "libnixf/src/Sema/VariableLookup.cpp", "libnixf/src/Sema/ParentMap.cpp"],
  [("lexer cursor bounds and end-of-file checks", "libnixf/src/Parse/Lexer.cpp"),
   ("token look-ahead and panic-mode recovery", "libnixf/src/Parse/ParseSupport.cpp")],
  "fuzzing under ASan+UBSan with in-process tree monitors",
  NIXF + "every text runs twice, a watchdog bounds the time, and monitors check the tree (parents, children, ranges).",
  ["nixf::parse", "nixf::VariableLookupAnalysis"])

P("C02", "Every valid Nix program is parsed into the tree the grammar prescribes",
  "A program that the Nix grammar accepts is parsed without errors. Its tree has the operators' precedence and "
  "associativity, the bindings, parameters, selections and applications that the Nix language prescribes.",
  ["programs"], "all valid programs of the language, with any layout and comments",
  "Tests cover each production once or twice; precedence, look-ahead and lexing of paths, URIs, floats and strings interact "
  "in unboundedly many combinations.",
  PARSE, [("precedence table", "libnixf/src/Parse/ParseOp.cpp"), ("look-ahead that tells sets from functions", "libnixf/src/Parse/ParseExpr.cpp")],
  "random programs with known trees, differential monitor against a reference grammar",
  NIXF + "the oracle is an independent printer/parser written from Nix's own grammar; the pipe operators' associativity is a "
  "known finding.", ["nixf::parse"])

P("C03", "Every invalid program is diagnosed",
  "A text that the Nix grammar rejects gets at least one diagnostic of error severity, however small the damage. "
  "A text that it accepts gets none.",
  ["programs"], "all texts, in particular valid programs with a few tokens removed, added, exchanged or cut off",
  "Tests check that chosen errors are reported; error recovery may swallow any other one silently.",
  PARSE + ["libnixf/src/Sema/SemaActions.cpp"], [("error recovery: expect, removeUnexpected", "libnixf/src/Parse/ParseSupport.cpp")],
  "mutation of random programs, differential monitor against a reference grammar",
  NIXF + "the oracle is a reference parser of the Nix grammar; documented extensions of nixf are left undecided (DESIGN.md).",
  ["nixf::parse"])

P("C04", "Source ranges of nodes, diagnostics and fixes are faithful",
  "Every node spans exactly the text it was parsed from, children lie inside of their parents without overlapping, and "
  "every range of a diagnostic, note or edit lies in the text. Line and column of each position agree with its offset.",
  A, "all texts, including multi-byte characters, CRLF and incomplete programs",
  "Everything the editor shows or edits is addressed by these ranges; tests compare a few of them.",
  PARSE + ["libnixf/include/nixf/Basic/Range.h"], [("cursor: line, column, offset", "libnixf/include/nixf/Basic/Range.h"), ("token consumption", "libnixf/src/Parse/Lexer.cpp")],
  "online range monitor over random programs and mutants",
  NIXF + "spans are compared with those recorded by the printer that laid the program out; other texts with structural invariants.",
  ["nodes, diagnostics and edits of nixf::parse"])

P("C05", "Literals denote the values the language gives them",
  "Strings, indented strings, paths, integers, floats and quoted names are decoded to exactly the value that Nix gives "
  "them: escapes, interpolations and numbers included.",
  A, "all literals, with any combination of escapes, dollar signs, quotes, interpolations and line breaks",
  "Tests contain a dozen literals; escapes interact pairwise.",
  ["libnixf/src/Parse/ParseStrings.cpp", "libnixf/src/Parse/Lexer.cpp", "libnixf/src/Parse/ParseSimple.cpp"],
  [("string lexing", "libnixf/src/Parse/Lexer.cpp"), ("escape decoding", "libnixf/src/Parse/ParseStrings.cpp")],
  "random literals with known values, differential monitor",
  NIXF + "the oracle decodes the printed literal independently.", ["parts of interpolable nodes", "values of number nodes"])

P("C06", "Attribute sets are merged and duplicates reported as the language defines",
  "Nested attribute paths, merged sets, inherited and dynamic attributes yield the set of attributes that Nix constructs. "
  "Exactly the attributes that are defined twice are reported, with a note at the first definition.",
  ["programs"], "all combinations of attribute paths, sets, rec, inherit and dynamic names",
  "Merging depends on the order and kind of all definitions of a name; tests try a few pairs.",
  ["libnixf/src/Sema/SemaActions.cpp", "libnixf/include/nixf/Basic/Nodes/Attrs.h"],
  [("desugaring of binds", "libnixf/src/Sema/SemaActions.cpp")],
  "random attribute sets, monitor against a reference model of merging",
  NIXF + "the reference model is written from the language manual and Nix's parser.", ["SemaAttrs of sets and lets", "diagnostics"])

P("C07", "Parameter lists of functions are checked exactly, with converging fixes",
  "Missing and superfluous commas, misplaced ellipses and duplicate parameters are reported exactly where they are, and "
  "nowhere else. Applying the offered quick fixes leads to a valid function with the same parameters.",
  ["programs"], "all sequences of names, defaults, commas and ellipses",
  "Tests show single mistakes; the checks and their fixes interact when there are several.",
  ["libnixf/src/Sema/SemaActions.cpp", "libnixf/src/Parse/ParseLambda.cpp"],
  [("checks of formals", "libnixf/src/Sema/SemaActions.cpp")],
  "random parameter lists, monitor against a specification, fix-point iteration of quick fixes",
  NIXF + "the expected diagnostics come from a specification over the token list, cross-checked with the reference grammar.",
  ["diagnostics and fixes of nixf::parse"])

P("C08", "Quick fixes do what they announce and never damage the program",
  "The edits of a quick fix lie in the text, do not overlap and change it. The fix of a style diagnostic yields a valid "
  "program that differs by the announced change only; the fix of a lone syntax error removes that error.",
  A, "every quick fix of every diagnostic on valid programs, on programs with one token too few or too many, and on mutants",
  "Whether a textual edit keeps the meaning depends on the text around it; tests show fixes on isolated lines.",
  ["libnixf/src/Sema/VariableLookup.cpp", "libnixf/src/Sema/SemaActions.cpp", "libnixf/src/Parse/ParseSimple.cpp",
   "libnixf/src/Parse/ParseExpr.cpp", "libnixf/src/Parse/ParseAttrs.cpp", "libnixf/src/Parse/ParseSupport.cpp"],
  [("fixes attached to diagnostics", "libnixf/include/nixf/Basic/Diagnostic.h")],
  "every fix is applied, translation monitor against transformed reference trees",
  NIXF + "the fixed text is parsed by the reference grammar and compared with the transformed tree, modulo parentheses.",
  ["fixes of diagnostics"])

P("C09", "Names are resolved to the binding the language prescribes",
  "Every variable is resolved to the definition that lexical scoping selects, to the enclosing with expressions, to a "
  "builtin, or reported undefined - never to anything else. Every definition knows exactly its uses.",
  ["programs"], "all nestings of let, rec, functions, with and inherit, and all names",
  "Go to definition, rename, references and all the diagnostics of unused names rest on it; tests try a few shapes.",
  ["libnixf/src/Sema/VariableLookup.cpp", "libnixf/include/nixf/Sema/VariableLookup.h"],
  [("environments and lookup", "libnixf/src/Sema/VariableLookup.cpp")],
  "random scopes, monitor against a reference resolver",
  NIXF + "the reference resolver is written from the language manual, over the reference tree.",
  ["VariableLookupAnalysis::query, toDef"])

P("C10", "Exactly the unused definitions, with and rec are reported",
  "A let binding, parameter, with or rec is reported as unused if and only if no variable refers to it. "
  "A name that only looks used (shadowed, or bound elsewhere) does not count.",
  ["programs"], "all programs", "A wrong report makes users delete code that is needed; tests contain a few positives.",
  ["libnixf/src/Sema/VariableLookup.cpp"], [("liveness of environments", "libnixf/src/Sema/VariableLookup.cpp")],
  "random scopes, monitor against a reference resolver", NIXF + "as C09.", ["diagnostics of VariableLookupAnalysis"])

P("C11", "Diagnostics about builtins are exact",
  "Selections of unknown builtins, prefixes that are not needed, and definitions that override builtins are reported, and "
  "nothing else. A name that is shadowed is not taken for the builtin.",
  ["programs"], "all programs, and all names of builtins", "The table of builtins and the scopes interact; tests show one scope.",
  ["libnixf/src/Sema/VariableLookup.cpp", "libnixf/src/Sema/PrimOpLookup.cpp"],
  [("lookup of primops", "libnixf/src/Sema/PrimOpLookup.cpp")],
  "random programs full of builtins, monitor against a reference model",
  NIXF + "the table of builtins is a fixture (libnix is not installed).", ["diagnostics of VariableLookupAnalysis"])

P("C12", "nixf-tidy reports exactly what the library finds, as valid JSON",
  "For every input on standard input, nixf-tidy exits successfully and prints one well-formed JSON document. "
  "It lists every diagnostic the library has, with its severity, message, arguments, range, notes and fixes.",
  ["inputs", "configurations"], "all byte strings, with and without variable lookup",
  "Only a few golden outputs exist, and none is run here.",
  ["libnixf/tools/nixf-tidy.cpp", "libnixf/src/Basic/JSONDiagnostic.cpp", "libnixf/src/Basic/Diagnostic.cpp"],
  [("serialization of diagnostics", "libnixf/src/Basic/JSONDiagnostic.cpp")],
  "the real program under ASan+UBSan, output compared with the library's objects",
  "Checks the report against the library's own diagnostics; what those should be is the subject of C02-C11.",
  ["standard output of nixf-tidy"])

P("C13", "The tree can be navigated: parents and positions are consistent",
  "For every node, walking to the parent leads to a node that has it as a child and ends at the root; the nearest enclosing "
  "node of a kind is found if there is one. The node at a position is the deepest one that contains it.",
  A, "all trees, complete or not, and all positions in them",
  "Every request of the editor starts with a position; tests try single positions.",
  ["libnixf/src/Sema/ParentMap.cpp", "libnixf/include/nixf/Sema/ParentMap.h", "libnixf/include/nixf/Basic/Nodes/Basic.h"],
  [("parent map", "libnixf/src/Sema/ParentMap.cpp"), ("descend", "libnixf/include/nixf/Basic/Nodes/Basic.h")],
  "in-process monitors on all nodes and boundaries of random trees",
  NIXF + "the monitor computes parents and positions independently.", ["ParentMapAnalysis", "Node::descend"])

# --- lspserver ---------------------------------------------------------------
LSPS = "ASan+UBSan build of lspserver (asserts on); "
LS = "nixd/lspserver/src/"
LI = "nixd/lspserver/include/lspserver/"

P("C14", "Positions of the protocol and offsets of the text convert faithfully",
  "An offset at a character boundary has exactly one LSP position, counted in lines and UTF-16 code units, and that "
  "position converts back to the offset. Positions beyond the end of a line or the text, inside of a surrogate pair or negative are "
  "refused in strict mode, and otherwise clamped to the line; no text or position leads outside of the text.",
  ["inputs"], "all texts, UTF-8 or damaged, and all positions",
  "Every request, edit and answer passes through these conversions; no test of lspserver exists.",
  [LS + "SourceCode.cpp", LI + "SourceCode.h"],
  [("iterating UTF-8 as UTF-16 units", LS + "SourceCode.cpp"), ("positionToOffset, offsetToPosition", LS + "SourceCode.cpp")],
  "random Unicode texts, every offset and position against a UTF-16 model",
  LSPS + "the oracle is a model on Python's code points; positions in surrogate pairs only have to land next to the pair in lax mode.",
  ["positionToOffset", "offsetToPosition", "lspLength"])

P("C15", "Incremental changes give the text the editor has, or are refused",
  "Applying any sequence of content changes leaves exactly the text that the LSP prescribes, change by change. "
  "A change with an invalid range, or whose stated length disagrees, is reported as an error and leaves the text alone.",
  ["inputs", "histories"], "all texts and all sequences of full and ranged changes, valid or not",
  "Once the server's copy differs from the editor's by one character, every later answer is wrong; no test covers it.",
  [LS + "SourceCode.cpp"], [("applyChange", LS + "SourceCode.cpp"), ("the inferred final newline", LS + "SourceCode.cpp")],
  "random edit histories against a model of the editor's buffer",
  LSPS + "the oracle applies each change to a UTF-16 model; a refused change may still infer a final newline.",
  ["applyChange"])

P("C16", "The draft store is a linearizable map whose versions grow",
  "Concurrent additions, removals and reads of drafts behave as if they happened one after the other, and what was read "
  "never changes afterwards. A draft added without a version gets one greater than its predecessor's, and versions are "
  "encoded and decoded without loss.",
  ["histories", "schedules"], "all histories of operations by any number of threads",
  "The map is shared by the input thread and a thread pool; interleavings are not tested at all.",
  [LS + "DraftStore.cpp", LI + "DraftStore.h"], [("the lock of drafts", LS + "DraftStore.cpp"), ("increment of versions", LS + "DraftStore.cpp")],
  "recorded concurrent histories, linearizability checker, TSan and ASan",
  "Histories of 2-5 threads with up to 7 operations each are checked exhaustively for a linearization; overlaps are counted.",
  ["DraftStore"], [("drafts", "text and version by file", LI + "DraftStore.h")])

P("C17", "File paths and URIs convert to each other without loss",
  "Each absolute path has one well-formed file URI, which resolves to exactly that path. "
  "A URI is parsed and percent-decoded as RFC 3986 prescribes, and whatever is not the URI of an absolute path is refused.",
  ["inputs"], "all POSIX paths (any bytes but NUL) and all texts taken for URIs",
  "Documents are identified by their URIs; escapes, hosts and odd bytes make two names of one file, or none.",
  [LS + "URI.cpp", LS + "Protocol.cpp"], [("percent encoding", LS + "URI.cpp"), ("file scheme", LS + "URI.cpp")],
  "random paths and URIs, round trips against an RFC 3986 model",
  LSPS + "POSIX only; paths that LLVM takes for the root of a network, like //server, are only required to be survived.",
  ["URI::createFile, parse, resolve", "URIForFile"])

P("C18", "Every message on the input is delivered exactly once, in order, intact",
  "However the bytes arrive, each well-framed JSON-RPC message is handed to the handler once, in order, with its method, "
  "id and contents. Malformed JSON is skipped alone, and interruptions, truncation or absurd lengths neither "
  "lose earlier messages, nor hang or kill the server.",
  ["inputs", "schedules"], "all streams of both styles, all ways of cutting them into pieces, signals and hang-ups at any point",
  "How a pipe splits the stream depends on timing; tests would see a single write.",
  [LS + "Connection.cpp"], [("readLine, readStandardMessage, readLitTestMessage", LS + "Connection.cpp"), ("dispatch", LS + "Connection.cpp")],
  "streams cut at random with delays and signals, exactly-once monitor",
  LSPS + "after a message that is not JSON-RPC 2.0 the port may stop, as clangd's does; it must have delivered what came before.",
  ["InboundPort::loop"])

P("C19", "Messages on the output are whole, valid and in order for each thread",
  "Whatever threads send at the same time, the output is a sequence of frames with exact lengths, each one holding one "
  "message as it was sent. Nothing is lost, duplicated or mixed, and the messages of one thread keep their order.",
  ["schedules", "inputs"], "all interleavings of any number of threads sending messages of any size",
  "A torn frame shows only when two threads meet in the write; no test has two threads.",
  [LS + "Connection.cpp", LI + "Connection.h"], [("OutboundPort::sendMessage and its lock", LS + "Connection.cpp")],
  "threads writing to a slow pipe, strict stream monitor, TSan and ASan",
  "The raw bytes are parsed strictly and accounted for by thread; interleavings are counted.",
  ["bytes written by OutboundPort"])

P("C20", "Every request gets exactly one reply, every callback runs exactly once",
  "A request from the client gets one reply with its id: the method's result, its error, or that the method is unknown or its "
  "parameters are invalid. The reply to a call of the server reaches that call's callback, once; calls that are forgotten "
  "fail, and unknown, late or repeated replies change nothing.",
  ["histories", "schedules"], "all histories of calls in both directions, replies in any order, from any thread",
  "Replies race with new calls, and errors with results; no test covers the bookkeeping.",
  [LS + "LSPServer.cpp", LI + "LSPServer.h", LI + "LSPBinder.h"],
  [("PendingCalls", LS + "LSPServer.cpp"), ("parseParam and handlers", LI + "LSPBinder.h")],
  "random sessions on a real server, exactly-once monitor, TSan and ASan",
  "A client model predicts each reply and each callback's outcome; sessions hold up to 400 open calls.",
  ["messages of LSPServer", "outcomes of callbacks"], [("PendingCalls", "callbacks by id, at most 100", LI + "LSPServer.h")])

P("C21", "Protocol messages are decoded and encoded without loss",
  "Every valid LSP message that nixd reads is decoded to what it says, defaults included, and every one that it writes "
  "says all that its value holds. A message without a mandatory member is refused; nothing makes decoding fail otherwise.",
  ["inputs"], "all messages of the protocol's types, valid, partial or malformed",
  "A field that gets lost disables a feature silently, in some editors only.",
  [LS + "Protocol.cpp", LI + "Protocol.h"], [("fromJSON, toJSON", LS + "Protocol.cpp")],
  "generated messages of 41 types, field-by-field round-trip monitor",
  LSPS + "the expected contents are written from the LSP's specification; damaged messages only have to be survived.",
  ["fromJSON", "toJSON"])

# ---------------------------------------------------------------- nixd
NC = "nixd/lib/Controller/"
NIXD = "The real nixd (ASan+UBSan, asserts on) is driven over stdio; workers are a stand-in for nixd-attrset-eval, since Nix is not here. "

P("C22", "Every request on any document gets a well-formed reply",
  "While documents are opened, typed in, replaced and closed, valid or not, each request gets one reply: a result of the "
  "shape that the LSP prescribes, with ranges inside of the document and edits that do not overlap, or an error. "
  "Nothing ends the server, hangs it, or breaks memory safety.",
  ["inputs", "histories"], "all documents, positions and orders of requests, well-formed or not",
  "The repository's server tests are lit files which need Nix and exercise single requests; the crashes come from "
  "combinations of odd documents, odd positions and changes under way.",
  [NC + "Support.cpp", NC + "LifeTime.cpp", NC + "TextDocumentSync.cpp", NC + "AST.cpp", NC + "Convert.cpp", "nixd/tools/nixd.cpp"],
  [("CheckDefault and the publishing of translation units", NC + "Support.cpp"), ("positions and ranges", NC + "Convert.cpp")],
  "random editing sessions on the real server under sanitizers, reply shape monitor",
  NIXD + "every reply on a document that did not change is checked against the LSP's shape and the document's text.",
  ["replies of all methods", "publishDiagnostics", "exit code and stderr"])

P("C23", "Published diagnostics are those of the latest text, as configured",
  "Whenever the server has caught up, the diagnostics last published for a document are the ones that the library reports "
  "for its latest text, at the same characters, without those that the user suppressed, and carry the version of that text. "
  "Closed documents have none.",
  ["inputs", "histories"], "all documents, edits, settings of suppressed diagnostics, and ways of interleaving them",
  "Which texts get edited how, and in which order updates overlap, is up to the user; lit tests publish a few fixed texts.",
  [NC + "Diagnostics.cpp", NC + "TextDocumentSync.cpp", NC + "Configuration.cpp", NC + "LifeTime.cpp", NC + "Convert.cpp"],
  [("publishDiagnostics and isSuppressed", NC + "Diagnostics.cpp"), ("updateSuppressed", NC + "Configuration.cpp"),
   ("toLSPRange", NC + "Convert.cpp")],
  "editing sessions on the real server, published diagnostics against the library's",
  NIXD + "the client keeps its own copy of the text; overlapping changes of the settings are not judged.",
  ["textDocument/publishDiagnostics"])

P("C25", "Definition, references and highlights agree with Nix's scoping",
  "From any use of a variable, its definition is where Nix binds it: the parameter, attribute, inherit or with that it "
  "means, or nothing in this document. References are exactly the uses of that binding, and highlights are these uses and "
  "the binding itself.",
  ["inputs"], "all valid programs, all occurrences of variables, any column within them",
  "Shadowing, inherit, nested attributes and with combine without limit; lit tests sample a few positions.",
  [NC + "Definition.cpp", NC + "FindReferences.cpp", NC + "DocumentHighlight.cpp", "libnixf/src/Sema/VariableLookup.cpp"],
  [("findDefinition", NC + "Definition.cpp"), ("VariableLookupAnalysis", "libnixf/src/Sema/VariableLookup.cpp"),
   ("Node::descend", "libnixf/include/nixf/Basic/Nodes/Basic.h")],
  "generated programs, reference resolver as monitor of the replies",
  NIXD + "a resolver written from Nix's rules says which occurrences belong together.",
  ["textDocument/definition", "textDocument/references", "textDocument/documentHighlight"])

P("C26", "Renaming a variable keeps the meaning of the program",
  "The edits of a rename change exactly the occurrences of one binding, also in inherit, quoted names and nested attributes, "
  "and give a program that means the same, unless the new name collides with another one. "
  "Names that cannot be written, and things that cannot be renamed, are refused.",
  ["inputs", "programs"], "all valid programs, occurrences of variables and new names",
  "A rename that is wrong silently changes what a configuration evaluates to; it depends on all the ways in which "
  "bindings are introduced and shadowed, of which lit tests have a few.",
  [NC + "Rename.cpp", NC + "FindReferences.cpp", NC + "Definition.cpp"],
  [("rename and prepareRename", NC + "Rename.cpp"), ("references", NC + "FindReferences.cpp")],
  "generated programs, denotational comparison of before and after",
  NIXD + "both programs are evaluated to a structure in which bound names are replaced by their binders; formals and names "
  "of recursive attribute sets are renamed by design.",
  ["textDocument/rename", "textDocument/prepareRename"])

CA = NC + "CodeActions/"

P("C27", "Code actions on attribute sets and with keep what the program means",
  "Quoting and unquoting names, flattening and packing attribute sets, converting between inherit and bindings, and turning "
  "with into let inherit give valid programs that evaluate to the same, with only the intended text changed. "
  "They are offered wherever their documentation says so.",
  ["inputs", "programs"], "all valid programs and selections",
  "An edit that looks right on the samples of a lit test loses a rec, a comment line or a shadowed name elsewhere; the "
  "programs around the cursor are unlimited.",
  [CA + "PackAttrs.cpp", CA + "FlattenAttrs.cpp", CA + "AttrName.cpp", CA + "ConvertToInherit.cpp", CA + "InheritToBinding.cpp",
   CA + "WithToLet.cpp", NC + "CodeAction.cpp"],
  [("the code actions", NC + "CodeAction.cpp"), ("pack", CA + "PackAttrs.cpp"), ("with to let", CA + "WithToLet.cpp")],
  "generated programs, edits applied and both programs compared by what they denote",
  NIXD + "x = x in a rec set becoming inherit x is by design; what a cursor between two tokens points at is not judged.",
  ["textDocument/codeAction"])

P("C28", "Rewriting a string literal keeps its value",
  "The code actions between double-quoted and indented strings replace exactly the literal, by one of the other kind with "
  "the same value and the same interpolations, in any surroundings. They are offered inside of every string that is not "
  "an attribute name.",
  ["inputs", "programs"], "all string literals of valid programs, and what stands next to them",
  "Escapes, indentation, carriage returns, dollars before interpolations and neighbouring quotes combine; a lit test has "
  "a handful of them.",
  [CA + "RewriteString.cpp", CA + "Utils.cpp", NC + "CodeAction.cpp"],
  [("stripIndentation, escapeForIndentedString", CA + "RewriteString.cpp"), ("escapeNixString", CA + "Utils.cpp")],
  "generated literals, value monitor that computes strings as Nix does",
  NIXD + "the value of indented strings is computed by a model of Nix's lexer and parser.",
  ["textDocument/codeAction"])

P("C29", "Converting JSON to Nix gives an expression of the same value",
  "Selected text that is a non-empty JSON array or object is converted to a Nix expression of exactly that value, which can "
  "be parsed in any place. What Nix cannot represent, is too deep or too wide, or is no JSON, is not offered.",
  ["inputs"], "all JSON texts and selections",
  "Numbers, escapes, keys and nesting of JSON are unbounded; the lit tests have plain ones.",
  [CA + "JsonToNix.cpp", CA + "Utils.cpp"],
  [("jsonToNix", CA + "JsonToNix.cpp"), ("quoteNixAttrKey", CA + "Utils.cpp")],
  "generated JSON, round-trip monitor that reads the Nix text back",
  NIXD + "numbers are compared by value; texts that only a lenient JSON reader takes are not judged.",
  ["textDocument/codeAction"])

P("C36", "Quick fixes, new formals and links to documentation are the right ones",
  "The quick fixes at a range are those of the diagnostics there, with their edits at the right characters. Adding an "
  "undefined variable to the formals only binds that variable in that function. A selection from lib leads to the "
  "documentation of that very function.",
  ["inputs", "programs"], "all documents, valid or not, and all ranges",
  "Diagnostics overlap, are next to non-ASCII text, and come from broken programs; formals have defaults, comments, "
  "ellipsis and trailing commas in all orders.",
  [NC + "CodeAction.cpp", CA + "AddToFormals.cpp", CA + "NoogleDoc.cpp", NC + "Convert.cpp"],
  [("onCodeAction, onCodeActionResolve", NC + "CodeAction.cpp"), ("addToFormalsAction", CA + "AddToFormals.cpp")],
  "generated documents, actions against the library's fixes and a denotational comparison",
  NIXD + "ranges that only touch a diagnostic may or may not get its fixes.",
  ["textDocument/codeAction", "codeAction/resolve", "window/showDocument"])

P("C37", "Extracting an expression to a file keeps what the program means",
  "The new file is a valid program that is given exactly the variables that it needs, and importing it where the expression "
  "was evaluates to the same. It has a name that is not in use next to the edited document, whatever the directory is called.",
  ["inputs", "programs"], "all expressions of valid programs, directories and files that exist",
  "Which variables are free depends on with, inherit, shadowing and merged attribute sets; the lit tests look at the title "
  "of four samples.",
  [CA + "ExtractToFile.cpp", NC + "CodeAction.cpp"],
  [("collectFreeVariables", CA + "ExtractToFile.cpp"), ("makeUniqueFilename", CA + "ExtractToFile.cpp")],
  "generated programs, the new file put back and compared by what both denote",
  NIXD + "the file is not created by the server, its edit is applied by the check.",
  ["textDocument/codeAction"])

P("C24", "Overlapping messages, replies and configurations do not race",
  "Whatever requests, document changes, worker replies and configuration changes overlap, no two threads of the server "
  "access the same memory without synchronization, no lock order can deadlock, and every request is replied to.",
  ["schedules", "histories"], "all interleavings of the threads of the server",
  "Each lit test sends one request after another; nothing of the server's thread pool runs under the unit tests.",
  [NC + "NixTU.cpp", "nixd/lib/Controller/Support.cpp", NC + "Format.cpp", NC + "Configuration.cpp", NC + "LifeTime.cpp",
   "nixd/lspserver/src/Connection.cpp", "nixd/lspserver/src/LSPServer.cpp", "nixd/lspserver/src/DraftStore.cpp"],
  [("getTU, actOnDocumentAdd", NC + "Support.cpp"), ("ConfigLock", NC + "Configuration.cpp"),
   ("PendingCallsLock", "nixd/lspserver/src/LSPServer.cpp")],
  "ThreadSanitizer, sessions of overlapping requests with injected delays at locks",
  "TSan build of the real server, with delays at locks and condition variables; schedules are sampled, and the order of "
  "replies is what distinguishes them.",
  ["textDocument/*", "workspace/configuration"])

P("C30", "Symbols, folds and semantic tokens describe the document",
  "documentSymbol lists exactly the attributes, bindings, lambdas and anonymous values of the program, nested and ranged as "
  "they are. foldingRange gives exactly the multi-line constructs, and semanticTokens exactly the names, in order, without "
  "overlap, of the right type.",
  ["inputs", "programs"], "all programs, and their edits",
  "Merged and nested attribute paths, dynamic names, non-ASCII text and broken documents change what the lists must "
  "contain; the lit tests have one small program per request.",
  [NC + "DocumentSymbol.cpp", NC + "FoldingRange.cpp", NC + "SemanticTokens.cpp", NC + "Convert.cpp"],
  [("onDocumentSymbol", NC + "DocumentSymbol.cpp"), ("onFoldingRange", NC + "FoldingRange.cpp"),
   ("onSemanticTokens", NC + "SemanticTokens.cpp")],
  "generated programs, replies compared with a model over an independent parse",
  NIXD + "tokens of variables within inherit (e), interpolations and dynamic names are optional.",
  ["textDocument/documentSymbol", "textDocument/foldingRange", "textDocument/semanticTokens/full"])

P("C31", "Path literals link to the files that they name",
  "documentLink gives exactly the path literals without interpolation that name existing files, at their characters, and "
  "definition at such a literal leads to the same file, or to default.nix of a directory.",
  ["inputs", "programs"], "all path literals, and all layouts of the directories that they lead through",
  "Dots, symbolic links, directories and files that do not exist, names that need quoting in URIs; the lit test has two "
  "paths.",
  [NC + "DocumentLink.cpp", NC + "Definition.cpp", NC + "PathResolve.h"],
  [("resolveExprPath", NC + "PathResolve.h"), ("onDocumentLink", NC + "DocumentLink.cpp")],
  "generated file trees and programs, links compared with the file system",
  NIXD + "paths from the home directory, and .. behind a symbolic link, are not judged.",
  ["textDocument/documentLink", "textDocument/definition"])

P("C33", "The configuration in force is the one that was asked for last",
  "The server behaves as the initial configuration says, and after each change as the client's reply to the last "
  "workspace/configuration says, in whatever order the replies arrive. Invalid replies change nothing and break nothing.",
  ["histories", "schedules", "inputs"], "all sequences of changes and replies, valid or not, overlapping with requests",
  "The lit tests send one valid configuration and look at one effect of it.",
  [NC + "Configuration.cpp", NC + "LifeTime.cpp", NC + "Format.cpp", NC + "Diagnostics.cpp", "nixd/include/nixd/Controller/Configuration.h"],
  [("fetchConfig, updateConfig", NC + "Configuration.cpp"), ("evalExprWithProgress", NC + "LifeTime.cpp")],
  "histories of configurations against a model of what is in force",
  NIXD + "whether option sets that were removed from the configuration stay alive is not judged.",
  ["workspace/configuration", "textDocument/publishDiagnostics", "textDocument/formatting", "textDocument/completion"])

P("C34", "Formatting gives exactly what the formatter wrote, or an error",
  "The edits turn the text the client has into what the configured command wrote for that text. If it cannot be run, fails, "
  "is killed, or writes what is not UTF-8, the request fails, and the server neither hangs, dies nor leaks processes or "
  "descriptors.",
  ["inputs", "schedules"], "all documents, and all behaviours of the command",
  "The lit test runs one formatter that exits at once; pipes fill, commands die early, write slowly, or do not read.",
  [NC + "Format.cpp", "nixd/lib/Support/ForkPiped.cpp"],
  [("onFormat", NC + "Format.cpp"), ("forkPiped", "nixd/lib/Support/ForkPiped.cpp")],
  "real server with a hostile formatter, edits applied and compared, child monitor",
  NIXD + "a document that changes meanwhile accepts any version since the request.",
  ["textDocument/formatting"])

P("C38", "Workers' knowledge of options and packages reaches the editor correctly",
  "Completion, resolve, hover, definition and inlay hints at a name that nixpkgs or an option set knows give what the worker "
  "says of the attribute path that the program's scoping gives the cursor, and nothing for names bound otherwise. Items are "
  "those with the typed prefix, inserted as valid Nix, marked incomplete if cut off.",
  ["inputs", "programs"], "all programs, cursors, and trees of attributes and options",
  "Selections, with, lambda formals, option definitions and quoted names each give the path differently; the lit tests have "
  "one cursor each and mostly need nixpkgs.",
  [NC + "Completion.cpp", NC + "Hover.cpp", NC + "Definition.cpp", NC + "InlayHints.cpp", NC + "AST.cpp"],
  [("VLACompletionProvider, NixpkgsCompletionProvider, OptionCompletionProvider", NC + "Completion.cpp"),
   ("NixpkgsHoverProvider, OptionsHoverProvider", NC + "Hover.cpp"), ("getScopeSelector, getSelector, findAttrPath", NC + "AST.cpp")],
  "generated modules with fake workers, replies compared with a model of scope and tree",
  NIXD + "the evaluators are replaced by programs that answer from a given tree.",
  ["textDocument/completion", "completionItem/resolve", "textDocument/hover", "textDocument/definition", "textDocument/inlayHint"])

P("C32", "Broken workers break nothing but their own answers",
  "If an evaluator dies, was never there, or sends errors, results of the wrong type or other junk, every request is still "
  "replied, with what the remaining workers and the program itself give. The server neither crashes nor fails requests that "
  "do not need the worker, and remaining workers take new configurations.",
  ["histories", "inputs"], "all subsets of broken workers, all points of dying, all malformed answers",
  "The lit tests run workers that are there and well; what happens without them depends on when exactly they fail.",
  ["nixd/lib/Eval/AttrSetClient.cpp", "nixd/lspserver/src/LSPServer.cpp", NC + "Completion.cpp", NC + "Hover.cpp", NC + "Definition.cpp",
   NC + "InlayHints.cpp", NC + "Support.cpp"],
  [("AttrSetClientProc::client", "nixd/lib/Eval/AttrSetClient.cpp"), ("failPendingCalls", "nixd/lspserver/src/LSPServer.cpp"),
   ("optionClients", "nixd/include/nixd/Controller/Controller.h")],
  "fault injection in workers, replies compared with servers whose workers only lack that answer",
  NIXD + "whether workers that are alive but silent delay other requests is not judged.",
  ["textDocument/*", "completionItem/resolve"])

P("C35", "The server ends when it is told to, or the editor is gone, and leaves nothing",
  "After exit, the end of the input, or the death of the editor, the server ends soon, with status 0 after shutdown, whatever "
  "its workers and formatters do. Requests that came before are replied, and no memory error happens and no process remains.",
  ["schedules", "histories"], "all ways of ending, at any point of pending requests, evaluations and formatting",
  "The lit tests end with exit after the last reply; editors crash, pipes break, and workers hang or die at the same time.",
  ["nixd/lspserver/src/Connection.cpp", "nixd/lspserver/src/LSPServer.cpp", NC + "LifeTime.cpp", "nixd/tools/nixd.cpp",
   "nixd/include/nixd/Controller/Controller.h"],
  [("waiting for input, ClientProcessID", "nixd/lspserver/src/Connection.cpp"), ("failPendingCalls", "nixd/lspserver/src/LSPServer.cpp"),
   ("stopWorkers, the destructor of Controller", "nixd/include/nixd/Controller/Controller.h")],
  "real server ended in many ways amid work, monitors of exit status, replies, processes and ASan",
  NIXD + "workers that hang for ever are not expected to end; the status of exit without shutdown is not judged.",
  ["shutdown", "exit"])

P("C39", "The evaluator answers queries as the evaluated expression is",
  "nixd-attrset-eval gives, for each attribute path, the names below it and the metadata, options, types and positions that "
  "the evaluated expression has there, and an error where evaluation fails. An answer does not depend on earlier queries, and "
  "a list of names is cut only so that nixd can tell.",
  ["inputs", "histories"], "all values that Nix expressions evaluate to, all attribute paths, all orders of queries",
  "No unit test links the evaluator; the few lit tests that do need nixpkgs and ask one well-formed question of it.",
  ["nixd/lib/Eval/AttrSetProvider.cpp", "nixd/tools/nixd-attrset-eval.cpp", "libnixt/lib/Value.cpp"],
  [("AttrSetProvider", "nixd/lib/Eval/AttrSetProvider.cpp"), ("selectOptions, optionAttrNames", "libnixt/lib/Value.cpp")],
  "real evaluator under ASan+UBSan on a stand-in for Nix's libraries, replies compared with a model of the value",
  "clang -fsanitize=address,undefined on nixd/lib/Eval/AttrSetProvider.cpp, libnixt and lspserver; Nix's own C++ libraries are not "
  "installed here, so values, laziness and failures come from harness/fakenix, which follows the interface and the "
  "semantics of Nix 2.24; evaluation of the Nix language is not exercised.",
  ["attrset/evalExpr", "attrset/attrpathInfo", "attrset/attrpathComplete", "attrset/optionInfo", "attrset/optionComplete"])

P("C40", "What the server announces and what it does agree",
  "Whatever a client can do, and with any flags, initialize succeeds; every feature that its reply announces is answered, in "
  "the announced form (kinds of actions, legend of tokens, incremental changes, resolving), and other requests are refused "
  "as unknown. Progress, configuration and snippets go only to clients that know them.",
  ["inputs", "configurations"], "all combinations of client capabilities and flags of the server",
  "The lit tests initialize with one or two fixed sets of capabilities, and compare the announcement with a fixed text.",
  [NC + "LifeTime.cpp", NC + "Support.cpp", "nixd/lspserver/src/Protocol.cpp", "nixd/lspserver/src/LSPServer.cpp"],
  [("onInitialize", NC + "LifeTime.cpp"), ("registration of methods", NC + "Support.cpp"),
   ("fromJSON of ClientCapabilities", "nixd/lspserver/src/Protocol.cpp")],
  "real server initialized with generated capabilities and flags, monitor of its announcement against its behaviour",
  NIXD + "hierarchical symbols, file operations and showDocument are used whatever the client declares (nixd's own tests expect it).",
  ["initialize", "textDocument/*", "workspace/configuration", "window/workDoneProgress/create"])
