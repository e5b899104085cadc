#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=(hook or None))))

J="internal/jsonrpc2/jsonrpc2.go"; ST="internal/jsonrpc2/stream.go"; SRV="internal/lsp/protocol/server.go"; PR="internal/lsp/protocol/protocol.go"
WS="internal/lsp/workspaceStore.go"; SY="internal/lsp/sync.go"; GE="internal/lsp/general.go"; STO="analysis/store.go"; DOC="analysis/document.go"
RI="analysis/referenceIndex.go"; CI="analysis/completionIndex.go"; Q="analysis/query.go"; IT="analysis/importTable.go"

p("C01","Every request gets exactly one reply, carrying its own id",
 "Whatever requests, notifications and cancellations a client sends, and however the server's internal tasks are interleaved, every request is answered exactly once with the id it was sent with (a result or an error), also when it is cancelled, unknown, malformed in its parameters, or its handler forgets to reply. A notification is never answered.",
 ["schedules","inputs"],"all interleavings (up to a preemption bound) of short scripts of requests, notifications and cancels with colliding, string and numeric ids",
 "The jsonrpc2 tests run one echo exchange under whatever schedule the Go runtime picks; nothing cancels, omits a reply or interleaves.",
 [J,"internal/jsonrpc2/handler.go",SRV,PR],[("request state machine and reply guard",J+" Reply/Run"),("cancel handler",PR+" canceller")],
 [("handling map","requests being handled, by id",J)],["the byte stream written by the server"])
p("C02","Messages take effect in arrival order; replies reach the right caller",
 "Incoming messages are handled one at a time in the order they arrived: a later message starts only after the earlier one's handler has replied, returned or declared itself parallel. A response to a request the server itself made is delivered to exactly the call that made it, a cancelled call returns, and a response nobody waits for, a duplicate, a late one or an unparsable message never stops the connection from processing further messages.",
 ["schedules","fault_sequences"],"all interleavings of handlers, outgoing calls, their cancellation and incoming responses (right, wrong, duplicate, late)",
 "Ordering and wedging depend on the schedule and on peer behaviour that no test produces.",
 [J,"internal/jsonrpc2/handler.go"],[("nextRequest hand-over chain",J+" Run"),("pending-call table",J+" Call/Run")],
 [("pending","response channels by id",J)],["handler start/end events","results of outgoing calls"])
p("C03","Message framing survives any split of the byte stream",
 "However the transport cuts the incoming bytes into reads, exactly the sent message bodies come out, in order, and a truncated or malformed frame yields an error and never a wrong or partial message. Messages written concurrently come out as whole frames whose declared length is their exact byte length.",
 ["inputs","schedules"],"all two- and three-way splits of short multi-message streams, all truncation points, header variants, and all interleavings of two or three concurrent writers",
 "Tests use in-memory pipes that deliver whole messages and one writer at a time.",
 [ST],[("header parsing and body read",ST+" headerStream.Read"),("serialised writes",ST+" headerStream.Write")],[],["Stream.Read results and the bytes written"])
p("C04","No message can crash or wedge the server; the lifecycle is enforced",
 "For every sequence of lifecycle messages and every method with missing, null, ill-typed or empty parameters, the server stays alive and goes on answering: initialization succeeds once and is refused afterwards, shutdown before initialization is refused, and every other request gets a reply. No order of these messages makes a later, valid request hang.",
 ["histories","inputs"],"all lifecycle sequences up to depth 5, and every protocol method crossed with a set of parameter shapes, each followed by probes",
 "There are no tests of the server package at all.",
 [SRV,PR,GE,"internal/lsp/server.go"],[("method dispatch and parameter decoding",SRV),("server state under lock",GE)],
 [("state","lifecycle state","internal/lsp/server.go")],["wire replies"])
p("C05","Incremental edits leave exactly the text the editor has",
 "After any sequence of full or incremental content changes, one or several per notification, the server's copy of a document is byte for byte the text obtained by applying those changes in order to the original text, with lines ended by LF, CRLF or CR and positions beyond a line's or the document's end clamped.",
 ["histories","inputs"],"all edit sequences up to a depth over all texts up to a length from an alphabet with letters, LF, CR, and multi-byte characters",
 "The existing tests replay a few fixed edits on LF text.",
 [DOC,WS],[("splice and line-table update",DOC+" ApplyChanges"),("line table",DOC+" calculateLineOffsets")],
 [("text, lineOffsets","document text and start offset of each line",DOC)],["Document.GetText","Document.OffsetAtPosition"])
p("C06","Positions and text offsets agree, by the protocol's definition",
 "For every document text, every position a client can send denotes the byte offset the protocol defines for it (line breaks LF, CRLF, CR; characters in UTF-16 units), and every location the server reports denotes, by the same rules, exactly the text of the symbol it is reported for. Both remain true after any sequence of edits.",
 ["inputs","histories"],"all texts up to a length over an alphabet with ASCII, CR, LF, 2-, 3- and 4-byte characters, all positions; all prefixes of such text before a declared name",
 "Test files are ASCII with LF line ends; the mapping is only exercised at a few positions.",
 [DOC],[("offset to position",DOC+" positionAt"),("position to offset",DOC+" OffsetAtPosition")],[("lineOffsets","start offset of each line",DOC)],
 ["Document.OffsetAtPosition","symbol locations"])
p("C07","Analysis after edits equals analysis of the final text",
 "The symbols, types, references, imports and diagnostics known for an edited document are those obtained by analysing its final text from scratch: nothing of an earlier version survives and nothing is lost, for any sequence of edits.",
 ["histories"],"all pairs and triples of document versions from a pool of small PHP texts, reached by every minimal splice or full replacement, grouped in every way into notifications",
 "Tests analyse each text once.",
 [DOC,WS,"analysis/variable.go","analysis/symbolBlock.go"],[("fresh copy for every change",DOC+" CloneForMutate"),("reload after change",DOC+" ApplyChanges/Load")],
 [("hasChanges, rootNode, tables","cached analysis of the text",DOC)],["all symbols, diagnostics and query results of the document"])
p("C08","The index always equals the indexing of the current file contents",
 "After any history of indexing, editing, re-opening, closing and deleting files, every lookup by name, search, member listing and reference query answers exactly as a store freshly built from the current contents would: no stale entry, no missing entry, no duplicate.",
 ["histories"],"all operation histories up to a depth over a few files and several versions of each file that add, drop, move and rename declarations and collide across files",
 "Tests index a fixed set of files once and search; none compares an updated index with a fresh one.",
 [STO,CI,RI],[("per-document symbol and completion deletors",STO+" SyncDocument"),("document removal",STO+" DeleteDocument"),("reference entries",RI)],
 [("db, comDB, greb, refIndex","symbols, completion words, symbols per document, references",STO)],["all Get*/Search*/GetReferences results"])
p("C09","Removing a file or directory removes that and nothing else",
 "Deleting a file removes every symbol, completion entry and reference that came only from it; deleting a directory does so for every file below it. Files whose names merely share a prefix with what was deleted keep all their entries.",
 ["histories","inputs"],"all choices of deleted path over directory trees whose file and directory names are prefixes of one another, before and after restart",
 "No test deletes a directory, and none has names that are prefixes of each other.",
 [STO,WS],[("prefix scan over documents",STO+" DeleteFolder"),("deletion worker",WS+" newDeletor/removeDocument")],
 [("document collection","hash per indexed document",STO)],["lookups for the remaining and the removed files"])
p("C10","Workspace folders are independent of each other",
 "With several workspace folders open, each file belongs to the folder that contains it (the innermost one), whatever the order in which folders were added and whatever their names share as prefixes; queries, edits and deletions in one folder never read or change another, and removing a folder and adding it again at any time leaves it working.",
 ["histories","configurations"],"all sequences of adding/removing folders from a set with prefix-sharing and nested names, with file operations in between",
 "There is no test with more than one folder.",
 [WS,"util/uri.go"],[("folder lookup",WS+" getStore"),("add/remove folder",WS+" addView/removeView"),("data directory naming","util/uri.go GetURIID")],
 [("stores","open folders",WS)],["wire replies per folder"])
p("C11","A restart loses nothing and re-indexes exactly what changed",
 "After closing and reopening, the server answers every query as before without re-reading unchanged files, and once indexing of the folder has finished, files changed, added or removed while it was down are reflected exactly.",
 ["histories"],"all combinations of per-file fate (unchanged, edited, deleted, new) across one or two restarts",
 "Tests never reopen a store.",
 [STO,RI],[("hash comparison",STO+" CompareAndIndexDocument"),("sweep of unseen documents",STO+" PrepareForIndexing/FinishIndexing"),("reloading of reference filters",RI+" newReferenceIndex")],
 [("document collection","hash per indexed document",STO)],["query results after reopen"])
p("C12","A crash at any write leaves an index that re-indexing repairs",
 "If the process dies between any two writes to its storage while indexing, updating or deleting files, the next start opens the storage and, after indexing the folder as it is then, answers exactly as a fresh index would; in particular a file is never considered up to date while some of its entries are missing.",
 ["crash_points","histories"],"every prefix of the sequence of storage writes of short index/update/delete histories",
 "Crashes are never injected by tests.",
 [STO,"analysis/storage/goleveldb.go"],[("order of writes in a sync",STO+" SyncDocument"),("batch write","analysis/storage/goleveldb.go WriteBatch")],
 [("db, comDB, greb","three separate stores updated by one sync",STO)],["query results after recovery"],"A seam to stop the process between two storage writes.")
p("C13","Edits and background indexing never overwrite newer content with older",
 "However background indexing of a file is interleaved with opening, editing and closing it, after everything has settled the index describes the newest text (the editor's while the file is open, the file's otherwise), an open document keeps its unsaved edits, and no two tasks mutate the same document at once.",
 ["schedules"],"all interleavings up to a preemption bound of an indexing task with open/change/close of the same document",
 "Race-dependent; tests are single-threaded.",
 [STO,WS,DOC],[("document cache and lock",STO+" OpenDocument/CompareAndIndexDocument/CloseDocument"),("release of closed documents",STO+" releaseDocIfNotOpen")],
 [("documents","documents in memory",STO)],["final query results"])
p("C14","Folder indexing visits every PHP file once, then finishes",
 "For every schedule, indexing a folder indexes every PHP file found below it, keeps none that is gone, terminates, and only then drops entries of files it did not see; file-change events for created, changed and deleted files and directories are all applied, and no combination of them blocks the server.",
 ["schedules","inputs"],"all interleavings up to a preemption bound of walker, index workers, delete worker and file-change events over small trees including names that need escaping",
 "No test covers the workers.",
 [WS,SY],[("worker pool and job channels",WS+" newCreator/newDeletor/indexFolder"),("watched files",SY+" didChangeWatchedFiles")],
 [("createJobs, deleteJobs","job queues",WS)],["set of indexed documents","termination"])
p("C15","Both storage engines behave like one sorted map",
 "For every sequence of puts, deletes, batches, clears and prefix scans, including stopping a scan early, the in-memory and the on-disk engine return exactly what a sorted map would, do not share memory with their callers, and the on-disk one returns the same after being reopened.",
 ["histories"],"all operation sequences up to a depth over keys that are prefixes of each other, empty values and binary bytes",
 "Storage tests check encoding of a few values only.",
 ["analysis/storage/main.go","analysis/storage/memory.go","analysis/storage/goleveldb.go"],[("memory engine","analysis/storage/memory.go"),("leveldb engine","analysis/storage/goleveldb.go")],[],["DB interface"])
p("C16","What is stored about a declaration is what the source declares",
 "A declaration read back from the index has the same name, location, scope, modifiers, parameters with types and defaults, types, deprecation, and documentation that analysing its source yields. Every value written by the storage encoding is read back equal, and in the same order.",
 ["inputs","programs"],"all declarations generated from a small grammar over every optional part; all short sequences of encodable values including boundary numbers",
 "Snapshot tests look at analysed symbols before storage; few are read back.",
 ["analysis/storage/encoding.go","analysis/class.go","analysis/method.go","analysis/function.go","analysis/property.go","analysis/classConst.go","analysis/interface.go","analysis/parameter.go","analysis/trait.go"],
 [("encoder/decoder pairs","analysis/storage/encoding.go"),("Serialise/Read of every symbol","analysis/*.go")],[],["Get* results"])
p("C17","Find references returns every reference and nothing else",
 "For any set of indexed files, asking for the references at the name of a class, interface, trait or function (where it is declared or anywhere it is used, at any position of the name) returns each place in the indexed files which, by PHP's rules of namespaces and imports, refers to it, exactly once, with its exact range, and no place that refers to something else; an unqualified call refers to the global function only when the namespace has none. Methods, properties and class constants are identified by their kind and name, whatever they are accessed on: asking at one returns each place that declares or accesses a member of that kind with that name, and no other. What is returned depends only on the current contents of the files, for any history of indexing, re-indexing, deletion and restarts: the pre-filter used to skip files never hides a place.",
 ["histories","inputs"],"all small programs composed of use declarations, written names and places for names; all pairs of forms that declare or access members; all numbers of references in a file and all short histories of two files",
 "The reference test looks at one fixed file set.",
 [RI,"analysis/filter/filter.go","internal/lsp/reference.go",STO],[("filter","analysis/filter/filter.go"),("entry search",RI+" search"),("what is under the cursor","internal/lsp/reference.go references"),("names of symbols",STO+" SymToRefs")],[("entries","filter per document",RI)],["GetReferences","textDocument/references"])
p("C18","Completion search finds every matching symbol and reports truncation",
 "Searching with any prefix of any word of a symbol's name (words split at case changes, underscores, digits and separators) finds the symbol, whatever the letter case; nothing is returned twice; results satisfy every requested restriction, never exceed the limit, and the result is reported as incomplete exactly when the limit cut it short.",
 ["inputs"],"all identifiers up to a length over an alphabet of cases, digits and underscores; all word prefixes; all limits around the number of matches",
 "The tests search a few names with one option set.",
 [CI,"analysis/wordtokeniser/index.go","analysis/wordtokeniser/casing.go",STO],[("word splitting","analysis/wordtokeniser/casing.go"),("index scan",CI+" searchCompletions"),("limits",STO+" SearchOptions")],[],["Search* results"])
p("C19","Names resolve as PHP resolves them",
 "For every combination of namespace, use declarations (plain, aliased, grouped, function, const) and written name (unqualified, qualified, fully qualified, namespace-relative), the fully qualified name assigned to a class, function or constant is the one PHP's name-resolution rules give, with the global fallback for unqualified functions and constants, letter case treated as PHP does.",
 ["programs"],"all programs with up to two use declarations from a pool, with or without namespace blocks, crossed with all written forms",
 "Tests check a few fixed programs.",
 [IT,"analysis/use.go","analysis/namespace.go","analysis/symbolType.go"],[("resolution",IT)],[],["GetClassReferenceFQN / FunctionPossibleFQNs / symbol types / definition"])
p("C20","An inserted use declaration makes the short name mean the symbol",
 "For any valid document and any class, interface, trait, function or constant offered by completion, applying the completion item (its text and its additional edits, such as an inserted use declaration) yields a document that is still valid, in which the inserted name means exactly that symbol, every other name that means an existing symbol still means it, and the rest of the text is unchanged.",
 ["programs"],"all combinations of document prologue (open tag, declare, namespace, existing uses, comments, line-end style) and symbol to import",
 "Tests cover a few prologues with expected text.",
 ["analysis/insertUse.go",IT,"internal/lsp/completion.go"],[("edit construction","analysis/insertUse.go"),("choice of name to insert",IT+" ResolveToQualified")],[],["completion items with additional edits"])
p("C21","Member lookup follows PHP inheritance and visibility, and always ends",
 "For any class hierarchy, also a cyclic or self-extending one, looking up a method, property or class constant terminates and yields exactly the members PHP would: own before traits before parents before interfaces, nearest override first, private members only inside their class, protected ones only inside the hierarchy, static and instance access kept apart. Asking twice gives the same answer.",
 ["programs"],"all hierarchies of up to three classes, interfaces and traits with every extends/implements/use relation including cycles, and every member placement and visibility",
 "Tests use fixed acyclic hierarchies.",
 [Q,"internal/lsp/completion.go"],[("inheritance walk and cache",Q)],[("query caches","members per class",Q)],["Query results"])
p("C22","No document and no cursor position makes the server crash or hang",
 "For every document text, valid PHP or not, opening, editing and analysing it and requesting completion, hover, definition, references, rename, signature help and symbols at every position terminates without crashing.",
 ["inputs"],"all token sequences up to a length over the PHP tokens the analyser distinguishes, every truncation of a set of complete programs, every position",
 "Tests use well-formed files.",
 ["analysis","internal/lsp"],[("analyser","analysis/symbol.go and constructors"),("request handlers","internal/lsp/*.go")],[],["absence of panic"])
p("C23","Rename edits exactly the occurrences of the renamed thing",
 "For any variable at any position of any document, renaming it edits every occurrence of that variable in its scope, each exactly once, and no other text, so that applying the edits gives the program with the variable consistently renamed.",
 ["programs"],"all small programs built from nested functions, closures, methods and assignments over two variable names, and every position",
 "There is no test of rename.",
 ["internal/lsp/reference.go","internal/lsp/symbol.go","analysis/variable.go"],[("variable tables","analysis/variable.go"),("rename handler","internal/lsp/symbol.go")],[],["WorkspaceEdit"])
p("C24","Signature help points at the argument under the cursor",
 "Inside a call of a known function, method or constructor, signature help shows that callable's parameters (those of each callable it can be, when the object is of several types) and marks as active the argument containing the cursor, counting only the call's own commas, for any nesting of calls, arrays and strings; outside any argument list it shows nothing.",
 ["programs"],"all argument lists up to a size over simple, nested-call, array, closure and string arguments, and every position",
 "The signature code of the server package has no tests.",
 ["internal/lsp/signature.go","analysis/argumentList.go",DOC],[("argument ranges","analysis/argumentList.go"),("handler","internal/lsp/signature.go")],[],["SignatureHelp"])
p("C25","Diagnostics describe the latest text of their document",
 "The last diagnostics published for a document are those of its latest text, and their ranges lie within it; an import or local variable is reported unused exactly when the text never uses it.",
 ["programs","histories"],"all small programs over declaration/use forms of imports and variables; all edit histories between them",
 "Tests check fixed files; publication is untested.",
 ["analysis/diagnostic.go","internal/lsp/diagnostics.go",IT,"analysis/variable.go"],[("unused imports",IT),("unused variables","analysis/variable.go"),("publication","internal/lsp/diagnostics.go")],[],["publishDiagnostics notifications"])
p("C26","File paths and URIs convert back and forth without loss",
 "For every file path, converting it to a URI and back gives the same path, the same file always has the same identity whether it is discovered by walking the folder, opened by the editor or reported by a file-change event, and different folders get different data directories.",
 ["inputs"],"all path components up to a length over letters, space, plus, percent, hash, question mark, colon and non-ASCII characters",
 "Tests convert a handful of paths.",
 ["util/uri.go","internal/lsp/protocol/fs.go",WS],[("conversion","util/uri.go"),("decoding in workers",WS)],[],["URIs of indexed documents"])
p("C27","The members of an expression are those of its type",
 "For every expression whose type the code tells (a parameter, an annotation, new, the documentation or declaration of a function, method, property or global, a catch clause, the elements of a documented array; through any chain of accesses, assignments, closures and imports), definition of a member after it leads to exactly the members its classes have, and completion offers exactly those: union types have the members of each, static is the class it is called on, arrays have none, variables of other scopes and of the same name have no influence. A variable assigned more than once has at least the type of the assignment before the place in the text.",
 ["inputs","histories"],"all expressions of a base (literals, calls, parameters, relative classes, globals, closures, catch, foreach) and at most two accesses to members, in each of some thirty ways to use a value, in one namespace and across two",
 "Tests resolve a handful of expressions.",
 ["analysis/expression.go","analysis/methodAccess.go","analysis/scopedMethodAccess.go","analysis/propertyAccess.go","analysis/variable.go","analysis/assignment.go","analysis/foreach.go","analysis/anonymousFunction.go","analysis/globalVariable.go","analysis/relativeScope.go","analysis/symbolType.go","internal/lsp/definition.go","internal/lsp/completion.go"],[("types of methods","analysis/methodAccess.go"),("relative types","analysis/relativeScope.go"),("types of variables","analysis/variable.go")],[],["definition and completion of members"])
p("C28","The outline of a document and the symbols of the workspace are its declarations",
 "For an open document, textDocument/documentSymbol lists every class, interface, trait (as a class), anonymous class, method, property, constant of a class, function, constant and define() written anywhere in the text (in any namespace, statement, closure, function body or expression), once, in the order of the text, with its kind and name, below the class or function whose body it is written in, and lists nothing else. Each range is a valid range of the document, in UTF-16 positions, that contains the name, goes to the end of the body, and lies within the declaration and the range of the symbol it is below; the selection lies within the range. workspace/symbol for the name of a named declaration answers it once with its kind, its qualified name (or its own name and, as container, the qualified name of its class) and a range of the same description, and no declaration that is not in the text any more.",
 ["inputs","histories"],"all documents of one or two declarations of a grammar, all pairs of members in each kind of class, each declaration in each statement and expression, two levels deep, in nine layouts",
 "Tests compare the symbols of a handful of files with snapshots.",
 ["internal/lsp/symbol.go","analysis/symbolBlock.go","analysis/document.go","analysis/class.go","analysis/interface.go","analysis/trait.go","analysis/method.go","analysis/property.go","analysis/classConst.go","analysis/const.go","analysis/define.go","analysis/function.go","analysis/functionCall.go","analysis/anonymousFunction.go"],[("listing","internal/lsp/symbol.go"),("where declarations are looked for","analysis/symbolBlock.go")],[],["documentSymbol","workspace/symbol"])
p("C29","Hover and completion show the declarations that are meant",
 "Hovering over any character of a reference to a class, interface, trait, constructor (new), function, constant, define, method, property or constant of a class shows exactly the declarations it leads to (by the names, imports, inheritance, types and visibility), never another one's, and nothing is shown for what is not declared; away from references nothing is shown but what the expression or statement there refers to. What is shown has the description, the name, the parameters in order with their types and defaults, the return type documented (or declared, of a function), the value of a constant, visibility and static, the parents and interfaces of a class, and the class a member is declared in; the range shown lies in the expression and contains the name. The types known of a variable are shown with it. Completion right after an arrow or double colon, or within the name after it, whatever is written around it, offers the members, each once, described by its own description and class.",
 ["inputs"],"all expressions and statements of a grammar of references in each place of a grammar of statements, in each of fourteen combinations of files, namespaces and imports, at every position; all signatures of at most two parameters; all completions in a list of unfinished texts",
 "Hover and completion documentation have no tests.",
 ["internal/lsp/hover.go","internal/lsp/symbolConverter.go","internal/lsp/completion.go","analysis/document.go","analysis/memberAccess.go","analysis/classTypeDesignator.go","analysis/constantAccess.go"],[("what is shown","internal/lsp/hover.go"),("how it is shown","internal/lsp/symbolConverter.go"),("what is offered","internal/lsp/completion.go")],[],["hover","completion"])
p("C30","Completion of a variable offers the variables of its scope",
 "Wherever a variable is being written (after the dollar or with some of its name, the statement finished or not), completion offers every variable that was given a value before in that scope and whose name starts with what is written: parameters, assigned, destructured, caught, looped over, static, global, shared with a closure by its use list, or of the scopes around an arrow function. Each is offered once, as it is written, and nothing is offered that is not in the scope before (or in a loop around it): not those of other functions, of closures, of classes, or of other files.",
 ["inputs"],"all programs of up to three statements of a grammar of forty, in each of six scopes and in each statement, loop, closure and arrow function of a grammar, with a variable being written in each of forty ways before, after and inside of them",
 "The tests complete a handful of variables in one scope.",
 ["internal/lsp/completion.go","analysis/variable.go","analysis/document.go","analysis/anonymousFunction.go"],[("what is offered","internal/lsp/completion.go"),("the variables at a position","analysis/variable.go"),("the scope at a position","analysis/document.go")],[],["completion"])
p("C31","What is deprecated is told where it is referred to",
 "A hint that something is deprecated is published for every reference to a class, interface, function, constant, define, method, property or constant of a class whose documentation says so, and for nothing else: whatever expression or statement the reference is in, however it is named or imported, inherited and static members included, in one file or across two. There is one for each reference, it lies in the expression and contains the name, and it says what the documentation says about it. Expressions and keywords that do not name anything are not told as if they did.",
 ["inputs"],"all expressions of a grammar of references in each place of a grammar of statements, and all statements of two lists, in each of fourteen combinations of files, namespaces and imports, with each declaration deprecated alone, all of them, and none",
 "The tests do not look at these diagnostics.",
 ["analysis/diagnostic.go","internal/lsp/diagnostics.go","analysis/query.go","analysis/phpDocComment.go","analysis/interface.go"],[("what is told","analysis/diagnostic.go"),("when it is published","internal/lsp/diagnostics.go")],[],["textDocument/publishDiagnostics"])
p("C32","Files that the client provides are indexed like those on disk",
 "When the client says that it provides files (xfilesProvider and xcontentProvider), so that the server has to ask it for the list and the contents, the index of every folder describes, for every history and schedule, exactly the PHP files that the client has and the documents that are open: files the client lists, those it reports as created, changed, moved or deleted (alone or with their directory), those changed or deleted while no server ran, and those of folders added and removed. It does not matter whether the machine of the server has such files, what scheme the URIs have, or how the client escapes file URIs; a file that is gone when it is asked for, or a request that the client refuses, neither stops the server nor loses other files.",
 ["schedules","histories"],"all scripts of two to four operations in four worlds for two schemes, all names of a list in four spellings, under every schedule within a bound",
 "No test has a client that provides files.",
 ["internal/lsp/protocol/fs.go",WS,SY,"analysis/store.go"],[("asking the client","internal/lsp/protocol/fs.go URIFS"),("reported changes",SY+" didChangeWatchedFiles"),("files that are gone","analysis/store.go PrepareForIndexing/FinishIndexing")],[],["set of indexed documents","termination"])
p("C33","What is told about a document follows the other documents",
 "Completion, hover, signature help and definitions in a document depend only on the current contents of the documents: whenever another document is opened, edited, closed or loses or gains declarations, what is told in a document that uses them is what a server tells that was started with these contents, whatever was asked before and however the types got there (return types, documented types, properties, parents, traits, interfaces, globals, variables that were given such a value).",
 ["histories"],"all histories of three versions of a document (each declaration in either of two forms or missing, all, none), asked about before each or not, at every marked position of four documents that use it, opened in either order, with closing and editing both",
 "The tests resolve each document once.",
 ["analysis/store.go","analysis/document.go","analysis/variable.go","analysis/expression.go","analysis/functionCall.go","analysis/methodAccess.go"],[("which analysis is asked","analysis/store.go GetOrCreateDocument"),("types that are kept","analysis/expression.go")],[],["completion","hover","signature help","definition"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
