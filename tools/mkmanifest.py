#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "stateless model checking of the real code: every interleaving up to a preemption bound under a controlled scheduler"
ENUM = "bounded exhaustive exploration of the real code, checked against a reference model"
OPS = "explicit-state exploration: every operation sequence up to a depth on the real code against a reference model"
# id: (technique, level, note)
CLAIMED = {
 "C01": (SCHED, "model_checking", "Exhaustive within the stated bounds over scripts of messages and handler behaviours and all schedules with at most 2 preemptions of the real jsonrpc2.Conn; trusts the instrumenter's mapping of go/chan/sync operations onto the controlled scheduler."),
 "C02": (SCHED, "model_checking", "As C01, with outgoing calls, replies, duplicates, late and unknown responses; wedging shows up as a deadlock of the controlled scheduler, not as a time-out."),
 "C03": (ENUM, "model_checking", "Every cut of the byte stream into reads, every truncation and a class of malformed headers for a set of frame sequences, on the real stream code."),
 "C04": (SCHED, "model_checking", "Every method of the protocol with every malformed or odd parameter, as request and as notification, in five states of the server, every malformed message, every answer of the client to the server's own questions, and every sequence of life-cycle messages up to a length, under the schedule explorer: a panic or a request that waits for ever is found by the scheduler; every request must be answered once, initialize must succeed exactly once, and a valid request must be answered afterwards."),
 "C05": (OPS, "model_checking", "Every sequence of edits up to a depth over small texts, on the real Document, against an independent splice of the text."),
 "C06": (ENUM, "model_checking", "Every text up to a length over an alphabet with LF, CRLF, CR, BMP and astral characters, every position, also after edits, against the protocol's definition; reported ranges of symbols are compared with the text they denote."),
 "C15": (OPS, "model_checking", "Every sequence of storage operations up to a depth on both real engines against a sorted map, with reopening of the on-disk one."),
 "C08": (OPS, "model_checking", "Every sequence of document operations (open, edit, close, index, delete, re-index, restart) up to a depth over small documents on the real store; after each, the whole index seen through its API must equal that of a fresh store given the same contents."),
 "C09": (OPS, "model_checking", "As C08 with deletions of documents and folders whose names, symbols and prefixes collide, compared with a store that never held the deleted documents, in its answers and in the keys on its disk."),
 "C11": (OPS, "model_checking", "Every sequence of operations up to a depth with restarts at every point on the real on-disk engines; the reopened index must equal the one before closing and a fresh one."),
 "C07": (OPS, "model_checking", "Every sequence of edits up to a depth over documents built from statement pieces; after each, everything observable of the edited document (symbols, variable tables, imports, diagnostics, positions) must equal that of a fresh document with the same text."),
 "C22": (ENUM, "model_checking", "Every prefix and every one-token deletion of a corpus, every sequence of tokens up to a length and a list of unfinished constructs as the open document of the real server; every request at every position must return without panicking; a hang is no progress for a minute."),
 "C16": (ENUM, "model_checking", "Every combination of declaration forms, modifiers, types, documentation and nesting of a grammar; each declaration read back from the real store must carry the facts of the source and of its analysis. One listed finding (parameter descriptions), pinned by the project's tests."),
 "C18": (ENUM, "model_checking", "Every word of an alphabet against every set of declarations up to a size, all kinds, scopes, limits and letter cases, on the real store after every order of indexing and re-indexing, against the matching rule written out."),
 "C13": (SCHED, "model_checking", "Every script of editor notifications about one file up to a length, on the real server with its real workers and on-disk index, under every schedule within a preemption and delay bound; the index left on disk must equal a fresh one of the newest contents."),
 "C12": ("fault injection enumerated exhaustively: every sequence of index operations up to a depth on the real storage engines, crashing before every file change (and again during recovery), then restarting", "model_checking", "Every crash point of the last operation of every history up to a depth; the files left behind are opened and indexed again with every content the folder can have, and the index must equal a fresh one. A process crash only: what was written survives, and a single write is not torn."),
 "C17": (ENUM, "model_checking", "Every use declaration of a set (groups, aliases, functions) with every written name in every kind of place for a class or function name, in a namespace or not, alone and next to another; every set of existing functions before every other for unqualified calls; every pair of about 70 forms that declare, access or only seem to access members; asked on the real server at the start, inside and end of every place and at declarations in other files, against places known by construction; every number of names in a file up to a bound, what it becomes and restarts, and every history of two files up to a length, against the current contents."),
 "C19": (ENUM, "model_checking", "Every written form of a name (unqualified, qualified, fully qualified, relative, other letter case) in every kind of place (new, static, extends, implements, trait use, types, PHPDoc, catch, calls, constants) under every pair of use declarations and every layout of namespaces, in worlds that declare the symbol in all namespaces or all but one, on the real server: go to definition leads where PHP's rules say. Letter case and namespace-relative names are recorded findings."),
 "C20": (ENUM, "model_checking", "Every combination of a document's beginning (open tag, comments, declare), layout of namespaces, use declarations, line ends, declarations of its own, place of the cursor and typed word, in several worlds of symbols: each item which completion offers is applied as a client does, and an independent reader of namespaces, imports and declarations judges the new text: valid, the inserted name means the offered symbol, and the other names mean what they did."),
 "C21": (ENUM, "model_checking", "Every declaration (visibility, static or not) of a member in every type of a set of hierarchy shapes with classes, interfaces and traits, every kind of access from every class and outside, on the real server, against PHP's rules; every extends-graph of three types for termination; every sequence of three lookups on one query. Nested traits are a recorded finding."),
 "C10": (SCHED, "model_checking", "Every script of workspace folders added and removed and files changed in them up to a length, with nested and prefix-sharing folders, on the real server with its on-disk indexes; single operations under every schedule within a bound; each folder's index must equal a fresh one of exactly its own files."),
 "C14": (SCHED, "model_checking", "Every script of file and directory changes up to a length over small trees and unusual names, with the walker, workers and event handlers of the real server under every schedule within a bound, also across restarts; everything must come to rest and the index must equal a fresh one of the files found."),
 "C23": (ENUM, "model_checking", "Every statement and expression form in which PHP 7 can name a variable (about 150), in every kind of scope, every pair of them in sequence, and every nesting three deep (four in thorough) of functions, methods, closures with their uses, arrow functions and anonymous classes; renaming at the start, last character and end of every occurrence, and at every other offset, through the server. The oracle binds each occurrence by PHP's scoping rules while the program is generated; the edits have to be exactly one for each occurrence of that binding."),
 "C24": (ENUM, "model_checking", "Every call of a set of callables (functions, methods, static methods, constructors, anonymous classes, unknown ones) with every argument list over a set of arguments including nested calls, arrays, closures, strings with commas and parentheses, in every place and with every separator, on the real server: signature help at every position of the text against the innermost call and argument known by construction, and the parameter names shown before arguments. Unfinished calls are a recorded finding."),
 "C25": (OPS, "model_checking", "Every use declaration of a set (groups, aliases, functions, constants) with every written name in every kind of place for a name, in one or two namespaces; every sequence of statements that give values to variables or read them, in loops, closures and functions of every kind; every history of edits of two documents, closings and delays up to a length; every prefix of a corpus: what the real server publishes against PHP's rules of names and scopes, a fresh server's diagnostics and the extent of the text."),
 "C26": (ENUM, "model_checking", "Every path component up to a length over an alphabet of separators, escapes and non-ASCII characters, every spelling of its URI, and scripts of notifications with differently spelled URIs on the real server."),
 "C27": (ENUM, "model_checking", "Every expression of a grammar (a base and up to two accesses to members) in each way to use a value, in one namespace and across two: definition and completion of members on the real server against the types generated with the expression."),
 "C28": (ENUM, "model_checking", "Every document of a grammar of declarations (pairs of them, pairs of members, in each statement and expression, in nine layouts): the outline and the answers to searches of the real server against the tree written with the text."),
 "C29": (ENUM, "model_checking", "Every reference of a grammar in every place, namespace and import, hovered over at every position on the real server, against the declarations written with the text; every signature of two parameters; every unfinished access completed."),
 "C30": (ENUM, "model_checking", "Every program of a grammar of statements and scopes with a variable being written in it: what the real server offers there against the variables that PHP's scoping rules put in that scope."),
 "C31": (ENUM, "model_checking", "Every reference of a grammar in every place, namespace and import, with each declaration deprecated alone, all and none: the diagnostics of the real server against the references written with the text."),
 "C32": (SCHED, "model_checking", "Every script of file, document and folder operations up to a length with a client that provides the files, under two schemes and several spellings, and restarts, with the workers and event handlers of the real server under every schedule within a bound; the index must equal a fresh one of the files the client has and the open documents."),
 "C33": (OPS, "model_checking", "Every history of three versions of a document, asked about before each or not, on the real server: what is told in four documents that use it, at every marked position, against a server that was started with the last version."),
}
NA_REASON = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, l, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"bin/run {i}", "thorough_cmd": f"VERIF_TIER=thorough bin/run {i} --thorough", "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": NA_REASON.get(i, "No check has been built for it yet.")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "Every check builds its harness and the code of /repo's working tree through a go build overlay (no hooks are committed in /repo), in a scratch directory it removes."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
