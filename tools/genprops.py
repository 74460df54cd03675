#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, **({"state": state} if state else {}),
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

T_PARSE = "parse.Reader"
T_FMT = "format.Printer.PrintTree"

prop("C01", "Parsing any input terminates with a tree or an error, never a crash",
 "For every byte sequence (valid UTF-8 or not) and every combination of parse options, parsing returns, after finitely many steps, either a tree and no error or an error and no tree. It never panics, in the caller or in any helper goroutine, never deadlocks and never loops.",
 ["inputs", "configurations"], "all input byte sequences, all option bitsets",
 "Tests parse about forty hand-written well-formed snippets and a handful of truncated ones; a crash needs one specific truncation or character pair (a prefix right before EOF, an unusual dispatch character).",
 ["parse/lex.go", "parse/parse.go"],
 [("state-function lexer", "parse/lex.go lexOuter and the lexXxx functions"), ("recursive descent with typed panics turned into errors", "parse/parse.go parse/recover")],
 [T_PARSE])
prop("C02", "The tree mirrors the source text form for form",
 "The parser accepts a text exactly when it is valid UTF-8, its delimiters balance and every prefix, literal and dispatch form is complete and legal, and the tree it returns lists the text's forms in source order with the same kind, nesting and literal text (symbol, keyword, number, string, regex, character, comment, line break, namespace prefix of a map). Commas, spaces and other blanks only separate forms.",
 ["inputs"], "all texts in the supported reader syntax",
 "Each test case has one root node and one spelling; none crosses token kinds at their boundaries (symbol next to delimiter, prefix before whitespace, escape before quote), which is where a lexer goes wrong.",
 ["parse/lex.go", "parse/parse.go", "parse/node.go"],
 [("token classification and scanning", "parse/lex.go"), ("node construction", "parse/parse.go parseNext and parseXxx")], [T_PARSE])
prop("C03", "Every node and every error carries the right source position",
 "In a parsed tree every node's position is the file name given by the caller and the byte offset, line and column at which that node's text starts in the source. Every syntax error names the file and a line and column that exist in the source.",
 ["inputs"], "all texts, including multi-byte characters and any line structure",
 "No existing test looks at a position of a node, and the position of an error is not checked either.",
 ["parse/lex.go", "parse/parse.go"],
 [("position bookkeeping with one character of backup", "parse/lex.go next/back/skip/emit/synth"), ("error positions", "parse/lex.go FormatError, parse/parse.go errorf")], [T_PARSE])
prop("C04", "Parse options only filter the tree",
 "Parsing with any combination of options succeeds exactly when the full parse (line breaks and comments included, nothing ignored) succeeds, and gives the full tree minus the nodes the options name: without the include-non-semantic option no comment or line-break node, with ignore-comment-form no list whose head is the symbol comment, with ignore-reader-discard no discarded form. Forms under a reader prefix (such as a quoted list) are not dropped.",
 ["inputs", "configurations"], "all texts, all 8 option sets",
 "Tests try each option alone on three or four inputs; the nesting contexts and option combinations are not explored.",
 ["parse/parse.go"], [("node filter", "parse/parse.go includeNode, parseNextSemantic")], [T_PARSE])
prop("C05", "Parent and child links always agree",
 "In every parsed tree each node reports as parent exactly the node that lists it as a child, and top-level nodes report none. After the children of any container node are replaced through the public setter, every new child reports that node as its parent, every removed child reports none, and the children read back are the ones given.",
 ["inputs", "histories"], "all parsed trees, all replacement sequences",
 "Tests look at four inputs with one parent link each and never replace children.",
 ["parse/node.go", "parse/parse.go"], [("link pass after parse", "parse/parse.go parse"), ("SetChildren per node type", "parse/node.go")], [T_PARSE, "parse.Node"])
prop("C06", "Read errors and chunking never change what a parse means",
 "If the underlying reader fails with anything but end of file, at any point, parsing reports an error and no tree. Otherwise the tree depends only on the bytes, not on how the reader splits them into chunks or whether it reports end of file together with the last chunk. A file parsed by name gives what its contents give under that name, and an error (with no tree) if it cannot be opened or read.",
 ["fault_sequences", "inputs"], "all positions of a read failure, all chunk splits",
 "All tests read from an in-memory string that never fails and arrives in one piece.",
 ["parse/lex.go"], [("read errors travel as error tokens", "parse/lex.go next/run/scanError")], [T_PARSE])
prop("C07", "Parsing leaves nothing running and shares nothing unsafely",
 "When a parse returns, successfully or with an error, no goroutine it started stays blocked or running and no file it opened stays open. Its helper goroutines and the caller never access the same memory without synchronisation, and parses that run at the same time do not interfere with each other.",
 ["inputs", "schedules"], "all texts (well-formed and not), all schedules of lexer and parser",
 "No test counts goroutines, and the race detector only sees the schedules and inputs that a run happens to produce.",
 ["parse/lex.go", "parse/parse.go"], [("token hand-over between lexer and parser", "parse/lex.go emit/nextToken")], [T_PARSE])
prop("C08", "Formatting never changes the code",
 "Under the default transforms, and outside the namespace declaration clauses they rewrite, reading the formatted text gives the same forms as reading the original: the same tokens in the same order with the same spelling, string, regex and character contents included. The only permitted difference inside a token is the indentation and trailing blanks of continuation lines of a docstring.",
 ["inputs"], "all parseable texts",
 "The fixtures are about thirty ordinary files; a token glued to its neighbour, swallowed by a comment or re-read as another token needs an unusual neighbour pair.",
 ["format/format.go", "format/transform.go", "format/docstring.go", "parse/lex.go", "parse/parse.go"],
 [("printing of each node kind with separators", "format/format.go printNode, printSequence"), ("tree transforms", "format/transform.go")], [T_FMT, "cljfmt"])
prop("C09", "Formatting keeps every comment and never lets one swallow code",
 "Under the default transforms every comment of the input appears in the output, once, with its text unchanged, and outside namespace clauses (where whole entries are reordered together with their comments) in the same order relative to the code around it. No code ever ends up inside a comment and no comment text becomes code.",
 ["inputs"], "all parseable texts with comments anywhere, any line endings",
 "Fixtures place comments where people usually do; the dangerous places are before a closing delimiter, after a prefix, and next to forms that the transforms move.",
 ["format/format.go", "format/transform.go", "parse/parse.go"], [("comment nodes kept as siblings", "parse/parse.go IncludeNonSemantic"), ("newline after comment kept", "format/transform.go removeTrailingNewlines, sortImportRequire")], [T_FMT])
prop("C10", "Formatting is idempotent",
 "Formatting already formatted text with the same settings returns it byte for byte, so a second run of the tool never finds anything to change. This holds for the default settings, any overrides, and any selection of transforms, provided that where use-to-require or remove-unused-requires is enabled the sorting, ns-style and trailing-newline transforms are on as by default.",
 ["inputs", "configurations"], "all parseable texts, default and individually toggled transforms",
 "The tests format each fixture once; the second pass is only covered when before and after files coincide.",
 ["format/format.go", "format/transform.go", "format/docstring.go"], [("layout computed from line breaks only", "format/format.go printSequence")], [T_FMT])
prop("C11", "Any parsed tree can be formatted",
 "Printing a tree obtained by parsing with comments and line breaks included succeeds for every text and every selection of transforms, indent overrides and thread-first overrides: no panic and no error unless the output writer fails.",
 ["inputs", "configurations"], "all parseable texts, all transform subsets",
 "Fixtures are well-behaved programs; crashes hide in empty clauses, prefixes followed by line breaks, and malformed namespace declarations.",
 ["format/format.go", "format/transform.go", "format/require.go", "format/unused.go"], [("exhaustive type switch", "format/format.go printNode")], [T_FMT])
prop("C12", "Formatting moves line breaks only where a transform says so",
 "With every transform turned off, the output has exactly the line breaks of the input between the same neighbouring tokens, except that those between a reader prefix and its form are dropped and a carriage return that ends a comment becomes a line break. With the default transforms, outside namespace clauses, line breaks change only in the documented ways: trailing line breaks before a closing delimiter, runs of blank lines, the line breaks around a defn argument vector or defmethod dispatch value, and one added before an arm of an if form.",
 ["inputs", "configurations"], "all parseable texts",
 "Fixtures show intended results for a few layouts each; unwanted joins and splits in other layouts are not looked for.",
 ["format/format.go", "format/transform.go"], [("newline nodes printed one for one", "format/format.go printSequence")], [T_FMT])
prop("C13", "Formatted text has normal horizontal spacing",
 "In formatted output two neighbouring forms on a line are separated by exactly one space, nothing separates a delimiter or prefix from its contents on the same line (except where gluing would read differently, as in ~ @a and # _tag), lines are indented with the configured character only, and no line ends in blanks (the contents of comments, strings and character literals aside).",
 ["inputs"], "all parseable texts",
 "The fixtures fix this for their own text only; spacing depends on pairs of neighbouring node kinds.",
 ["format/format.go"], [("needSpace/needIndent bookkeeping", "format/format.go printSequence")], [T_FMT])
prop("C14", "Indentation follows the documented styles",
 "Each form's continuation lines are indented as the README describes for the style of its head: aligned with the second element for list style, two columns in for body styles, the value of a binding or condition pair two columns deeper than its key, bindings aligned inside the binding vector, and function bodies in letfn and deftype-like forms as bodies. Comments and line breaks between elements do not shift the pairing.",
 ["inputs", "configurations"], "all element sequences with any line breaks, for every style",
 "Fixtures give one or two layouts per style; pairing after comments, metadata, nested forms and odd counts is where it drifts.",
 ["format/format.go"], [("style selection", "format/format.go chooseIndent, applySpecialIndentRules"), ("pair tracking", "format/format.go printSequence")], [T_FMT])
prop("C15", "Indent overrides apply to exactly the names they should",
 "An override for an unqualified name applies to that name with or without any namespace qualifier. An override for a qualified name my.ns/f applies to my.ns/f, to a/f when the file requires my.ns under alias a, and to f when the file's require refers f from my.ns, and to no other spelling.",
 ["inputs", "configurations"], "all names, aliases and refer lists",
 "One fixture with six overrides; near-miss names and alias collisions are not covered.",
 ["format/format.go", "format/require.go"], [("name resolution", "format/format.go indentStyleForSymbol"), ("alias and refer tables", "format/require.go markRequires")], [T_FMT])
prop("C16", "Threaded forms are indented one argument earlier, others are not",
 "Inside a thread-first form (built-in or configured) each threaded list whose style skips leading arguments counts its arguments as if the threaded value were already there, every other clause for cond-> style, also when thread-first forms nest. Lists that are not threaded keep the ordinary layout.",
 ["inputs", "configurations"], "all positions and nestings of thread-first forms",
 "Two fixtures; positions with comments, nesting and the parity of cond-> clauses are sampled once each.",
 ["format/threadfirst.go", "format/format.go"], [("marking pass", "format/threadfirst.go"), ("style shift", "format/format.go threadFirstTransform")], [T_FMT])
prop("C17", "Only docstrings are realigned; every other string is kept byte for byte",
 "The contents of a string change only if it is the docstring of a top-level ns, def, defn, defmacro or defmulti form, that is the string right after the name and followed by a further element. In a docstring only the leading and trailing blanks of lines after the first change, the lines and their words stay, and no line ends up indented less than the docstring's own column; a line that was indented further keeps its indentation.",
 ["inputs"], "all forms and string contents",
 "Fixtures include a few docstrings and no multi-line data strings in look-alike positions.",
 ["format/docstring.go"], [("docstring detection", "format/docstring.go markDocstrings"), ("alignment", "format/docstring.go alignDocstring")], [T_FMT])
prop("C18", "Formatting is deterministic and has no memory",
 "The output for a text depends only on the text and the settings: it does not vary between runs, with map iteration order, with trees formatted earlier in the process or on the same printer, or with trees being formatted at the same time by other goroutines. Formatting does not alter the package's default settings.",
 ["inputs", "histories", "schedules"], "all texts, all map iteration orders, all earlier uses",
 "Each test formats one tree on a fresh printer and compares one run.",
 ["format/format.go", "format/require.go", "format/transform.go"], [("sorted rendering", "format/require.go render, sortStringSet"), ("per-print state", "format/format.go PrintTree")], [T_FMT])
prop("C19", "A failing writer is always reported",
 "If the output writer fails at any point, printing returns that failure as an error and does not panic. If printing returns no error, the writer received the complete formatted text.",
 ["fault_sequences", "inputs"], "all failure points, short writes",
 "Tests only write to an in-memory buffer that never fails.",
 ["format/format.go"], [("write errors as typed panics, flush at the end", "format/format.go bufWriter, PrintTree")], [T_FMT])
prop("C20", "Sorting requires and imports only reorders whole entries",
 "With the sort transform, each :require, :require-macros and :import clause of an ns form contains the same entries as before, each with its own comments, metadata and tags still attached, in ascending order of namespace or package name. Entries with equal names keep their relative order and unrecognised entries stay last in their original order.",
 ["inputs"], "all clauses with comments, prefixes and unusual entries",
 "Two fixtures; ties, comments at the edges, several entries per line and prefixed entries are not systematically covered.",
 ["format/transform.go"], [("stable sort of entries with comments", "format/transform.go sortImportRequire")], [T_FMT])
prop("C21", "Namespace style enforcement changes spelling only",
 "With the ns-style transform every documented rule holds in the output (keyword clause heads, list clauses, a line break after the clause keyword, vectors for require entries and refer lists, lists for imports, dotted imports split at the last dot if what follows it reads as a symbol) and the clauses still name the same namespaces, aliases, options, referred names and imported classes in the same order. Other clauses and other forms are untouched.",
 ["inputs"], "all ns forms",
 "One before/after fixture covering each rule once.",
 ["format/transform.go"], [("clause rewriting", "format/transform.go enforceNSStyle, enforceRequireStyle, enforceImportStyle")], [T_FMT])
prop("C22", "Each layout transform establishes what it documents",
 "After formatting with the default transforms no list, vector, map, set or function literal has a line break right before its closing delimiter unless a comment is there, no two blank lines are adjacent, an if form with one arm on its own line has both there, and a defn argument vector or defmethod keyword dispatch value that follows the name with nothing but a line break in between has moved up to its line.",
 ["inputs"], "all parseable texts, all nesting positions",
 "Fixtures contain a few instances each.",
 ["format/transform.go"], [("transforms", "format/transform.go")], [T_FMT])
prop("C23", "Switching a transform off switches exactly that transform off",
 "Transforms not mentioned in the settings use the documented defaults, transforms set explicitly are obeyed, and a transform that is off leaves no trace: with it off the output is what the remaining transforms alone produce, and with all off no form is added, removed, reordered or rewritten.",
 ["inputs", "configurations"], "all transform subsets",
 "Tests toggle a few transforms on one file each.",
 ["format/format.go", "format/transform.go"], [("settings merge", "format/format.go PrintTree"), ("guards", "format/transform.go applyTransforms")], [T_FMT])
prop("C24", "Use-to-require keeps what the namespace loads",
 "With use-to-require enabled, the resulting clauses make available the same namespaces, aliases and referred names as the original :use and :require clauses together, with macros referrals, unrecognised entries and the comments between entries kept, each namespace once apart from additional aliases and entries with unrecognised options. (:use [x :as y]) counts as just the alias, as the repository's own fixture has it.",
 ["inputs"], "all ns forms with :use and :require clauses",
 "One before/after fixture.",
 ["format/require.go", "format/transform.go"], [("merge by namespace", "format/require.go merge, render")], [T_FMT])
prop("C25", "Removing unused requires never removes one that is used",
 "With remove-unused-requires enabled, an alias is kept if any symbol, var quote, auto-resolved keyword or auto-resolved map in the file uses it, a referred name is kept if it appears as a symbol, and bare ([foo]), unrecognised, :refer :all or imported-package requires are kept. An alias or referred name that appears nowhere outside the ns form is removed. Comments between clauses, and between entries none of which is removed, are kept.",
 ["inputs"], "all bodies and require clauses",
 "Two fixtures with fixed names.",
 ["format/unused.go", "format/transform.go", "format/require.go"], [("symbol collection", "format/unused.go findSymbols"), ("pruning", "format/unused.go unused")], [T_FMT])
prop("C26", "The configuration file means what it says or is rejected",
 "A configuration file is either applied completely as documented (extensions, indent overrides, thread-first overrides, single names or lists of names) or rejected with an error, for every file content; it never crashes the tool and a rejected file does not format anything. Entries whose key is not a keyword are ignored; unknown keyword keys, unknown styles and values of another shape are rejected; comments and discarded forms do not count; an empty file changes nothing.",
 ["inputs", "configurations"], "all configuration texts",
 "The command has no tests.",
 ["cljfmt/config.go", "cljfmt/cljfmt.go"], [("config reader", "cljfmt/config.go parseDotConfig")], ["cljfmt"])
prop("C27", "The command touches a file only to replace it with its formatted text",
 "Without -w no file is changed; with -w a file is written only when its formatted text differs from its contents, the new contents are exactly the formatted text, its permission bits stay, and a file that does not parse is left alone. -l prints exactly the names of the files whose formatting differs; without -l and -w the formatted text, and nothing else, goes to standard output. Standard input is formatted to standard output, and -w is refused for it.",
 ["inputs", "configurations", "histories"], "all flag combinations, file sets and contents",
 "The command has no tests.",
 ["cljfmt/cljfmt.go"], [("per-file processing", "cljfmt/cljfmt.go processFile")], ["cljfmt"])
prop("C28", "The command reports every failure",
 "If a path cannot be examined, opened, read, parsed or written, or standard output cannot be written, the command ends with a non-zero status and a message; it ends with status zero only if every requested file was processed completely. A configuration file that cannot be read after it was opened is such a failure too; one that cannot be opened is reported unless it is the default one and does not exist, but the run goes on.",
 ["fault_sequences"], "all single failures of file and output operations",
 "The command has no tests.",
 ["cljfmt/cljfmt.go"], [("error returns and log.Fatal", "cljfmt/cljfmt.go")], ["cljfmt"])
prop("C29", "Directory walks pick exactly the configured files",
 "Given a directory, the command processes every entry below it that is not a directory (a link to a file included), whose extension is configured (by default .clj, .cljs, .cljc and .edn) and whose name does not start with a dot, each once, and no other file. Directories are walked whatever their names, also when the given one is reached through a symbolic link. A file named directly is processed whatever its extension.",
 ["inputs", "configurations"], "all directory trees and extension lists",
 "The command has no tests.",
 ["cljfmt/cljfmt.go"], [("walk callback", "cljfmt/cljfmt.go walkDir")], ["cljfmt"])
prop("C30", "Configuration location and transform flags follow the documented precedence",
 "The configuration file used is the one given with -c, else the one named by CLJFMT_CONFIG_PATH, else .cljfmt in the home directory, and a missing default file is not an error (a missing file given with -c is reported). For each transform the last -enable-transform or -disable-transform flag naming it decides, unknown names are refused, and transforms not named keep their defaults.",
 ["inputs", "configurations"], "all environments and flag sequences",
 "The command has no tests.",
 ["cljfmt/cljfmt.go"], [("flag values", "cljfmt/cljfmt.go transformFlag, pathFlag, defaultConfigPath")], ["cljfmt"])
prop("C31", "An interrupted -w never loses the source",
 "If the process or machine stops at any point while -w is rewriting a file, the file afterwards holds either its complete old contents or its complete new contents.",
 ["crash_points"], "every point during the rewrite of a file",
 "Tests never interrupt anything.",
 ["cljfmt/cljfmt.go"], [("in-place write", "cljfmt/cljfmt.go processFile")], ["cljfmt"])
prop("C32", "Inspecting a tree is faithful and changes nothing",
 "The text of a tree lists every node once, in source order, one per line and indented two spaces per level of nesting, leaves with their text and containers with the number of elements (for maps, pairs) they have, line breaks and comments not counted. The predicates on nodes (symbol, keyword, vector, line break, comment, semantic, list headed by a symbol or keyword, optionally one of given names) hold exactly for the nodes their names say. None of this changes the tree.",
 ["inputs"], "all parsed trees, all names asked for",
 "The tests use the outline only on a few small trees, and the predicates only through the formatter.",
 ["parse/node.go", "parse/parse.go", "goclj.go"], [("outline", "parse/parse.go Tree.String, nodesToString"), ("node descriptions", "parse/node.go String methods"), ("predicates", "goclj.go")], ["parse.Tree.String", "goclj.FnFormSymbol"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
