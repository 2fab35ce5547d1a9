#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": observe, "hook_needed": hook}})

A="internal/actions/"; O="internal/overlays/"; I="internal/instructions/"; B="internal/builder/"; C="internal/commands/"

p("C01","Data that no overlay addresses comes out unchanged",
 "Running yot never changes, drops, adds, retypes or reorders any part of an input document outside the nodes an overlay addresses: every other key, value, scalar type, sequence position and key order, and the number and order of the documents, is in the output exactly as in the input. With no applicable overlay the output carries the same data as the input. An alias stays an alias of the same node while the anchor it names is still in the output before it, and otherwise becomes a copy of what it stands for.",
 ["inputs","programs"],"all input documents (maps, sequences, every scalar type, nesting, multi-document files) and all overlay lists",
 "The unit tests compare one fixed Service manifest per action; none varies the document or checks siblings, types, key order or document count in general.",
 [A+"merge.go",A+"replace.go",A+"delete.go",O+"overlay.go",I+"yamlfile.go",I+"config.go"],
 [("actions mutate only the selected node in place",A),("all documents of a file are decoded in order and encoded in order",I+"yamlfile.go readYamlFile, config.go encodeNodes")],
 ["output files","stdout"])

p("C02","Replace puts the overlay value at every selected node",
 "After a replace overlay every node its query selected is exactly the overlay value (structure, values and types), whatever it was before, and every node it did not select is unchanged.",
 ["inputs","programs"],"all documents, all query results (zero, one, many, nested, key nodes, whole document), all values (scalar, map, sequence, empty)",
 "replace_test.go has a handful of cases on one document with a single match.",
 [A+"replace.go",O+"overlay.go"],[("deep copy of the value over the selected node",A+"replace.go ReplaceNode")],["output data"])

p("C03","Merge deep-merges maps, appends to lists, replaces scalars",
 "A merge overlay combines its value into each selected node: for map into map, every key of the value is merged recursively into the existing key or appended after the existing keys, and keys only in the document stay; for list into list, the value's items are appended after the existing items in order; a scalar takes the overlay's value and type; where the kinds differ the overlay's kind and content win.",
 ["inputs","programs"],"all pairs of document subtree and merge value, all query results",
 "merge_test.go samples about ten pairs on one document; kind changes, empty containers, nested lists, multiple matches and repeated merges are not covered.",
 [A+"merge.go",O+"overlay.go"],[("recursive merge by kind",A+"merge.go merge, mergeMap, mergeArray, mergeScalar")],["output data"])

p("C04","Delete removes exactly the selected nodes",
 "After a delete overlay each selected map entry (key and value), sequence item, key-selected entry or whole document root is gone, every other node keeps its value and relative order, and all selected nodes are removed even when a query matches several siblings or nested nodes. A document whose root was deleted, and a file with no document left, is omitted from the output.",
 ["inputs","programs"],"all documents and all query result sets, including several items of one sequence, nested matches and key matches",
 "delete_test.go deletes one node per case; index shifting with several matches in the same parent and emptied documents are untested.",
 [A+"delete.go",O+"overlay.go",I+"config.go"],[("search by node address and splice of the parent's content",A+"delete.go DeleteNode"),("documents without content are skipped",I+"config.go encodeNodes")],["output data"])

p("C05","Combine adds integers, ANDs booleans, concatenates other scalars",
 "A combine overlay on a scalar yields: decimal integers - their exact sum, still an integer; booleans - true only if both are true; strings - the document's text followed by the overlay's text, still a string. If either side is a map or a sequence, a decimal integer is combined with something that is not one, a boolean with something that does not read as a boolean, or the sum does not fit a 64-bit integer, the run fails and the file is not written; it never writes a wrong sum.",
 ["inputs"],"all pairs of scalars (signs, zero, large magnitudes, both booleans, all strings) and all kind mismatches",
 "combine_test.go has one case per type; negative and large integers, overflow, mismatched types and several matches are not exercised.",
 [A+"combine.go"],[("dispatch on the original node's tag",A+"combine.go CombineNode")],["output data","exit status"])

p("C06","Overlays apply in the documented order, each on the previous result",
 "For each document the overlays run in this order: commonOverlays as listed, then the command-line overlay, then the file's overlays as listed, then the overlays of its documents entries as listed; each one's query and documentQuery see the result of all earlier ones and every applicable overlay runs exactly once per document. This holds for every file of the run independently of the other files.",
 ["programs","histories"],"all overlay lists at the four levels, with any number of files, documents and repeated file entries",
 "No unit test runs more than one overlay over a document, or two files with common overlays; execute_test.go only checks that no error is returned.",
 [I+"instructions.go",I+"yamlfile.go",O+"workstream.go"],[("common overlays are prepended to each file's list",I+"instructions.go addCommonOverlays"),("single producer and single consumer per file over an unbuffered channel",I+"yamlfile.go queueOverlays, "+O+"workstream.go StartHandler")],["output data","applied-overlay trace (hook)"],
 [{"name":"overlay queue","meaning":"next overlay to apply to a document","where":O+"workstream.go"}],
 "trace point after each overlay application (build tag verif)")

p("C07","documentIndex and documents.path confine an overlay to those documents",
 "An overlay with documentIndex changes only the documents of the file at the listed zero-based positions, overlays under a documents entry change only the document at its path, and an overlay with neither is applied to every document of the file. Positions refer to the documents as they are in the input file, also when earlier overlays empty a document or a listed position does not exist.",
 ["inputs","programs"],"all multi-document files, all index lists (empty, repeated, out of range, unsorted) and documents entries",
 "document_internal_test.go checks the predicate for single numbers; no test runs a multi-document file through it.",
 [O+"overlay.go",I+"document.go",I+"yamlfile.go"],[("membership test per document",O+"overlay.go CheckDocumentIndex"),("equality test per documents entry",I+"document.go checkDocumentIndex")],["output data"])

p("C08","documentQuery gates an overlay by an OR of AND-ed conditions",
 "An overlay with documentQuery is applied to a document exactly when at least one of its condition groups holds on the document as it then is; a group holds when all its conditions hold; a condition without value holds when its query selects something, and with a value when its query selects something and every selected node equals the value in structure, text and type. Without documentQuery the overlay always applies, and evaluating the qualifier never changes the document.",
 ["inputs","programs"],"all documents and all documentQuery structures, scalar and structured values",
 "documentquery_internal_test.go covers one condition, with scalar values, on one document.",
 [O+"documentquery.go",O+"overlay.go"],[("or over groups, and over conditions, node comparison without position, style and comments",O+"documentquery.go checkQueries, checkQuery")],["output data"])

p("C09","When the query finds nothing, inject creates the path, ignore does nothing",
 "When a query selects nothing, a merge or replace overlay whose effective onMissing action is inject makes the value appear at the query path if that path consists only of child names, otherwise at every injectPath (or, lacking one, nowhere), creating missing maps (what is on the path and not a map becomes one) and keeping everything else in the document; delete and combine overlays and the ignore action leave the document unchanged. The effective action is the overlay's own setting, else the configured default, else ignore; when the query selects something, nothing is injected.",
 ["inputs","programs","configurations"],"all documents, all missing paths (partially existing, through scalars, several at once), all onMissing and default settings",
 "onmissing.go and builder have no unit tests at all.",
 [O+"onmissing.go",B+"path.go",B+"lexer.go"],[("path text is parsed into a scaffold that is merged, then the paths are found again and replaced",O+"onmissing.go doInjectPath, "+B+"path.go BuildPaths")],["output data"])

p("C10","An overlay value lands as independent copies",
 "When one overlay puts its value in several places (several matches, documents, files or paths), changing one of those places with a later overlay changes neither the other places nor what later uses of the same overlay insert. Every place gets the value as written in the instructions, however often and in whatever order the overlay is used.",
 ["programs","histories"],"all overlay lists in which a map or list value is inserted more than once and edited afterwards",
 "No unit test applies an overlay more than once; aliasing of inserted nodes only shows in a later overlay.",
 [A+"merge.go",A+"replace.go",O+"overlay.go"],[("deep copies on replace and on append",A+"replace.go, merge.go addNode")],["output data"])

p("C11","The result does not depend on scheduling",
 "For the same inputs every successful run produces the same set of files with the same bytes (unless two inputs are directed at the same output file), and on standard output the same per-file blocks, whatever the number of files and CPUs and however the files' work is interleaved; each listed file is processed and emitted exactly once, files do not influence each other, and the run is free of data races.",
 ["schedules"],"all interleavings of the per-file workers, producers and the writer, for any number of files",
 "Tests run one or two files on one schedule and never look at the output.",
 [I+"execute.go",O+"workstream.go",I+"yamlfile.go",O+"onmissing.go"],[("one goroutine pair per file, single post-processing loop",I+"execute.go"),("overlays shared between files are only read",O)],["output files","stdout","event trace (hook)"],
 [{"name":"pChan","meaning":"finished files waiting to be written","where":I+"execute.go"}],
 "trace/gate points after overlay application, at emission and at writing (build tag verif)")

p("C12","A failing run exits non-zero and never writes a half-processed file",
 "yot exits 0 exactly when every file was processed and emitted; any error while reading instructions, values or input files, applying an overlay or writing gives a non-zero exit status and a message on standard error. A file in which an overlay failed is not emitted at all, every file that is emitted carries its complete final result, and if any instruction, values or input file cannot be read or parsed nothing is emitted.",
 ["fault_sequences","inputs"],"all failing inputs and all positions of the failure among files, documents and overlays",
 "execute_test.go only covers success; no test makes an overlay, input or output fail among several files.",
 [I+"execute.go",I+"instructions.go",I+"yamlfile.go",C+"root.go"],[("errgroup error propagation; input is read completely before any worker starts",I+"execute.go Execute"),("exit 1 on error",C+"root.go Run")],["exit status","output files","stderr"])

p("C13","Every result lands at its own documented place; inputs stay untouched",
 "Each file without outputPath is written below the output directory at its path relative to the deepest directory common to all input files; outputPath with an extension names the file, without one a directory that keeps the base name, and an absolute one is used as it is. Different input files without outputPath never share an output file, nothing is written outside the output directory unless outputPath says so, and input files keep their content unless an output is directed onto them.",
 ["inputs","configurations"],"all sets of input paths (nested, equal base names, common prefixes of names, relative, absolute, unclean) and outputPath settings",
 "Path handling has no unit test except that two runs do not fail.",
 [I+"instructions.go",I+"utils.go",I+"config.go"],[("strip the common directory prefix, join with the output directory",I+"instructions.go setOutputPath, utils.go GetCommonPrefix, config.go openOutputFile")],["file system after the run"])

p("C14","Every listed input is processed once with all the overlays listed for it",
 "A relative path in the instructions is taken relative to the instructions file; a directory stands for all .yaml and .yml files below it, recursively, in name order, and nothing else. A path that is a symbolic link counts as what it leads to. A file listed several times, directly or through directories, is processed once with the overlays and documents of all its entries in listing order and the last outputPath given for it; an empty file yields no output.",
 ["inputs","configurations"],"all listings of files and directories, with duplicates and any directory tree",
 "execute_test.go lists a directory once; duplicates, nesting, other extensions and listing order are not checked.",
 [I+"yamlfile.go",I+"utils.go",I+"config.go"],[("expansion, then merging by path",I+"yamlfile.go expandDirectories, mergeDuplicates")],["output files","output data"])

p("C15","The output is a well-formed YAML stream of exactly the documents",
 "Every emitted file, and the whole of standard output with -s, parses as YAML; each file's output starts with a document separator and holds exactly its remaining documents in order, so that concatenating files never merges documents; a document or file emptied by overlays is left out. With -s nothing but these documents is on standard output and no file is written, without -s standard output has exactly the path of each written file; log messages never go to standard output at any log level.",
 ["inputs","programs"],"all sets of files and documents, including emptied first, middle and last documents, empty files and all log levels",
 "No test looks at emitted bytes.",
 [I+"config.go",C+"root.go"],[("separator, encoder and omission logic",I+"config.go encodeNodes, doPostProcessing"),("log backend on standard error",C+"root.go SetupLogging")],["stdout","output files"])

p("C16","Comments survive, are injected with values, or are removed on request",
 "Comments of the input that belong to data no overlay changes are kept with their data; comments in an overlay value are attached to the nodes they are inserted at or merged into, and where the value has no comment of that kind (head, line, foot) the existing one stays; comments of maps and lists may move next to them where YAML has no place for them. With remove-comments no comment of the input files is in the output, the data is the same as without it, and comments injected by overlays still appear.",
 ["inputs","configurations"],"all placements of head, line and foot comments in documents and values, all actions",
 "merge_test.go and replace_test.go have single line-comment cases; comment removal has no test.",
 [A+"merge.go",A+"replace.go",A+"combine.go",I+"yamlfile.go"],[("per-kind comment override",A+"merge.go mergeComments"),("recursive comment removal before overlays",I+"yamlfile.go removeCommentsFromNode")],["output text"])

p("C17","Format markers expand to the original value, key and comments",
 "In a merged scalar value, in map keys of a merge value, and in the comments of merge, replace and combine values, %v, %k, %h, %l and %f are replaced by the matched node's original value, key name, head, line and foot comment, followed by the sed-style command in braces if one is given; a marker key applies to every entry of the map it is merged into. Text around markers is kept, each occurrence is expanded, and no marker is left over in newly added map entries or list items.",
 ["inputs","programs"],"all values with any number of markers, with and without sed substitutions, on all matched scalars, keys and comments",
 "merge_test.go has a few marker cases; the sed form, several markers in one value, comments and added content are barely sampled.",
 [A+"format.go",A+"markers.go",A+"merge.go"],[("marker regexp and substitution",A+"format.go doFormat"),("clearing markers in added nodes",A+"format.go sanitizeNode")],["output data","output text"])

p("C18","Values files merge left to right and drive the instructions template",
 "With values files the instructions are rendered as a Go template, with the Sprig functions available, over the values of all files merged in the given order, a later file winning for scalars and maps merging deeply; the run then behaves as if the rendered text had been the instructions file. Without values files the instructions are taken literally; an unreadable values file, a template error or an unparsable rendering fails the run with nothing emitted.",
 ["inputs","configurations"],"all lists of values files and all templates built from substitutions, conditionals, loops and functions",
 "values_internal_test.go merges one pair of files; rendering and its use have no test.",
 [I+"values.go",I+"template.go",I+"instructions.go"],[("values merged with the merge action",I+"values.go getValues"),("text/template execution",I+"template.go")],["output data","exit status"])

p("C19","Settings: flag over environment over config file over default",
 "For every setting (output directory, stdout, indent level, output style, remove comments, log level, default onMissing action) the value in force is the command-line flag if given, else the YOT_ environment variable, else the config file in use, else the documented default; the config file in use is the one from --config, else YOT_CONFIG_FILE, else yot.config in the working directory, else in the home directory's .yot. If that file is missing or is not YAML, the run is refused. The log level in force decides which messages are shown; `yot env` prints the values in force.",
 ["configurations"],"all combinations of where each setting is set",
 "root_test.go only builds the command; no test sets any setting from two places.",
 [C+"root.go",C+"flags.go",C+"env.go"],[("viper bindings of flags, environment and config file",C+"flags.go, root.go initConfig")],["output files","stdout","yot env"])

p("C20","A query selects exactly the JSONPath matches",
 "An overlay acts on exactly the nodes its query selects by JSONPath: root, child names in dot and bracket form, name unions, wildcards, indexes from either end, index unions and slices, recursive descent, key selection with ~ and filter expressions with comparisons and logical operators (directly after a recursive step a filter looks at the nodes found, elsewhere at their children); a list of queries acts on the matches of each query in turn. A path that is not valid JSONPath is rejected before anything is emitted.",
 ["inputs","programs"],"all documents and all queries of the supported grammar",
 "Tests use a few dotted paths on one document; combinations, lists of queries and matches in several places are not covered.",
 [O+"query.go",O+"overlay.go"],[("concatenated results of every path",O+"query.go Find"),("parsing on decode and on the flag",O+"query.go UnmarshalYAML, Set")],["output data","exit status"])

p("C21","Indent and style change the presentation, never the data",
 "For every indent level and output style (including combinations) the emitted documents carry the same keys, values, order and document structure as with the default settings, the styles requested are the ones used, and the indent level requested is the one used; a value that would read as another one in a requested style is written in one where it does not. A style or indent level that is not supported is rejected.",
 ["configurations","inputs"],"all documents, indent levels 2 to 9, and sets of styles given by any of their documented names",
 "No test renders with a non-default style or indent.",
 [A+"style.go",I+"config.go",C+"flags.go"],[("style applied to every node before encoding",A+"style.go SetStyle"),("encoder indent",I+"config.go encodeNodes")],["output text"])

p("C22","Re-running over the results is stable",
 "Feeding yot's output back through yot with no overlays reproduces it byte for byte; where it has comments everything else is reproduced, and the comments may move next to a neighbouring node. Applying a replace, delete, or list-free merge overlay a second time to its own output, with a query that still selects the same places, changes nothing more.",
 ["inputs","programs","histories"],"all outputs and all such overlays",
 "No test feeds output back in.",
 [A,I+"config.go"],[("encode and decode are mutually inverse on yot's output; the actions are idempotent",A)],["output files"])

p("C23","Invalid instructions are rejected cleanly",
 "Whatever is wrong with the instructions (wrong kinds, null or missing entries, unknown actions, malformed paths, bad document indexes, values of the wrong shape), yot either accepts them and behaves as described by the other properties or ends with a non-zero status, a message naming the problem and nothing emitted; it never crashes with a stack trace or hangs.",
 ["inputs","fault_sequences"],"all single and double corruptions of a valid instruction file, values file, flag set or input file",
 "Tests only decode valid instructions.",
 [O,I,B,C],[("decoding errors returned up to the exit status",I+"instructions.go, "+C+"root.go")],["exit status","stderr","output files"])

p("C24","Ad-hoc flags act like the equivalent instructions file",
 "A run with path, query, action and value flags (input from a file, a directory or standard input) emits the same documents as the instructions file that lists that path with that one common overlay; several query flags act as a list of queries, and with an instructions file the flags add the path to its files and the overlay after its common overlays. Input from standard input is processed like a file and named stdin.yaml in the output directory.",
 ["inputs","configurations"],"all ad-hoc overlays and inputs, alone and combined with an instructions file",
 "The flags have no unit test.",
 [I+"config.go",C+"flags.go",O+"query.go"],[("flag overlay appended to the common overlays, flag path appended to the files",I+"config.go ReadAdHocPaths, ReadAdHocOverlays")],["output data","output files"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
