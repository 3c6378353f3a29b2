#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable in one place)."""
import json, os
P = []
def p(id, title, stmt, over, qtext, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = obs or ["exit status, stdout, stderr and files written by the yot process"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": stmt, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
I = "internal/"
p("C01", "merge deep-merges mappings",
  "A merge of a mapping into a matched value yields the deep merge: every key of the overlay is present with the merged value, every other key of the original keeps its value, existing keys stay in their order and new keys follow in the overlay's order. Where the two sides differ in kind, or both are scalars, the overlay's value and type win; an alias in the source merges as the value it stands for.",
  ["inputs"], "every source document, every query and every mapping or scalar value without format markers, at any nesting depth",
  "The merge tests compare a handful of hand-written pairs, mostly one level deep; nothing explores nesting, key order, kind mismatches, types, duplicates of keys across levels or several matches.",
  [I+"actions/merge.go"], [("recursive merge of nodes", I+"actions/merge.go: merge, mergeMap, mergeScalar"), ("append of copied nodes", I+"actions/merge.go: addNode")])
p("C02", "merge appends sequences",
  "A merge of a sequence appends all its items, in order, after all existing items of the matched sequence, at the top of the value or nested within merged mappings; no existing item is changed, dropped, reordered or deduplicated. A matched value which is not a sequence becomes exactly the overlay's sequence.",
  ["inputs"], "every matched value and every overlay sequence, including nested sequences and repeated items",
  "Tests have single small sequences of scalars; element identity, duplicates, nested containers and repeated application are not sampled.",
  [I+"actions/merge.go"], [("mergeArray", I+"actions/merge.go"), ("addNode", I+"actions/merge.go")])
p("C03", "replace sets exactly the new value at every match",
  "After a replace every value matched by any of the overlay's queries is exactly the overlay's value (kind, type, content and key order), whatever it was before, in all matched places and documents. Nothing of the old value remains, and nothing else in the document changes.",
  ["inputs"], "every document, query list (wildcards, recursive descent, filters, slices, unions) and value of any kind",
  "Tests replace one node at a time with one value.",
  [I+"actions/replace.go", I+"overlays/overlay.go", I+"overlays/query.go"], [("ReplaceNode", I+"actions/replace.go"), ("doAction over all results", I+"overlays/overlay.go")])
p("C04", "delete removes exactly the matched nodes",
  "A delete removes precisely the matched mapping entries (key and value), sequence items or whole documents, wherever they are and however many match, and nothing else. The remaining entries keep their values, order and documents, and a document whose root was deleted is left out of the output.",
  ["inputs"], "every document and query list, including overlapping, nested, adjacent, first/last and repeated matches",
  "Tests delete one child from small fixtures; the in-place shifting of key/value pairs with several or overlapping matches is untested.",
  [I+"actions/delete.go", I+"overlays/overlay.go"], [("DeleteNode index arithmetic", I+"actions/delete.go")])
p("C05", "combine is typed addition, conjunction or concatenation",
  "Combine on a matched integer yields the exact integer sum in any YAML integer notation and of any size, on a matched boolean the conjunction of both values, and on any other scalar a string which is the original text followed by the overlay's text. A combination which is impossible (a non-scalar on either side, text which is not an integer or boolean) fails with an error and a non-zero exit status.",
  ["inputs"], "every pair of scalars (all notations, sizes, signs) and every non-scalar operand",
  "Tests use small decimal integers and a few strings; overflow, octal/hex notations, null/float/timestamp operands and repeated combination are not sampled.",
  [I+"actions/combine.go"], [("CombineNode switch on the tag", I+"actions/combine.go")])
p("C06", "data which no overlay selects passes through unchanged",
  "Everything which no overlay selects is semantically identical in the output: types and exact scalar text, key order, sequence order, anchors resolved to equal values, explicit tags, document count and document order. This holds for files which no overlay changes at all as well as for the rest of a document around a changed place.",
  ["inputs", "configurations"], "every valid YAML stream of any size and shape, with any combination of overlays",
  "The suite has a few fixed fixtures; it cannot cover the space of YAML scalars, styles, anchors, multi-document layouts and sizes.",
  [I+"instructions/yamlfile.go", I+"instructions/config.go", I+"actions/style.go"], [("decode to nodes / encode of nodes", I+"instructions/yamlfile.go: readYamlFile; config.go: encodeNodes")])
p("C07", "overlays apply in the documented order",
  "For each document the overlays take effect one after another: first commonOverlays in listed order (a command-line overlay last among them), then the file's overlays in listed order, then the overlays of its matching documents entries in listed order, each seeing the result of all before. Each applicable overlay is applied exactly once per document, also when entries for the same file are merged from several listings or a directory.",
  ["inputs", "histories"], "every number and mixture of common, file, document and command-line overlays, listings and files",
  "No test runs more than a couple of overlays end to end, and order only shows with overlays which interact.",
  [I+"instructions/instructions.go", I+"instructions/yamlfile.go", I+"overlays/workstream.go"],
  [("addCommonOverlays prepends", I+"instructions/instructions.go"), ("queueOverlays loops", I+"instructions/yamlfile.go"), ("mergeDuplicates/expandDirectories", I+"instructions/yamlfile.go"), ("single consumer of the stream", I+"overlays/workstream.go")])
p("C08", "overlays reach exactly the files and documents in scope",
  "A common overlay applies to every document of every file, a file overlay to every document of that file only, a documents entry only to the document with its zero-based index, and an overlay with documentIndex only to the listed indices. Indices count the documents of the source stream and out-of-range indices select nothing.",
  ["inputs", "configurations"], "every set of files, numbers of documents (including empty ones) and index lists",
  "Tests check the index predicate on single values, never which documents and files are actually changed.",
  [I+"instructions/yamlfile.go", I+"instructions/document.go", I+"overlays/overlay.go"], [("CheckDocumentIndex / checkDocumentIndex", I+"overlays/overlay.go, "+I+"instructions/document.go")])
p("C09", "documentQuery gates overlays: OR of groups, AND of conditions",
  "An overlay with a documentQuery is applied to a document if and only if at least one group has all its conditions met at that moment; a condition is met if its query finds something and, when it has a value, one of the results equals it in type and content regardless of comments, style and anchors. Without groups, or with a group without conditions, the overlay applies; a document which does not qualify is left untouched, including any onMissing injection.",
  ["inputs"], "every document, group list, condition list, query form and value of any kind",
  "Tests evaluate three single-condition cases.",
  [I+"overlays/documentquery.go", I+"overlays/overlay.go"], [("checkQueries/checkQuery", I+"overlays/documentquery.go")])
p("C10", "onMissing injects or ignores exactly as specified",
  "When none of an overlay's queries finds anything in a document, a merge or replace with onMissing inject creates the value at the fully-qualified query path, or at every injectPath when the query is an expression, creating missing parents and keeping all siblings; with ignore, without an injectPath, or for delete and combine nothing changes. An overlay without onMissing follows the configured default action, and onMissing has no effect when something was found.",
  ["inputs", "configurations"], "every document, path syntax (dots, brackets, quotes, escapes), injectPath list and default action setting",
  "Only the path builder has tests against literal trees; injection into documents with existing siblings, scalars in the way, several paths and the default setting is untested.",
  [I+"overlays/onmissing.go", I+"builder/path.go", I+"builder/lexer.go"], [("handleInjectPath/doInjectPath", I+"overlays/onmissing.go"), ("scaffold builder", I+"builder/path.go")])
p("C11", "format markers substitute the original content",
  "In a merge every %v, %k, %h, %l and %f of a scalar value, key or comment is replaced by the original value, key, head, line or foot comment of the place it is merged into, passed through the sed command in braces if there is one, and original text which itself looks like a marker is kept literally. A marker key applies to every key of the matched mapping, and values which are newly added carry no leftover markers.",
  ["inputs"], "every original content, marker combination, repetition and sed substitution",
  "Tests format a few literals; original content with special characters, several markers per value and several keys are not explored.",
  [I+"actions/format.go", I+"actions/markers.go", I+"actions/merge.go"], [("doFormat", I+"actions/format.go"), ("marker keys", I+"actions/merge.go: mergeMap")])
p("C12", "comments are preserved, and injected where the overlay has them",
  "Head, line and foot comments of the source survive with the node they belong to through any overlay which neither deletes that node nor brings a comment of the same kind; this includes replace, merge and combine of the commented value. A comment of a given kind on an overlay value or key appears in the output at every place it is applied to, instead of the old one of that kind.",
  ["inputs"], "every placement of comments the YAML library can represent, every action",
  "Tests check a few line comments; the interplay of kinds, actions and nesting is not explored.",
  [I+"actions/merge.go", I+"actions/replace.go", I+"actions/combine.go"], [("mergeComments", I+"actions/merge.go")])
p("C13", "remove-comments drops all source comments and only those",
  "With remove-comments set, no comment of any source file appears in the output, and the data is identical to the output without the setting. Comments brought in by overlays are kept, and without the setting nothing is removed.",
  ["inputs", "configurations"], "every source with comments at any position (document head and foot, keys, values, sequences, nested), set by flag, environment or configuration file",
  "No test covers comment removal end to end.",
  [I+"instructions/instructions.go", I+"instructions/yamlfile.go"], [("removeCommentsFromNode", I+"instructions/yamlfile.go")])
p("C14", "places, documents and files never share an applied value",
  "An overlay value applied in several places (several matches, documents or files) is an independent copy in each: a later overlay which changes one place leaves all others unchanged, and leaves the overlay's value as it was written. The same holds for overlay lists: overlays listed for one file are never applied to another.",
  ["inputs", "histories", "schedules"], "every sequence of overlays applied to several targets followed by changes to some of them",
  "A shared node only shows when a second overlay modifies one of several targets; no test does that.",
  [I+"actions/merge.go", I+"actions/replace.go", I+"instructions/instructions.go"], [("deep copies with reprint", I+"actions/merge.go: addNode; replace.go")])
p("C15", "output does not depend on scheduling; concurrency is race-free",
  "For the same inputs every run produces byte-identical output files, standard output and exit status, regardless of processor count, goroutine timing, output pace or garbage collection, with files output in the order of the instructions. Concurrent processing of the files has no data race, and each file's result equals the result of processing it alone with the same overlays.",
  ["schedules", "inputs"], "all interleavings of the per-file workers, for any number of files sharing overlays",
  "The suite runs with -parallel 1 and never runs the pipeline with many files.",
  [I+"instructions/execute.go", I+"overlays/workstream.go", I+"overlays/onmissing.go"], [("errgroup of per-file workers, ordered post processing", I+"instructions/execute.go")],
  obs=["output of repeated runs", "reports of the race detector in a -race build"])
p("C16", "every input has its own output at the documented place",
  "Each processed file is written to the output directory at its path relative to the deepest directory common to all inputs, or at its outputPath (a file name if it has an extension, else a directory which keeps the file name; for a directory input the structure below it is kept; absolute paths as given; the last listed outputPath of a file wins). Inputs with different paths never overwrite each other unless the instructions name the same output, and each written file is listed once on standard output. New outputs and directories have the usual permissions (0644 and 0755 less the umask), outputs which existed keep theirs.",
  ["inputs", "configurations"], "every set of input paths (depths, equal basenames, unclean, relative and absolute spellings) and outputPath values",
  "Tests check the prefix function on a few path lists; no test checks the resulting tree of files.",
  [I+"instructions/instructions.go", I+"instructions/utils.go", I+"instructions/config.go"], [("setOutputPath, GetCommonPrefix", I+"instructions/instructions.go, utils.go"), ("openOutputFile", I+"instructions/config.go")])
p("C17", "directories and duplicate listings are expanded correctly",
  "A directory stands for every .yaml and .yml file below it at any depth and no other file (also when the directory is given by a symbolic link), as if they were listed individually in lexical order at that place. Listings of the same file, by any spelling or through a directory, act as one entry with the overlays and documents of all listings in listed order, so the file is processed and output exactly once.",
  ["inputs", "configurations"], "every directory tree and every list of file and directory entries, relative or absolute, from instructions or --path",
  "No test expands nested directories or combines listings.",
  [I+"instructions/yamlfile.go", I+"instructions/utils.go"], [("expandDirectories, mergeDuplicates", I+"instructions/yamlfile.go"), ("getFileNames", I+"instructions/utils.go")])
p("C18", "stdout mode prints exactly the documents the files would contain",
  "With --stdout the standard output is exactly the concatenation, in instruction order, of what would have been written to the files, a single valid multi-document YAML stream without log text, at any log level. No file or directory is created.",
  ["inputs", "configurations"], "every instruction set, log level, style and number of files",
  "Tests never compare the two modes or look at stdout.",
  [I+"instructions/config.go", I+"commands/root.go"], [("doPostProcessing", I+"instructions/config.go"), ("logging to stderr", I+"commands/root.go")])
p("C19", "failures are reported: success means complete output",
  "If an instruction, values, configuration or source file cannot be read or parsed, a query, action or template is invalid, an overlay cannot be applied, or output cannot be written completely, yot exits with a non-zero status and a message on standard error. An exit status of zero means that every file was processed and completely written.",
  ["fault_sequences", "inputs"], "every kind of invalid input at every place, and a failure of any single open, read, write, close or mkdir operation",
  "Tests contain a few wantErr cases for parsing and none for I/O failures or exit status.",
  [I+"instructions/execute.go", I+"instructions/config.go", I+"instructions/instructions.go", I+"commands/root.go", "cmd/yot/main.go"], [("error returns up to Run and os.Exit(1)", I+"commands/root.go")],
  obs=["exit status and stderr", "system calls which were made to fail (strace fault injection)"])
p("C20", "no input crashes or hangs yot",
  "For any bytes in source, instruction, values and configuration files and any flag values yot ends by itself with a defined exit status (0 or 1) and never with a Go panic, fatal runtime error, signal or endless loop. Unusual but valid constructs (empty or null lists and entries, empty documents and files, missing keys, deleted documents, recursive anchors) are processed or rejected with an error message.",
  ["inputs"], "all byte strings as inputs, all structurally mutated instruction files; sed commands and templates which loop forever by themselves are excluded",
  "Tests feed only well-formed input.",
  [I+"instructions/instructions.go", I+"instructions/yamlfile.go", I+"overlays", I+"builder", I+"actions"], [("error returns instead of panics", "all packages")])
p("C21", "settings: flag over environment over config file over default",
  "Each setting (indent level, output style, output directory, stdout, remove-comments, log level, default onMissing action) takes effect from the command-line flag, else the YOT_* environment variable, else the configuration file, else its documented default, independently of the other settings. `yot env` reports exactly the values in effect, the same way every time.",
  ["configurations"], "every combination of sources for every setting and value",
  "No test sets environment variables or a configuration file.",
  [I+"commands/env.go", I+"commands/flags.go", I+"commands/root.go"], [("viper bindings", I+"commands/flags.go, root.go")])
p("C22", "templated instructions render as Go templates of the merged values",
  "With values files the instructions behave exactly like the text a Go template with the Sprig functions renders from the merged values; mappings of later values files are merged recursively over earlier ones, sequences are appended and any other value is overridden by the last file, literally. Without values files the instructions are used as they are, without any template processing.",
  ["inputs", "configurations"], "every number and content of values files and every template using values, control flow and Sprig functions",
  "Tests merge a few fixture files and never render with functions.",
  [I+"instructions/template.go", I+"instructions/values.go"], [("renderInstructionsTemplate", I+"instructions/template.go"), ("getValues", I+"instructions/values.go")])
p("C23", "command-line overlays equal the instruction-file equivalent",
  "An overlay given with --query, --value and --action (for files given with --path, instructions, or both) has exactly the effect of the same overlay as the last commonOverlays entry of an instruction file, and a stream read from standard input with --path - is processed exactly like a file with the same content.",
  ["inputs", "configurations"], "every overlay expressible by flags and every source",
  "Tests never compare the two ways of use.",
  [I+"instructions/config.go", I+"commands/flags.go"], [("ReadAdHocPaths, ReadAdHocOverlays", I+"instructions/config.go")])
p("C24", "style and indent change only the presentation",
  "The data of the output is the same for every indent level and for every style which does not by itself turn scalars into strings (normal, tagged, flow and their combinations); under the quoting and block styles all strings, structure and order are still the same. The requested style and indent level are visible in the output, and repeating a style has no further effect.",
  ["inputs", "configurations"], "every document, style list, style alias and indent level",
  "Tests check the flag map, not rendered output.",
  [I+"actions/style.go", I+"instructions/config.go"], [("SetStyle, GetStyleFromConfig", I+"actions/style.go"), ("SetIndent", I+"instructions/config.go")])
p("C25", "sources are never modified; writes stay where they belong",
  "A run never modifies, truncates, renames or deletes an input file (source, instructions, values, configuration) unless an output path explicitly names it, and creates or writes no file other than those it lists as output. This holds for successful and failing runs alike.",
  ["inputs", "configurations", "fault_sequences"], "every layout of inputs and outputs, spelling of paths, and failing run",
  "No test looks at the file system around a run.",
  [I+"instructions/config.go", I+"instructions/instructions.go"], [("openOutputFile", I+"instructions/config.go"), ("path derivation", I+"instructions/instructions.go: setOutputPath")])
p("C26", "the result depends only on the inputs, not on earlier runs",
  "Running yot into a directory with output of earlier runs, longer, shorter or different, leaves exactly the content a run into a fresh directory would write for each of its files. Feeding a result back through a run without overlays reproduces it, and applying overlays in two consecutive runs equals applying them in one.",
  ["histories", "inputs"], "every sequence of runs with changing instructions and sources",
  "Tests run once in a fresh directory.",
  [I+"instructions/config.go"], [("O_TRUNC on open", I+"instructions/config.go: openOutputFile")])
p("C27", "the output is always valid YAML",
  "Whatever the overlays do, every file written and the whole of standard output in stdout mode parse as YAML, with every alias referring to an anchor defined before it in the same document and no mapping, tag or comment text corrupted. In particular deleting or replacing anchored values, and inserting overlay values with anchors and aliases, keeps the output valid with the aliased data intact.",
  ["inputs", "configurations"], "every document and overlay, with anchors, aliases, merge keys, tags, comments and multi-line scalars, in every style",
  "No test has an alias, and no test re-parses output.",
  [I+"instructions/config.go", I+"actions/alias.go"], [("encodeNodes", I+"instructions/config.go"), ("ResolveAliases", I+"actions/alias.go")])
p("C28", "queries for keys rewrite, rename or remove exactly the named keys",
  "A query ending in ~ selects keys instead of values: merge and replace put the overlay's scalar in place of each selected key (with %v in a merge standing for the old key, passed through its sed command), combine appends its text to the key, and delete removes the entry. A renamed entry keeps its value, its position among the other entries and its comments (except kinds the overlay brings), and nothing else in the document changes.",
  ["inputs"], "every document, every key query (exact, wildcard, union, recursive descent, several queries) and scalar value which does not make two keys of a mapping equal",
  "No test has a query for a key.",
  [I+"overlays/overlay.go", I+"overlays/query.go", I+"actions/merge.go", I+"actions/delete.go", I+"actions/replace.go"],
  [("results which are key nodes", I+"overlays/overlay.go: doAction"), ("DeleteNode given a key", I+"actions/delete.go"), ("mergeScalar on a key", I+"actions/merge.go")])
p("C29", "any number of files is processed with few open files",
  "Every source, values, and output file is closed as soon as it was read or written, so that the number of files a run has open at a time does not grow with the number of files it processes: a run over many files, listed or found in directories, with many values files, succeeds with a small limit for open files, and gives the same result as without.",
  ["inputs", "histories"], "every number of sources, values files and outputs",
  "Tests process a handful of files under the default limit, where a file which stays open has no effect.",
  [I+"instructions/yamlfile.go", I+"instructions/config.go", I+"instructions/values.go"],
  [("closing of sources", I+"instructions/yamlfile.go: readYamlFile"), ("closing of outputs", I+"instructions/config.go: doPostProcessing"), ("closing of values files", I+"instructions/values.go: getValues")])
p("C30", "a failure is told with the file, the document and the place it comes from",
  "When one thing among many files is wrong, the message on standard error names what is wrong: the source, output or values file which cannot be read, parsed or written; for an overlay which cannot be applied, the source, the index of the document and the line and column of the value; for an invalid query or action, the instructions file and the line and column of that query or of that overlay. It names no source which has nothing wrong, whatever number of files is processed at the same time; and a run with nothing wrong reports no error.",
  ["inputs", "schedules", "fault_sequences"], "every single failing part among any number of files, in every order of processing",
  "Tests check that an error is returned for a handful of inputs, not what it tells when many files are processed at the same time.",
  [I+"overlays/workstream.go", I+"instructions/yamlfile.go", I+"instructions/values.go", I+"overlays/query.go", I+"overlays/overlay.go"],
  [("place of the overlay", I+"overlays/workstream.go: StartHandler"), ("source which cannot be read", I+"instructions/yamlfile.go: readYamlFile"), ("place of the query", I+"overlays/query.go: UnmarshalYAML"), ("values files", I+"instructions/values.go: getValues")])
p("C31", "a run which ends early leaves complete files and can be repeated",
  "When a run ends early, by a signal or a failing read or write at any point, every file it has listed before the last one is complete, at most one more file is touched, which then has its former content or the beginning of the new one, and all outputs it did not come to are as they were. Standard output is the beginning of that of a complete run, and an error is reported. Nothing is left behind which changes the next run: repeated at the same place it succeeds with exactly the outputs and the list of an undisturbed run.",
  ["crash_points", "fault_sequences", "histories"], "every point at which a run may end, for any number of files, with and without outputs of earlier runs",
  "Tests never end a run early, and look at the files of runs which succeed only.",
  [I+"instructions/execute.go", I+"instructions/config.go", I+"instructions/yamlfile.go"],
  [("one output after another", I+"instructions/execute.go: PostProcessHandler"), ("outputs truncated and listed", I+"instructions/config.go: openOutputFile"), ("errors of reads", I+"instructions/yamlfile.go: readYamlFile")])
p("C32", "nothing but the inputs and the documented settings has an influence",
  "The outputs, the list of files, standard output and error and the exit status of a run are determined by its arguments, the files they name and the documented settings alone. No other variable of the environment (however similar to a setting, locale, time zone, home directory), no other file in or above the working directory, no data on a standard input which was not asked for, and no other working directory, where the same files are named by absolute paths, changes them.",
  ["inputs", "configurations"], "every environment, working directory and neighbouring file together with any instructions",
  "Tests run in one environment and one working directory.",
  [I+"commands/root.go", I+"commands/env.go", I+"instructions/instructions.go", I+"instructions/config.go"],
  [("binding of the environment", I+"commands/root.go: initConfig"), ("names of the variables", I+"commands/env.go: envMap"), ("working directory", I+"instructions/instructions.go: GetInstructions")])
p("C33", "a run which fails over its inputs has output nothing",
  "When an instruction, values, configuration or source file cannot be read or parsed, a query, action, template or flag is invalid, or an overlay cannot be applied to some document, nothing is output at all, wherever among any number of files and documents the failure is: standard output is empty, no file is created, changed, emptied or removed, and the outputs of earlier runs are as they were.",
  ["inputs", "fault_sequences", "histories"], "every single failure of an input at every place among any number of files, with and without outputs of earlier runs",
  "Tests look at the returned error of a few failures, not at what the run has written before it, and have no outputs of earlier runs.",
  [I+"instructions/execute.go", I+"instructions/instructions.go", I+"instructions/config.go", "internal/commands/root.go"],
  [("output once all files are processed", I+"instructions/execute.go: Execute"), ("instructions and sources read first", I+"instructions/instructions.go: GetInstructions"), ("files opened", I+"instructions/config.go: openOutputFile")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
