#!/usr/bin/env python3
"""Writes known_findings.jsonl: defects found by the checks. The fixed ones suppress nothing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("C14", "34bf32a", "addCommonOverlays appended to a slice shared between files: the overlays of one file were applied to another"),
 ("C21", "a119470", "YOT_* environment variables with a dash in the setting name had no effect, and an invalid logLevel was accepted silently"),
 ("C22", "860da01", "instruction templates with a Sprig function failed: the functions were added after parsing"),
 ("C17", "63d635a", "files of a directory were moved behind all other yamlFiles entries (order of the output and of merged overlays)"),
 ("C16", "eb07327", "a directory with an outputPath lost its subdirectories: files of the same name overwrote each other"),
 ("C16", "86bf67d", "absolute input paths with ./.. or doubled slashes were output at wrong places, even outside of the output directory"),
 ("C13", "3cbabc9", "comments attached to the document itself were left with --remove-comments"),
 ("C24", "090f0bc", "a style given twice was added up to another style"),
 ("C10", "c9f0973", "onMissing inject of delete and combine created values; the default action was written into the shared overlay (data race, C15)"),
 ("C15", "b5576ab", "files were output in the order in which their goroutines ended, and files were written although an overlay of another one failed"),
 ("C20", "57b8ef1", "panic when injecting with an expression and no injectPath, or into a deleted document"),
 ("C20", "695ea87", "panic for a negative indent level"),
 ("C12", "5b7809e", "comments of the original value got lost when the overlay's value had another kind of comment"),
 ("C05", "814e99c", "combine of integers above 64 bits or in octal, hexadecimal, binary notation failed or gave a wrong sum"),
 ("C05", "f6adf6e", "combine of a number with text kept the tag !!int or !!float for a string"),
 ("C11", "5e42c35", "original text which looks like a format marker was interpreted"),
 ("C22", "7bd9e26", "values files were merged with the format markers of overlays: %v in a value was replaced"),
 ("C09", "d7e329c", "the value of a documentQuery was compared with its anchor: an anchored or aliased result never matched"),
 ("C19", "fcb3ae7", "an output file which could not be closed (deferred write error) was reported as success"),
 ("C20", "1f16780", "panic for empty list entries in the instructions"),
 ("C27", "9d0e79d", "deleting or replacing an anchored value left aliases without an anchor: invalid output; endless recursion for recursive anchors (C20)"),
 ("C01", "378969c", "merge into an alias changed the anchored value, or was lost"),
 ("C11", "4aef6e1", "the comment of a marker key was applied repeatedly"),
 ("C09", "aaa44e5", "a documentQuery condition with several results only looked at the last one"),
 ("C18", "805731b", "no separator before the first output document when the first document of the first file was deleted: streams run together"),
 ("C20", "5ef9675", "malformed YAML which makes the parser of the library panic crashed yot"),
 ("C20", "92d631a", "a query which makes the yamlpath library panic crashed yot"),
 ("C06", "272daab", "strings with blanks before line breaks, tabs or special characters changed in block, folded or plain style"),
 ("C12", "4a2dcbe", "line comments of block collections got lost, or made the output invalid before a value with an anchor or in flow style"),
 ("C09", "9530b0b", "the value of a documentQuery was compared with its style and comments"),
 ("C11", "69671e1", "a key made of format markers kept a tag its text does not allow: invalid output"),
 ("C11", "97f2004", "%v of a key whose value is an alias was empty"),
 ("C24", "f7d7267", "block scalars which end in several line breaks or begin with blanks were changed"),
 ("C24", "8957b6a", "the documented style name singleQuote was refused on the command line"),
 ("C19", "81d882f", "an unknown onMissing action was ignored silently"),
 ("C21", "1428d35", "the documented default log level was not the one in effect (documentation)"),
 ("C27", "6a4b4a8", "the line comment of a key separated it from the tag of its block collection when an output style was given"),
 ("C27", "8d34eb0", "the foot comment of a list entry replaced with a collection was written between the dash and the next entry: invalid output"),
 ("C11", "009bef2", "a line comment of several lines (format marker for a value of several lines) at a block scalar became part of its text"),
 ("C01", "e14434f", "an overlay key was compared with the anchor name of a key which is an alias, not with the value of the alias"),
 ("C01", "441c677", "merge: a key of the overlay which is a collection was taken for the key with the empty text, whose value was overwritten"),
 ("C11", "decec1b", "merge: a key with markers made a key which is a collection an empty scalar tagged !!map or !!seq"),
 ("C10", "40d3428", "the child name of an inject path was unescaped twice, so that a backslash in a key got lost and the value with it"),
 ("C17", "682f497", "a directory given by a symbolic link was taken for one without files: nothing was processed, with exit status 0"),
 ("C01", "b47d639", "an empty mapping merged over a value of another kind had no effect"),
 ("C21", "85883b0", "yot env printed the settings in another order on every call"),
 ("C19", "1341c17", "a list of written files which could not be output was not reported"),
 ("C29", "7313220", "values files were not closed: a run with many of them failed with \"too many open files\""),
 ("C30", "d929a74", "a values file which is not valid YAML was not named by the message"),
 ("C30", "6581c5a", "a file on which the YAML parser panics was not named by the message"),
 ("C19", "db2e4ba", "yot env reported success when its output could not be written"),
]
with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
    for p, c, w in F:
        f.write(json.dumps({"status": "fixed", "property": p, "commit": c, "what_failed": w, "entry": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")
