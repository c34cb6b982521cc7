#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": ["DHParser/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A string view behaves exactly like the plain string slice it stands for",
 "For every text and every in-range pair of bounds, a string view taken from it (directly or by slicing another view, any number of times) has the same length, truth value, equality, hash, concatenation, item access, slices, find/rfind/count results, prefix and suffix tests, stripping, splitting and replacing as the plain string text[begin:end] it stands for. Regular expressions are matched and searched inside exactly the viewed section of the underlying text, and reading a view (which may cache its string) never changes what it denotes.",
 ["inputs", "histories"], "all texts, all begin/end bounds and nested slices, all search strings and bounds, with or without the cached string",
 "tests use a few literal texts and bounds; the off-by-one and caching branches depend on arbitrary combinations of bounds, view offset and cache state",
 ["stringview.py"], [("view bounds", "StringView.__init__, real_indices, pack_index"), ("slicing", "StringView.__getitem__"), ("searching", "StringView.find/rfind/count/startswith/endswith/search/match/finditer"), ("stripping/splitting", "first_char, last_char, StringView.strip/lstrip/rstrip/split")])
prop("C02", "Text buffer edits are exactly the corresponding edits of the full text",
 "For every document with newline-separated lines and every sequence of range edits with valid line/column positions, the text buffer afterwards denotes exactly the previous text with the edited range replaced by the new text, and its snapshot, line count and line access agree with that text. The version number increases by one with every edit unless it is set explicitly.",
 ["inputs", "histories"], "all documents, all sequences of valid single- or multi-line edits",
 "tests apply a handful of edits to one document; agreement must hold after every history of edits",
 ["stringview.py"], [("edit", "TextBuffer.update, TextBuffer.text_edits"), ("views of the text", "TextBuffer.snapshot, __str__, __len__, lines, __getitem__")])
prop("C03", "Positions and line/column pairs correspond one to one",
 "For every text and every position from 0 up to and including its length, the reported line is one plus the number of newlines before the position and the reported column is the distance to the last newline before it (or to the beginning of the text), so that no two positions share a line/column pair. Positions outside this range are rejected with a ValueError instead of being mapped.",
 ["inputs"], "all texts (also string views) and all integer positions",
 "tests compare a few positions in a few texts; the boundary positions (newline characters, first column, end of text) need every text",
 ["toolkit.py"], [("line break table", "linebreaks"), ("position lookup", "line_col")])
prop("C04", "Source maps lead every position back to the text it came from",
 "For every document assembled from include files (nested, adjacent, repeated) every position of the assembled text that holds a character is mapped to the file and position holding that very character, and circular includes are rejected. For every text with inserted preprocessor tokens every character that is copied from the original is mapped to its own position in the original, including the end of the text, and stripping the tokens yields the original text again (tokens are well-formed, i.e. the delimiters do not occur in the original text). Chained preprocessors map a position through all their source maps in reverse order of application.",
 ["inputs", "programs"], "all include structures, all placements of preprocessor tokens, all positions",
 "tests check a handful of positions in hand-written include structures",
 ["preprocess.py"], [("lookup", "source_map, srcmap_includes, apply_src_mappings"), ("token maps", "tokenized_to_original_mapping, strip_tokens, make_token"), ("include maps", "generate_include_map"), ("chaining", "_apply_preprocessors")])
prop("C05", "Errors are classified, collected and located without loss",
 "For every error the severity label follows from the ranges notice < 100 <= warning < 1000 <= error < 10000 <= fatal of its code, consistently across all classification and filter functions. An error added to a syntax tree keeps its code and is reported exactly once (errors with the same code and position count as the same error), in order of position when sorted; the overall error flag is the maximum of the codes of all added errors. Locating errors gives every error the file, line, column and end of range (at most the end of the text) of its mapped original position.",
 ["inputs", "histories"], "all error codes, all histories of added errors, all source mappings",
 "tests exercise a few codes and single errors",
 ["error.py", "nodetree.py"], [("classification", "is_warning, is_error, is_fatal, has_errors, only_errors, Error.severity"), ("collection", "RootNode.add_error, RootNode.errors, RootNode.errors_sorted, RootNode.node_errors"), ("location", "add_source_locations")])
prop("C06", "Every parser combinator follows its PEG rule",
 "For all sub-parsers and input texts, each combinator (literal text, regular expression, whitespace, option, repetition, bounded repetition, sequence, ordered choice, any-order group, lookahead, lookbehind and their negations) matches exactly when its parsing-expression rule says so, consumes exactly the text the rule prescribes, and leaves the location untouched when it fails. Choice takes the first matching alternative, repetition and any-order groups are greedy and always terminate (an element of an any-order group that matches the empty text counts as matched), lookaround consumes nothing; lookbehinds are matched against the reversed text before the location.",
 ["programs", "inputs"], "all combinator expressions over arbitrary sub-parsers, all input texts and locations",
 "tests use a few grammars; the rule has to hold for arbitrary sub-parsers including those that match the empty string",
 ["parse.py"], [("combinators", "the _parse methods of Text, IgnoreCase, RegExp, Whitespace, Option, ZeroOrMore, OneOrMore, Counted, Series, Alternative, Interleave, Lookahead, NegativeLookahead, Lookbehind, NegativeLookbehind, Synonym, Always, Never, AnyChar")])
prop("C07", "Parsing loses no text and records true positions",
 "For every grammar without dropped content and every document the text content of the resulting syntax tree is exactly the parsed part of the document, and every node's position is the place where its text begins in the document. The tree reductions performed while parsing (flattening, omission of anonymous nodes, merging of anonymous leaves) never change that text. When a document is not fully matched, the unmatched rest is still present in the tree and an error is reported.",
 ["programs", "inputs"], "all grammars (all tree reduction levels), all documents",
 "tests compare trees of a few documents; the guarantee covers every combination of combinators, names, disposable marks and reduction levels",
 ["parse.py", "nodetree.py"], [("return values", "NaryParser._return_values*, CombinedParser._return_value*"), ("driver", "Grammar.__call__"), ("positions", "Node.with_pos, Parser.__call__")])
prop("C08", "Memoization and backtracking do not change the outcome of parsing",
 "For every grammar without left recursion and every document, parsing with memoization yields the same tree and the same errors (apart from the hint where the farthest failure occurred) as parsing without it, no matter how often rules are retried at the same place. Non-empty values captured while parsing are taken back when the parser backtracks across the capture, retrieving or popping a captured value succeeds only on the same text as captured, and repeated use (also with changing start-parsers) of one grammar object gives the same results as a fresh one.",
 ["programs", "inputs", "histories"], "all grammars without left recursion, all documents, all histories of use of a grammar object",
 "transparency of a cache relates two runs of every grammar on every document",
 ["parse.py"], [("memoization", "Parser.__call__, LeafParser.__call__, NoMemoizationParser.__call__, Grammar.get_memoization_dict__"), ("backtracking", "Grammar.push_rollback__, Grammar.rollback_to__"), ("variables", "Capture, Retrieve, Pop"), ("reuse", "Grammar.reset__, Parser.reset")])
prop("C10", "Syntax-tree nodes keep content, length and positions consistent",
 "For every tree a leaf's content is its string and a branch's content is the concatenation of its children's contents, the reported length is the length of the content, and after assigning a position every node's position is the position of its tree plus the length of all content before it. A copy of a tree is equal to, but shares no node or attribute dictionary with the original; structural equality holds exactly for trees with the same names, structure, content and attributes. Inserting, removing, replacing and indexing children affects exactly the addressed children.",
 ["inputs", "histories"], "all trees and all sequences of child manipulations",
 "tests use a few small trees",
 ["nodetree.py"], [("content", "Node.content, Node.strlen, Node.result, Node.children"), ("positions", "Node.with_pos"), ("copying/equality", "Node.__deepcopy__, Node.equals, Node.same_attr"), ("manipulation", "Node.__getitem__, Node.__setitem__, Node.__delitem__, Node.insert, Node.remove, Node.index, Node.replace_by")])
prop("C11", "Tree selection and navigation visit exactly the right nodes in document order",
 "For every tree and every match condition, selecting nodes yields exactly the matching nodes, each once, in document order (reverse order if requested), the starting node only if requested; nothing is selected below a node matching the skip condition. Paths yielded by path selection are chains of parent and child ending in the matched node. Stepping to the next or previous path visits neighbours in document order without omission, and locating a position finds the leaf that covers it.",
 ["inputs"], "all trees, all match conditions, all positions",
 "tests use a few trees and conditions",
 ["nodetree.py"], [("selection", "Node.select_if, Node.select, Node.pick_if, Node.select_path_if, Node.select_children, Node.find_parent"), ("navigation", "next_path, prev_path, leaf_path, next_leaf_path, prev_leaf_path, find_common_ancestor"), ("location", "Node.locate, Node.locate_path")])
prop("C12", "Serialized trees read back as the same tree",
 "For every syntax tree, writing it as JSON (list or dictionary flavour) and reading the text back yields an equal tree: same names, structure, text and attributes. The same holds for S-expressions if the text contains no control characters other than line breaks and no line with both kinds of quotation marks and no attribute bears one of the reserved names pos and err, and for XML if names are valid XML names and the text contains neither control characters nor entity look-alikes; a standard XML parser reads the XML output as the same text and attributes. Writing never fails because of characters in the text content or attribute values.",
 ["inputs"], "all trees with valid names (dictionary-flavoured JSON: none named like a reserved key), all text content and attribute values representable in the format",
 "tests round-trip a few trees without awkward characters",
 ["nodetree.py"], [("S-expressions", "Node.as_sxpr, parse_sxpr, flatten_sxpr"), ("JSON", "Node.to_json_obj, Node.from_json_obj, Node.as_json, parse_json"), ("XML", "Node.as_xml, parse_xml, xml escaping")])
prop("C13", "Content mappings and markup never change the text of a document",
 "For every tree the content mapping's text is the text of the selected leaves in document order and every text position is mapped to the leaf and offset holding that character. Splitting nodes at a position, inserting milestones and adding markup for a range leave the text content of the tree unchanged (or are refused with a ValueError that leaves the tree unchanged); the marked-up nodes cover exactly the marked range of text.",
 ["inputs", "histories"], "all trees, positions, ranges and sequences of markup operations",
 "tests mark up a few hand-picked ranges",
 ["nodetree.py"], [("mapping", "ContentMapping.__init__, get_path_index, get_path_and_offset, iterate_paths"), ("splitting", "split_node, deep_split"), ("markup", "ContentMapping.markup, insert_node, reset_mapping")])
prop("C14", "Tree-restructuring transformations preserve the document's text",
 "For every tree, the transformations that only restructure (replacing or reducing nodes by their single child, flattening, collapsing, merging leaves or adjacent nodes, moving whitespace to the fringes, leaning left, renaming, adding delimiter-free wrappers) leave the text content of the tree unchanged and keep children in order (conflicting attributes are rejected with a ValueError). Removing and stripping transformations drop exactly the children fulfilling their condition and nothing else.",
 ["inputs"], "all trees and all conditions",
 "tests transform a few trees",
 ["transform.py"], [("restructuring", "replace_by_single_child, reduce_single_child, replace_by_children, flatten, collapse, collapse_children_if, merge_adjacent, merge_leaves, move_fringes, left_associative, lean_left, change_name, fix_content"), ("removal", "remove_children_if, strip, lstrip, rstrip, keep_children")])
prop("C16", "Configuration values follow the documented precedence and are validated",
 "For every history of configuration calls, reading a value in a thread returns the value last set in that thread, otherwise the value preset for new threads at the time of first access, otherwise the given default; reading several values by patterns returns the same values that single reads return for all matching keys. Setting or presetting a value outside the allowed set or range of a variable, or an unknown variable, is rejected without changing any value, and presets can only be read or changed between beginning and finishing preset access, which must not be nested.",
 ["histories", "configurations"], "all sequences of reads and writes of presets and values, all keys and patterns",
 "tests exercise a few keys one after the other",
 ["configuration.py"], [("reading", "get_config_value, get_config_values"), ("writing", "set_config_value, set_preset_value, add_config_values"), ("validation", "validate_value"), ("preset access", "access_presets, finalize_presets")])
prop("C17", "Message framing does not depend on how the bytes arrive",
 "For every sequence of header-framed messages the reader recovers each message body exactly (by its content length) and hands over the remaining bytes unchanged, no matter into which chunks the byte stream is cut. Incomplete data is reported as incomplete, never as a truncated message. Messages start with a Content-Length or Content-Type header field and end with exactly as many bytes as the Content-Length field says (possibly none).",
 ["inputs", "schedules"], "all message sequences and all ways to cut the byte stream into chunks",
 "tests send whole messages over a local socket",
 ["server.py"], [("framing", "read_full_block, split_header, incomplete_header, Server.handle")])
prop("C18", "JSON output of the toolkit is valid JSON for the same value",
 "For every JSON value (with arbitrary strings, nesting and numbers) the toolkit's JSON writer (json_dumps, json_rpc) yields text which a standard JSON parser reads back as the same value, also when parts of the value are already serialized. Encoded strings never contain raw control characters or unescaped quotation marks.",
 ["inputs"], "all JSON values",
 "tests encode a few literals",
 ["toolkit.py"], [("JSON writer", "json_dumps, json_encode_string")])
prop("C19", "Equivalent grammars in different EBNF notations parse alike",
 "For every grammar, writing it in any of the supported EBNF notations yields parsers which accept the same documents and produce the same trees.",
 ["programs", "inputs"], "all grammars in all supported notations, all documents",
 "tests compare a few notations of single grammars",
 ["ebnf.py"], [("grammar compiler", "EBNFCompiler, HeuristicEBNFGrammar")])
prop("C20", "The compilation server stays responsive and never mixes up responses",
 "For every interleaving of requests, cancellations and shutdowns from several clients every request gets exactly one response carrying its own id.",
 ["schedules", "fault_sequences"], "all interleavings of concurrent requests",
 "tests send requests one by one",
 ["server.py"], [("dispatch", "Server.handle, Connection, ExecutionEnvironment")])
prop("C21", "Left-recursive grammars parse like their iterative counterparts",
 "For every directly or indirectly left-recursive grammar, parsing terminates and yields the left-associative tree of the longest match.",
 ["programs", "inputs"], "all left-recursive grammars and documents",
 "tests use half a dozen left-recursive grammars",
 ["parse.py"], [("seed and grow", "Forward.__call__")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
