O = ' What the contracts do not reach is covered by the bounded replay search (labelled bounded, not counted as proof): '
CLAIMS.update({
 'C03': ('proof', 'linebreaks, line_col and the functions they call are under contract.'),
 'C02': ('proof', 'TextBuffer.__init__, buffer, lines, item access, snapshot, length and update (edit of the represented text) are under contract for plain strings; the list-of-edits front end for LSP dictionaries and StringView arguments are bounded (labelled search).'),
 'C04': ('proof', 'The construction of source maps (include files: generate_include_map; tokens: tokenized_to_original_mapping, strip_tokens), their validation and their application (source_map, srcmap_includes, apply_src_mappings) are under contract.' + O + 'the regular expressions that find includes and comments, the bookkeeping of _apply_preprocessors.'),
 'C05': ('proof', 'Classification (severity, error_category, is_/has_/only_ functions), equality and hash of errors and their location (add_source_locations) are under contract.' + O + 'collecting errors in RootNode.'),
 'C06': ('proof', 'The _parse methods of the combinators are under contract against the interface of their sub-parsers.' + O + 'Interleave, error recovery, SmartRE.'),
 'C07': ('proof', 'Every combinator under contract returns a node with exactly the consumed text, the tree reductions keep it.' + O + 'whole grammars with Interleave, SmartRE and the treatment of unmatched rests in Grammar.__call__.'),
 'C08': ('proof', 'Parser.__call__ (memoization, without history tracking), Forward, Capture, Retrieve, Pop and the rollback stack are under contract.' + O + 'whole parses with and without memoization, repeated use of a grammar object.'),
 'C10': ('proof', 'Node construction, content, length, positions, result assignment and changes of children by index index, membership, with_attr and has_equal_attr are under contract.' + O + 'deep copies, equality, slices, other index types.'),
 'C11': ('proof', 'select_if, select_path_if, walk_tree, name matching, selecting and picking of children, nodes and paths, siblings, next_path, prev_path, locate, locate_path, reconstruct_path, zoom_into_path and find_parent are under contract.' + O + 'match-functions other than names, the leaf iterators of paths.'),
 'C13': ('proof', 'split_node, the construction of mappings, get_path_index, get_path_and_offset, get_location, iterate_paths, find_common_ancestor and rebuild_mapping_slice are under contract.' + O + 'insert_node, markup, deep_split, local content mappings.'),
 'C14': ('proof', 'The transformations listed in the evidence are under contract.' + O + 'merging and moving transformations.'),
 'C16': ('proof', 'All functions of configuration.py that read or change values are under contract (one thread at a time).'),
 'C18': ('proof', 'json_encode_string and json_dumps (partially_serialized=True) are under contract: the text is a JSON text (RFC 8259) of exactly the given value; lists and tuples are seen as sequences, keys are strings, numbers are written by repr.' + O + 'the path through the standard library (partially_serialized=False), json_rpc, floats.'),
 'C17': ('proof', 'incomplete_header, split_header, read_full_block and the framing loop of Server.handle are under contract.'),
})
B = 'Bounded: so far decided by the labelled bounded search, with few functions under contract. '
for i in ['C02', 'C04', 'C05', 'C06', 'C07', 'C08', 'C10', 'C11', 'C12', 'C13', 'C14', 'C16', 'C17', 'C18']:
    CLAIMS.setdefault(i, ('exploration', B))
