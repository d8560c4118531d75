"""What each property is proved from: the contracts whose postconditions (or preconditions) state it."""
PROPS = {
    "C01": {
        "roots": ["MarkdownNode::replace", "ReplaceStep::apply"],
        "shallow": ["Step::apply"],
        "note": "The postcondition of Node::replace: success implies a valid range and a fitting slice, and the tokens of the result are the splice; discharged through contracts on replace, replace_outer, replace_two_way, replace_three_way, prepare_slice_for_replace, add_range, add_node, close and joinable.",
    },
    "C02": {
        "roots": ["Fragment::cut", "MarkdownNode::cut", "MarkdownNode::slice"],
        "note": "The postconditions of slice, Node::cut and Fragment::cut give the tokens, the open depths and the acceptance condition for all inputs.",
    },
    "C03": {
        "roots": ["Text::from@String", "Text::join", "Fragment::from@Vec<MarkdownNode", "Fragment::append", "Fragment::cut", "Fragment::replace_child", "MarkdownNode::node_size",
                  "MarkdownNode::slice", "MarkdownNode::replace", "Slice::insert_at", "Step::apply"],
        "note": "The representation invariant wf (cached length and size exact at every depth, no empty text) is a postcondition of every function that makes a text, a fragment or a node.",
    },
    "C04": {
        "roots": ["MarkdownNode::resolve", "ResolvedPos::resolve", "ResolvedPos::node", "ResolvedPos::index", "ResolvedPos::index_after", "ResolvedPos::start", "ResolvedPos::end",
                  "ResolvedPos::before", "ResolvedPos::after", "ResolvedPos::text_offset", "ResolvedPos::node_before", "ResolvedPos::node_after", "ResolvedPos::shared_depth", "ResolvedPos::parent", "ResolvedPos::doc"],
        "note": "resolve establishes the data structure invariant of a position (path, indices, offsets) and succeeds exactly when it should; the accessors' postconditions follow from it.",
    },
    "C05": {
        "roots": ["client_history", "MarkdownNode::replace", "ReplaceStep::apply", "AddMarkStep::apply", "RemoveMarkStep::apply"],
        "shallow": ["Step::apply"],
        "note": "Validity of every node is a predicate on the tokens (proved equivalent to the recursive one over nodes). close accepts only valid content, and replace_two_way, replace_three_way and replace_outer accept only if the content of every node around the two ends is valid afterwards; from this the postconditions of Node::replace and of the steps: a valid document stays valid. For mark steps it follows from which characters get the mark. client_history proves it by induction for histories of any length.",
        "not_proved": "nothing for Replace, AddMark and RemoveMark steps; for a ReplaceAround step it is proved under the condition that the closed nodes of the slice with the gap put in are valid, which insert_into does not check (see DESIGN.md)",
    },
    "C06": {
        "roots": ["AddMarkStep::apply"],
        "shallow": ["Step::apply"],
        "note": "The postcondition of AddMarkStep::apply gives every token of the result: those outside of the range as they were, and the characters inside with the mark added (spec function madd) exactly when the type of the innermost open node allows marks. The recursion over the slice is proved on map_fragment_parent for every function that acts on inline nodes.",
    },
    "C07": {
        "roots": ["RemoveMarkStep::apply"],
        "shallow": ["Step::apply"],
        "note": "As for C06, with the mark removed (spec function mrem) from every character of the range.",
    },
    "C08": {
        "roots": ["MarkSet::contains", "MarkSet::add", "MarkSet::remove", "MarkdownMark::add_to_set", "MarkdownMark::remove_from_set", "MarkdownMark::into_set", "MarkdownMark::type_", "MarkSet::try_from", "client_sets_by_members", "client_equal_by_members"],
        "note": "The invariant (sorted, one per type) is kept by each operation, and each operation's effect is given by a spec function on the sequence of marks. A list of marks becomes a set of the same marks exactly when no two have one type (the standard library's sort and dedup are assumed to do what they document); client_sets_by_members and client_equal_by_members say that sets with the same members are equal, in whatever order they were given.",
    },
    "C09": {
        "roots": ["MarkdownNodeType::allow_marks", "MarkdownNodeType::allows_mark_type", "MarkdownNodeType::is_inline", "MarkdownNodeType::is_block", "MarkdownNodeType::content_match",
                  "MarkdownNodeType::compatible_content", "MarkdownNodeType::valid_content", "MarkdownContentMatch::match_type", "MarkdownContentMatch::match_fragment", "MarkdownContentMatch::match_fragment_range",
                  "MarkdownContentMatch::valid_end", "MarkdownContentMatch::compatible", "MarkdownNode::content_match_at", "MarkdownNode::can_replace"],
        "note": "Every function of the matcher is proved against the language of the documented expression, for child sequences of any length.",
    },
    "C10": {
        "roots": ["Step::apply", "ReplaceStep::apply", "ReplaceAroundStep::apply", "AddMarkStep::apply", "RemoveMarkStep::apply", "MarkdownNode::slice", "MarkdownNode::resolve", "MarkdownNode::replace",
                  "Slice::insert_at", "MarkdownNode::cut", "Fragment::cut", "Fragment::find_index", "ResolvedPos::resolve", "ResolvedPos::node_before", "ResolvedPos::node_after", "ResolvedPos::shared_depth"],
        "note": "No function on these paths has a precondition on positions, ranges or open depths; the verifier shows for each that no index, subtraction, addition, unwrap, panic or callee precondition can fail, and that every loop and recursion ends (decreases clauses).",
        "assumptions": ["memory and the call stack do not run out"],
    },
    "C11": {
        "roots": ["ReplaceAroundStep::apply"],
        "shallow": ["Step::apply"],
        "note": "The postcondition of ReplaceAroundStep::apply, over the contracts of slice, insert_at and replace.",
    },
    "C12": {
        "roots": ["ReplaceStep::apply", "ReplaceAroundStep::apply", "content_between"],
        "shallow": ["Step::apply"],
        "note": "content_between is proved to decide exactly `closing tokens, then opening tokens`; the steps' postconditions state when they refuse for this reason (if and only if) and that success implies only structure was overwritten.",
    },
    "C13": {
        "roots": ["Fragment::nodes_between", "Fragment::text_between", "MarkdownNode::text_content", "client_positions"],
        "note": "The callback is a parameter with its own (prophetic) relation between the state before and after a call; the postcondition of nodes_between is the recursive definition of the calls of a traversal over that relation, for every callback. That a callback which always goes on is called on exactly the nodes that overlap the range, with their positions and in document order, is lemma_visits_filter and lemma_walk_chain; client_positions uses the contract alone. The closure of text_between is extracted as a structure of its captured variables with a method, which is proved against its relation; the text is then given over the tokens of the range (tb_fold).",
    },
    "C14": {
        "roots": ["client_json_node", "client_json_slice", "client_json_step", "client_json_needed", "Fragment::from@Vec<MarkdownNode", "Text::from@String", "MarkSet::try_from", "deserialize_or_default",
                  "Fragment::serialize", "Text::serialize", "MarkSet::serialize", "Fragment::default"],
        # what derived code does is in these lemmas: they are generated from the declarations
        "deciding_lemmas": "lemma:(lemma_(rt|rtf|rts|jx|jxf|jxq|jxs|jxv|encf|dft)_|client_json_)",
        "note": "The extractor generates from the declarations and their serde attributes what the derived code writes and reads (enc_T, dec_T over JSON values, objects as entries in order, fields in array notation and numeric tags included), with one round-trip lemma and one exactness lemma per type; anything it has no rule for is reported and leaves the proof undecided. The hand-written parts (Fragment::from, Text::from, MarkSet::try_from, deserialize_or_default, the three serialize functions) are proved against the same relations. client_json_node, _slice and _step put them together by induction over documents of any depth; client_json_needed says what is answered with an error.",
        "assumptions": ["the derived code does what serde's documentation says of the declarations and attributes (enc_*, dec_*, generated); serde_json writes and reads JSON values faithfully, within its limit of 128 levels; the values that axiom_fragment_from, axiom_text_from, axiom_set_from, axiom_empty_fragment and axiom_string_or_default speak of are those that the functions of the same names return (their contracts are proved)"],
    },
    "C15": {
        "roots": ["from_markdown", "to_markdown", "MarkdownSerializer::next", "client_md_round_trip"],
        "note": "Import is proved: `built` is a recursive definition of the document that a sequence of parser events describes (open nodes, open marks, joined texts, paragraphs that tight list items leave out, the last line end of code blocks, image alternatives), and the contracts of MarkdownDeserializer::deserialize and all it calls say that from_markdown returns exactly that document, or an error exactly when there is none; lemma_import_valid shows by induction over the events that it is valid at every depth, with no empty texts, no texts to be joined and sorted marks. Export is proved: `doc_evs` is a recursive definition of the events of a document (nodes begun and ended, marks opened and closed around texts, the line end and alternative text that import takes off again); the contract of MarkdownSerializer::next says that each call yields exactly the next of them, from every reachable state of the traversal, and ends, and to_markdown gives the writer exactly these. The round trip is proved: lemma_round_trip (by induction over the tree) says that for every valid document the events of the document build the document, up to the tightness of lists, which is not written; client_md_round_trip gets from the contracts that an exported text is imported again as the same document wherever the parser finds in it the events that were written. The search for failing inputs runs the real writer and parser.",
        "assumptions": ["pulldown-cmark's Parser yields finitely many events, a function of the text (md_events, not specified further), and does not panic; what pulldown-cmark-to-cmark's writer makes of events is a function of them (md_text, not specified further); the search for inputs uses it on both sides of the comparison"],
    },
    "C16": {
        "roots": ["client_own_slice", "MarkdownNode::replace", "MarkdownNode::slice"],
        "note": "The postcondition of Node::replace: success for every valid range and slice for which the slice fits, the joined nodes are compatible and all changed nodes are valid; through the exact conditions of success of joinable, close, replace_two_way, replace_three_way and replace_outer. client_own_slice proves from the contracts of slice and replace that the slice of a range always satisfies them and that the result is the same document, node by node (the tokens determine a document without adjacent texts with the same marks).",
    },
    "C17": {
        "roots": ["Step::apply", "ReplaceStep::apply", "ReplaceAroundStep::apply", "AddMarkStep::apply", "RemoveMarkStep::apply", "MarkdownNode::replace", "Fragment::append", "MarkdownNode::slice", "MarkdownNode::cut", "Fragment::cut"],
        "note": "The invariant norm (no two adjacent texts with the same marks, at any depth) is a postcondition of each operation that puts content together, given that its inputs have it; it is carried through add_node, add_range, replace_two_way, replace_three_way, replace_outer, prepare_slice_for_replace and insert_into. That the joined texts keep their characters and marks is in the token sequences of the same contracts.",
    },
}
NOT_APPLICABLE = {
}
