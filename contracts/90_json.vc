//@ONLY C14
#! ---------------------------------------------------------------- JSON
== fn deserialize_or_default -> r
ensures made_string(deserializer.v@, match r { Ok(s) => Some(s), Err(_) => None }),
== fn Fragment::serialize -> r
ensures r is Ok, r->Ok_0.v@ == enc_hand_Fragment(*self),
== fn Text::serialize -> r
ensures r is Ok, r->Ok_0.v@ == enc_hand_Text(*self),
== fn MarkSet::serialize -> r
ensures r is Ok, r->Ok_0.v@ == enc_hand_MarkSet(*self),
== fn MarkdownNode::node_size -> r
requires own_size(*self),
ensures r == toks(*self).len(),
-- start
        proof { axiom_node_fits(*self); lemma_toks_cont(*self); if is_text(*self) { lemma_units16(text_of(*self).text.content@, text_of(*self).marks.content@); } }
== fn Fragment::from@Vec<MarkdownNode -> r
requires exact_all(src@),
ensures made_fragment(src, r),
-- beforeloop 1
        proof { axiom_fits(src); assert(src@.take(src@.len() as int) =~= src@); }
-- loop 1
invariant
    seq1@ == src@, idx1 <= src@.len(), exact_all(src@),
    acc_1 == flat(src@.take(idx1 as int)).len(),
    flat(src@).len() <= isize::MAX,
decreases src@.len() - idx1,
-- loopstart 1
                    proof { lemma_flat_take(src@, idx1 as int); lemma_flat_at(src@, idx1 as int); lemma_exact_at(src@, idx1 as int); lemma_exact_own(src@[idx1 as int]); }
//@END
