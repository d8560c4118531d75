//@ONLY C08,C14
#! ---------------------------------------------------------------- sets from lists of marks
== fn MarkSet::try_from -> r
ensures
    set_of(value_p@, match r { Ok(s) => Some(s.content@), Err(_) => None }),
    @C14: made_set(value_p, match r { Ok(s) => Some(s), Err(_) => None }),
-- start
        proof {
            assert forall|b: Seq<MarkdownMark>| #[trigger] rearranged(value_p@, b) && #[trigger] sorted_marks(b) implies distinct_types(value_p@) by { lemma_rearranged_distinct(value_p@, b); }
            assert forall|b: Seq<MarkdownMark>| #[trigger] rearranged(b, value_p@) && #[trigger] weakly_sorted(b) && !apart(b) implies !distinct_types(value_p@) by { if distinct_types(value_p@) { lemma_rearranged_back(value_p@, b); } }
        }
//@END
