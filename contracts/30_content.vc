#! content rules
== fn MarkdownNodeType::_allow_marks -> r
ensures r == allows(self),
== fn MarkdownNodeType::allows_mark_type -> r
ensures r == allows(self),
== fn MarkdownNodeType::allow_marks -> r
ensures r == marks_ok(self, marks.content@),
-- loop 1
invariant_except_break
    acc_1 == acc0_1,
invariant
    seq1@ == marks.content@, idx1 <= seq1@.len(),
    idx1 > 0 && acc_1 == acc0_1 ==> allows(self),
ensures
    (acc_1 == acc0_1) == (marks.content@.len() == 0 || allows(self)),
decreases seq1.len() - idx1,
== fn MarkdownNodeType::is_inline -> r
ensures r == is_inline_ty(self),
== fn MarkdownNodeType::is_block -> r
ensures r == is_block_ty(self),
== fn MarkdownNodeType::content_match -> r
ensures r == cm_of(self),
== fn MarkdownContentMatch::match_type -> r
ensures r == cm_step(self, type_),
== fn MarkdownContentMatch::valid_end -> r
ensures r == cm_end(self),
== fn MarkdownContentMatch::compatible -> r
ensures cm_start(self) && cm_start(other) ==> r == (exists|t: MarkdownNodeType| cm_step(self, t) is Some && #[trigger] cm_step(other, t) is Some),
-- start
        proof {
            lemma_common(self, other, MarkdownNodeType::Text);
            lemma_common(self, other, MarkdownNodeType::Paragraph);
            lemma_common(self, other, MarkdownNodeType::ListItem);
        }
== fn MarkdownNodeType::compatible_content -> r
ensures r == compat(self, other),
-- start
        proof { lemma_compat(self, other); }
== fn MarkdownContentMatch::match_fragment_range -> r
requires rfrom(range) <= rto(range, fragment.inner@.len() as int) <= fragment.inner@.len(),
ensures r == cm_fold(self, tys(fragment.inner@.subrange(rfrom(range), rto(range, fragment.inner@.len() as int)))),
-- beforeloop 1
        proof { lemma_tys_empty(); assert(seq1@.skip(0) =~= seq1@); }
-- loop 1
invariant
    seq1@ == fragment.inner@.subrange(start as int, end as int), idx1 <= seq1@.len(),
    cm_fold(self, tys(seq1@)) == cm_fold(test, tys(seq1@.skip(idx1 as int))),
decreases seq1.len() - idx1,
-- loopstart 1
                proof { lemma_tys_skip(seq1@, idx1 as int); }
-- attr #[verifier::loop_isolation(false)]
-- afterloop 1
        proof { lemma_tys_empty(); assert(fragment.inner@.subrange(start as int, end as int).skip(end - start) =~= Seq::<MarkdownNode>::empty()); }
== fn MarkdownContentMatch::match_fragment -> r
ensures r == cm_fold(self, tys(fragment.inner@)),
-- start
        proof { assert(fragment.inner@.subrange(0, fragment.inner@.len() as int) =~= fragment.inner@); }
== fn MarkdownNodeType::valid_content -> r
ensures r == valid_content(self, fragment.inner@),
-- start
        proof { lemma_cm_lang(self, tys(fragment.inner@)); }
-- loop 1
invariant
    seq1@ == fragment.inner@, idx1 <= seq1@.len(),
    forall|j: int| 0 <= j < idx1 ==> kid_marks_ok(self, #[trigger] seq1@[j]),
decreases seq1.len() - idx1,
== fn MarkdownNode::content_match_at -> r
requires index <= kids(*self).len(),
ensures r is Ok <==> cm_fold(cm_of(ty(*self)), tys(kids(*self).take(index as int))) is Some,
    r matches Ok(m) ==> cm_fold(cm_of(ty(*self)), tys(kids(*self).take(index as int))) == Some(m),
== fn MarkdownNode::can_replace -> r
-- attr #[verifier::loop_isolation(false)]
requires
    from <= to <= kids(*self).len(),
    rfrom(range) <= rto(range, opt_kids(replacement).len() as int) <= opt_kids(replacement).len(),
ensures
    r is Ok <==> cm_fold(cm_of(ty(*self)), tys(kids(*self).take(from as int))) is Some,
    r matches Ok(b) ==> b == ({
        let mid = opt_kids(replacement).subrange(rfrom(range), rto(range, opt_kids(replacement).len() as int));
        valid_kids(ty(*self), tys(kids(*self).take(from as int) + mid + kids(*self).skip(to as int)))
            && (forall|j: int| 0 <= j < mid.len() ==> kid_marks_ok(ty(*self), #[trigger] mid[j]))
    }),
-- start
        let ghost ks = kids(*self);
        let ghost mid = opt_kids(replacement).subrange(rfrom(range), rto(range, opt_kids(replacement).len() as int));
        proof {
            let c = cm_of(ty(*self));
            assert(tys(ks.take(from as int) + mid + ks.skip(to as int)) =~= tys(ks.take(from as int)) + tys(mid) + tys(ks.skip(to as int)));
            lemma_cm_fold_concat(c, tys(ks.take(from as int)) + tys(mid), tys(ks.skip(to as int)));
            lemma_cm_fold_concat(c, tys(ks.take(from as int)), tys(mid));
            lemma_cm_lang(ty(*self), tys(ks.take(from as int) + mid + ks.skip(to as int)));
            assert(ks.subrange(to as int, ks.len() as int) =~= ks.skip(to as int));
        }
-- loop 1
invariant
    start <= idx1 <= hi1, hi1 == end, end <= replacement.inner@.len(),
    mid == replacement.inner@.subrange(start as int, end as int),
    forall|j: int| 0 <= j < idx1 - start ==> kid_marks_ok(ty(*self), #[trigger] mid[j]),
decreases hi1 - idx1,
-- loopstart 1
                    proof { assert(mid[idx1 - start] == replacement.inner@[idx1 as int]); }
