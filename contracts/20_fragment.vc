#! fragments: index lookup, concatenation, cuts
== fn Fragment::find_index -> r
requires wf_frag(*self),
ensures
    r is Err <==> pos > self.size,
    r matches Ok(ix) ==> {
        &&& ix.index <= self.inner@.len()
        &&& ix.offset == flat(self.inner@.take(ix.index as int)).len()
        &&& !round ==> ix.offset <= pos && (ix.offset < pos ==> ix.index < self.inner@.len() && pos < flat(self.inner@.take(ix.index + 1)).len())
        &&& round ==> ix.offset >= pos && (ix.offset > pos ==> ix.index > 0 && flat(self.inner@.take(ix.index - 1)).len() < pos)
    },
-- start
        proof {
            axiom_fits(self.inner);
            lemma_wf_all(self.inner@);
            assert(self.inner@.take(self.inner@.len() as int) =~= self.inner@);
            assert(self.inner@.take(0) =~= Seq::<MarkdownNode>::empty());
            assert(flat(self.inner@.take(0)).len() == 0);
        }
-- loop 1
invariant
    seq1@ == self.inner@, idx1 <= seq1@.len(), wf_frag(*self),
    forall|i: int| 0 <= i < seq1@.len() ==> wf_node(#[trigger] seq1@[i]),
    seq1@.take(seq1@.len() as int) == seq1@,
    flat(seq1@).len() <= isize::MAX,
    cur_pos == flat(seq1@.take(idx1 as int)).len(),
    cur_pos < p, p == pos, pos < self.size,
decreases seq1.len() - idx1,
-- loopstart 1
                        proof { lemma_flat_mono(seq1@, idx1 + 1, seq1@.len() as int); lemma_flat_take(seq1@, idx1 as int); }
== fn Fragment::append -> r
requires wf_frag(self), wf_frag(other_p),
ensures
    wf_frag(r),
    flat(r.inner@) == flat(self.inner@) + flat(other_p.inner@),
    norm(self.inner@) && norm(other_p.inner@) ==> norm(r.inner@),
    forall|i: int| 0 <= i < r.inner@.len() ==> is_text(#[trigger] r.inner@[i]) || self.inner@.contains(r.inner@[i]) || other_p.inner@.contains(r.inner@[i]),
-- start
        let ghost a0 = self.inner@;
        let ghost b0 = other_p.inner@;
        proof {
            axiom_fits(self.inner); axiom_fits(other_p.inner);
            lemma_wf_all(self.inner@); lemma_wf_all(other_p.inner@);
            assert(flat(Seq::<MarkdownNode>::empty()).len() == 0);
            if b0.len() == 0 { assert(b0 =~= Seq::empty()); assert(flat(a0) + flat(b0) =~= flat(a0)); }
            if a0.len() == 0 { assert(a0 =~= Seq::empty()); assert(flat(a0) + flat(b0) =~= flat(b0)); }
            assert forall|i: int| 0 <= i < a0.len() implies a0.contains(#[trigger] a0[i]) by { }
            assert forall|i: int| 0 <= i < b0.len() implies b0.contains(#[trigger] b0[i]) by { }
        }
-- before /self_\.inner\.append/
                proof { if b0.len() > 0 { lemma_append(a0, b0, self_.inner@, other.inner@); lemma_norm_append(a0, b0, self_.inner@, other.inner@); } axiom_fits(self_.inner); }
-- before /if let Some\(n1\) = last/
                proof { if is_text(*last) && is_text(b0[0]) { axiom_str_fits(text_of(*last).text.content); lemma_join(a0, b0); } }
== fn Fragment::cut -> r
requires
    wf_frag(*self), rto(range, self.size as int) <= self.size,
    bnd(flat(self.inner@), rfrom(range)), bnd(flat(self.inner@), rto(range, self.size as int)),
ensures
    wf_frag(r),
    flat(r.inner@) == cutf(flat(self.inner@), rfrom(range), rto(range, self.size as int)),
    norm(self.inner@) ==> norm(r.inner@),
decreases self,
-- attr #[verifier::spinoff_prover]
-- start
        hide(flat); hide(toks); hide(wf_node); hide(wf_all); hide(cutf);
        let ghost s = self.inner@;
        proof { lemma_empty(); axiom_fits(self.inner); assert(self.inner.len() == s.len()); lemma_wf_all(s); lemma_cutf_full(s); assert(s.take(0) =~= Seq::<MarkdownNode>::empty()); }
-- loop 1
invariant
    s == self.inner@, wf_frag(*self), flat(s).len() <= isize::MAX - 2, s.len() <= usize::MAX,
    forall|i: int| 0 <= i < s.len() ==> wf_node(#[trigger] s[i]),
    from < to <= self.size,
    bnd(flat(s), from as int), bnd(flat(s), to as int),
    i <= s.len(), pos == flat(s.take(i as int)).len(),
    wf_all(result@), size == flat(result@).len(),
    flat(result@) == (if pos <= from { Seq::empty() } else { cutf(flat(s), from as int, if pos <= to { pos as int } else { to as int }) }),
    norm(s) ==> norm(result@), result@.len() > 0 ==> pos > from && i > 0 && alike(result@.last(), s[i - 1]),
decreases s.len() - i,
-- loopstart 1
                let ghost res0 = result@;
                proof {
                    if i >= s.len() { assert(s.take(i as int) =~= s); }
                    lemma_norm(s);
                    lemma_flat_at(s, i as int);
                    lemma_flat_take(s, i as int);
                    lemma_wf_nonempty(s[i as int]);
                    lemma_toks_cont(s[i as int]);
                    lemma_wf_cont(s[i as int]);
                    axiom_node_fits(s[i as int]);
                    if from < cc_end(s, i as int) { lemma_cut_child(s, i as int, from as int, to as int); }
                }
-- before /size \+= new_child.node_size/
                    proof {
                        assert(cut_kid(s, i as int, from as int, to as int, new_child));
                        axiom_fits(result);
                        axiom_node_fits(new_child);
                        lemma_cut_push(s, i as int, from as int, to as int, result@, new_child);
                        if norm(s) { lemma_norm_push(result@, new_child); }
                    }
== fn Fragment::replace_child -> r
requires wf_frag(*self), wf_node(node), index < self.inner@.len(),
ensures
    cow_val(r).inner@ == self.inner@.update(index as int, node),
    wf_frag(cow_val(r)),
-- start
        proof {
            axiom_fits(self.inner); axiom_node_fits(node);
            lemma_flat_at(self.inner@, index as int);
            lemma_flat_update(self.inner@, index as int, node);
            lemma_wf_all(self.inner@);
            lemma_wf_all(self.inner@.update(index as int, node));
            assert(self.inner@.update(index as int, self.inner@[index as int]) =~= self.inner@);
        }
-- before /Cow::Owned\(Fragment/
            proof { assert(copy@ =~= self.inner@.update(index as int, node)); }
== fn MarkdownNode::cut -> r
requires
    wf_node(*self), rfrom(range) <= rto(range, nsize(*self) as int) <= nsize(*self),
    bnd(ntoks(*self), rfrom(range)), bnd(ntoks(*self), rto(range, nsize(*self) as int)),
ensures
    is_text(*self) ==> is_text(cow_val(r)) && marks_of(cow_val(r)) == marks_of(*self)
        && toks(cow_val(r)) == toks(*self).subrange(rfrom(range), rto(range, nsize(*self) as int))
        && (rfrom(range) < rto(range, nsize(*self) as int) ==> wf_node(cow_val(r))),
    !is_text(*self) && cont(*self) is None ==> cow_val(r) == *self,
    cont(*self) is Some ==> exists|c: Fragment| wf_frag(c)
        && flat(c.inner@) == cutf(flat(kids(*self)), rfrom(range), rto(range, nsize(*self) as int))
        && cow_val(r) == #[trigger] with_content(*self, c),
    norm_node(*self) ==> norm_node(cow_val(r)), alike(*self, cow_val(r)),
decreases self,
-- attr #[verifier::spinoff_prover]
-- start
        proof { lemma_cut_norm(*self); lemma_toks_cont(*self); lemma_wf_cont(*self); if is_text(*self) { axiom_node_fits(*self); lemma_bnd_text(*self, rfrom(range), rto(range, nsize(*self) as int)); } if let Some(c) = cont(*self) { lemma_cutf_full(kids(*self)); assert(with_content(*self, c) == *self); } }
-- closure 1 (c: &Fragment) -> (o: Fragment)
requires decreases_to!(*self => *c), wf_frag(*c), from <= to <= c.size, bnd(flat(c.inner@), from as int), bnd(flat(c.inner@), to as int),
ensures wf_frag(o), flat(o.inner@) == cutf(flat(c.inner@), from as int, to as int), norm(c.inner@) ==> norm(o.inner@),
