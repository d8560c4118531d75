#! mark steps
== fn map_fragment_parent -> r
requires wf_frag(*fragment), exists|op: MarkOp| #[trigger] is_op(op) && acts3(*f, op),
ensures wf_frag(r), norm(r.inner@), forall|op: MarkOp| #[trigger] is_op(op) && acts3(*f, op) ==> flat(r.inner@) == remark(Seq::empty(), ty(*parent), flat(fragment.inner@), op),
decreases *fragment,
-- attr #[verifier::spinoff_prover]
-- start
    hide(flat); hide(toks); hide(remark); hide(wf_node); hide(wf_all); hide(acts3);
    let ghost ks = fragment.inner@;
    let ghost p = ty(*parent);
    let ghost e = Seq::<Head>::empty();
    let ghost op0 = choose|op: MarkOp| #[trigger] is_op(op) && acts3(*f, op);
    proof { lemma_wf_all(ks); lemma_empty(); assert(flat(Seq::<MarkdownNode>::empty()) == Seq::<Tok>::empty()); assert(ks.take(ks.len() as int) =~= ks); assert(ks.take(0) =~= Seq::<MarkdownNode>::empty()); assert forall|op: MarkOp| true implies #[trigger] remark(e, p, Seq::empty(), op) == Seq::<Tok>::empty() by { lemma_remark_empty(p, op); } }
-- loop 1
invariant
    seq1@ == ks, ks == fragment.inner@, idx1 <= ks.len(), p == ty(*parent), e == Seq::<Head>::empty(),
    forall|i: int| 0 <= i < ks.len() ==> wf_node(#[trigger] ks[i]),
    acts3(*f, op0), ks.take(ks.len() as int) == ks,
    wf_all(mapped@), norm(mapped@),
    forall|op: MarkOp| #[trigger] is_op(op) && acts3(*f, op) ==> flat(mapped@) == remark(e, p, flat(ks.take(idx1 as int)), op),
decreases ks.len() - idx1,
-- loopstart 1
            let ghost m0 = mapped@;
            let ghost n0 = ks[idx1 as int];
            proof {
                lemma_wf_cont(n0); assert(is_op(op0));
                assert(decreases_to!(*fragment => n0));
                assert forall|n: MarkdownNode, q: &MarkdownNode, i: usize| wf_node(n) implies #[trigger] f.requires((n, q, i)) by { reveal(acts3); }
                assert forall|c2: Fragment| cont(n0) is Some implies !is_inline_ty(ty(#[trigger] with_content(n0, c2))) by { if cont(n0) is Some { lemma_with_content(n0, c2); } }
            }
-- before /add_node\(/
            proof {
                let o = child;
                assert forall|op: MarkOp| #[trigger] is_op(op) && acts3(*f, op) implies remapped(n0, p, op, o) by {
                    reveal(acts3);
                    if let Some(c) = cont(n0) {
                        let c2 = cont(o).unwrap();
                        assert forall|c2: Fragment| #![trigger with_content(n0, c2)] wf_frag(c2) && norm(c2.inner@) && flat(c2.inner@) == remark(e, ty(n0), flat(c.inner@), op) implies remapped(n0, p, op, with_content(n0, c2)) && !is_inline_ty(ty(with_content(n0, c2))) by {
                            lemma_remap_cont(n0, p, op, c2);
                        }
                    } else { lemma_remap_leaf(n0, p, op, o); }
                }
                assert(is_op(op0)); assert(remapped(n0, p, op0, o));
                assert forall|op: MarkOp, m: Seq<MarkdownNode>| #![trigger is_op(op), flat(m)] is_op(op) && acts3(*f, op) && flat(m) == flat(m0) + toks(o) implies flat(m) == remark(e, p, flat(ks.take(idx1 as int)), op) by {
                    lemma_remap_push(ks, idx1 - 1, flat(m0), p, op, o);
                }
            }
-- closure 1 (c: &Fragment) -> (o: Fragment)
requires decreases_to!(*fragment => *c), wf_frag(*c), exists|op: MarkOp| #[trigger] is_op(op) && acts3(*f, op),
ensures wf_frag(o), norm(o.inner@), forall|op: MarkOp| #[trigger] is_op(op) && acts3(*f, op) ==> flat(o.inner@) == remark(Seq::empty(), ty(*child), flat(c.inner@), op),
== fn map_fragment -> r
requires wf_frag(*fragment), exists|op: MarkOp| #[trigger] is_op(op) && acts1(*f, op),
ensures wf_frag(r), norm(r.inner@), forall|op: MarkOp| #[trigger] is_op(op) && acts1(*f, op) ==> flat(r.inner@) == remark(Seq::empty(), MarkdownNodeType::Paragraph, flat(fragment.inner@), op),
decreases *fragment,
-- attr #[verifier::spinoff_prover]
-- start
    hide(flat); hide(toks); hide(remark); hide(wf_node); hide(wf_all); hide(acts1);
    let ghost ks = fragment.inner@;
    let ghost p = MarkdownNodeType::Paragraph;
    let ghost e = Seq::<Head>::empty();
    let ghost op0 = choose|op: MarkOp| #[trigger] is_op(op) && acts1(*f, op);
    proof { lemma_wf_all(ks); lemma_empty(); assert(flat(Seq::<MarkdownNode>::empty()) == Seq::<Tok>::empty()); assert(ks.take(ks.len() as int) =~= ks); assert(ks.take(0) =~= Seq::<MarkdownNode>::empty()); assert forall|op: MarkOp| true implies #[trigger] remark(e, p, Seq::empty(), op) == Seq::<Tok>::empty() by { lemma_remark_empty(p, op); } }
-- loop 1
invariant
    seq1@ == ks, ks == fragment.inner@, idx1 <= ks.len(), p is Paragraph, e == Seq::<Head>::empty(),
    forall|i: int| 0 <= i < ks.len() ==> wf_node(#[trigger] ks[i]),
    acts1(*f, op0), ks.take(ks.len() as int) == ks,
    wf_all(mapped@), norm(mapped@),
    forall|op: MarkOp| #[trigger] is_op(op) && acts1(*f, op) ==> flat(mapped@) == remark(e, p, flat(ks.take(idx1 as int)), op),
decreases ks.len() - idx1,
-- loopstart 1
            let ghost m0 = mapped@;
            let ghost n0 = ks[idx1 as int];
            proof {
                lemma_wf_cont(n0); assert(is_op(op0));
                assert(decreases_to!(*fragment => n0));
                assert forall|n: MarkdownNode| wf_node(n) implies #[trigger] f.requires((n,)) by { reveal(acts1); }
                assert forall|c2: Fragment| cont(n0) is Some implies !is_inline_ty(ty(#[trigger] with_content(n0, c2))) by { if cont(n0) is Some { lemma_with_content(n0, c2); } }
            }
-- before /add_node\(/
            proof {
                let o = child;
                assert forall|op: MarkOp| #[trigger] is_op(op) && acts1(*f, op) implies remapped(n0, p, op, o) by {
                    reveal(acts1);
                    if let Some(c) = cont(n0) {
                        lemma_remark_remove(e, p, ty(n0), flat(c.inner@), op);
                        assert forall|c2: Fragment| #![trigger with_content(n0, c2)] wf_frag(c2) && norm(c2.inner@) && flat(c2.inner@) == remark(e, p, flat(c.inner@), op) implies remapped(n0, p, op, with_content(n0, c2)) && !is_inline_ty(ty(with_content(n0, c2))) by {
                            lemma_remap_cont(n0, p, op, c2);
                        }
                    } else { lemma_remap_leaf(n0, p, op, o); }
                }
                assert(is_op(op0)); assert(remapped(n0, p, op0, o));
                assert forall|op: MarkOp, m: Seq<MarkdownNode>| #![trigger is_op(op), flat(m)] is_op(op) && acts1(*f, op) && flat(m) == flat(m0) + toks(o) implies flat(m) == remark(e, p, flat(ks.take(idx1 as int)), op) by {
                    lemma_remap_push(ks, idx1 - 1, flat(m0), p, op, o);
                }
            }
-- closure 1 (c: &Fragment) -> (o: Fragment)
requires decreases_to!(*fragment => *c), wf_frag(*c), exists|op: MarkOp| #[trigger] is_op(op) && acts1(*f, op),
ensures wf_frag(o), norm(o.inner@), forall|op: MarkOp| #[trigger] is_op(op) && acts1(*f, op) ==> flat(o.inner@) == remark(Seq::empty(), MarkdownNodeType::Paragraph, flat(c.inner@), op),
== fn AddMarkStep::apply -> r
requires wf_node(*doc),
ensures
    mark_post(*doc, self.span.from as int, self.span.to as int, MarkOp::Add(self.mark), r),
    norm_node(*doc) ==> (r matches Ok(n) ==> norm_node(n)),
    @C05: valid_node(*doc) ==> (r matches Ok(n) ==> valid_node(n)),
    @C06,C07: valid_node(*doc) && self.span.from <= self.span.to <= flat(kids(*doc)).len() && bnd(flat(kids(*doc)), self.span.from as int) && bnd(flat(kids(*doc)), self.span.to as int) ==> r is Ok,
-- attr #[verifier::spinoff_prover]
-- start
        hide(flat); hide(toks); hide(remark); hide(wf_node); hide(fits); hide(inserts); hide(bnd); hide(run); hide(min_depth); hide(remarked); hide(is_slice); hide(may_replace);
        let ghost t = flat(kids(*doc));
        let ghost from = self.span.from as int;
        let ghost to = self.span.to as int;
        let ghost op = MarkOp::Add(self.mark);
        proof {
            assert forall|n: MarkdownNode| wf_node(n) && head(n) == head(*doc) && flat(kids(n)) == remarked(ty(*doc), t, from, to, op) && valid_node(*doc) implies #[trigger] valid_node(n) by { lemma_mark_valid(*doc, from, to, op, n); }
            lemma_wf_cont(*doc); lemma_empty();
            assert(is_op(op));
            assert forall|n: MarkdownNode| is_text(n) implies (#[trigger] wf_node(n) <==> wf_text(text_of(n))) by { lemma_wf_cont(n); }
            assert forall|a: ResolvedPos, d: int| #![trigger rnode(a, d)] wf_rp(a) && rnode(a, 0) == *doc && a.pos == from && from <= to <= t.len() && is_shared(a, to, d)
                implies (forall|e: int| #[trigger] min_depth(t, from, to, e) ==> e == d) && ty(rnode(a, d)) == pty(run(Seq::empty(), t.take(from)).take(d), ty(*doc)) by {
                lemma_min_shared(a, to, d); lemma_parent_ty(a, d);
                assert forall|e: int| #[trigger] min_depth(t, from, to, e) implies e == d by { lemma_min_unique(t, from, to, d, e); }
            }
            assert forall|s: Seq<MarkdownNode>| s.len() == 0 implies #[trigger] flat(s) == Seq::<Tok>::empty() by { assert(s =~= Seq::empty()); }
            assert forall|s: Slice, d: int| #[trigger] is_slice(t, from, to, d, s) implies wf_frag(s.content) by { reveal(is_slice); }
            assert forall|p: MarkdownNodeType, x: Seq<Tok>| (#[trigger] remark(Seq::empty(), p, x, op)).len() == x.len() by { reveal(remark); }
            assert forall|s: Slice, d: int, u: Slice, p: MarkdownNodeType| #![trigger is_slice(t, from, to, d, s), inserts(u), remark(Seq::empty(), p, flat(s.content.inner@), op)] #![trigger is_slice(t, from, to, d, s), may_replace(ty(*doc), t, from, to, u), remark(Seq::empty(), p, flat(s.content.inner@), op)]
                from < to <= t.len() && is_slice(t, from, to, d, s) && min_depth(t, from, to, d) && p == pty(run(Seq::empty(), t.take(from)).take(d), ty(*doc))
                && u.open_start == s.open_start && u.open_end == s.open_end && flat(u.content.inner@) == remark(Seq::empty(), p, flat(s.content.inner@), op)
                implies t.take(from) + inserts(u) + t.skip(to) == remarked(ty(*doc), t, from, to, op)
                    && (valid_node(*doc) && wf_frag(u.content) ==> may_replace(ty(*doc), t, from, to, u)) by { let q = p;
                lemma_remark_slice(t, from, to, d, s, ty(*doc), q, op, u);
                if valid_node(*doc) && wf_frag(u.content) { lemma_mark_fits(*doc, from, to, d, s, u, p, op); }
            }
            assert forall|u: Slice| #![trigger inserts(u)] #![trigger may_replace(ty(*doc), t, from, to, u)] from == to <= t.len() && flat(u.content.inner@).len() == 0 && u.open_start == 0 && u.open_end == 0
                implies t.take(from) + inserts(u) + t.skip(to) == remarked(ty(*doc), t, from, to, op)
                    && (valid_node(*doc) && wf_frag(u.content) ==> u.content.inner@.len() == 0 && may_replace(ty(*doc), t, from, to, u)) by {
                lemma_remark_none(t, from, u, ty(*doc), op);
                if valid_node(*doc) && wf_frag(u.content) { lemma_no_toks(u.content.inner@); lemma_own(*doc, from, to, true, u); }
            }
        }
-- closure 1 (node: MarkdownNode, parent: &MarkdownNode, _i: usize) -> (o: MarkdownNode)
requires wf_node(node),
ensures acted(node, ty(*parent), op, o),
== fn RemoveMarkStep::apply -> r
requires wf_node(*doc),
ensures
    mark_post(*doc, self.span.from as int, self.span.to as int, MarkOp::Remove(self.mark), r),
    norm_node(*doc) ==> (r matches Ok(n) ==> norm_node(n)),
    @C05: valid_node(*doc) ==> (r matches Ok(n) ==> valid_node(n)),
    @C06,C07: valid_node(*doc) && self.span.from <= self.span.to <= flat(kids(*doc)).len() && bnd(flat(kids(*doc)), self.span.from as int) && bnd(flat(kids(*doc)), self.span.to as int) ==> r is Ok,
-- attr #[verifier::spinoff_prover]
-- start
        hide(flat); hide(toks); hide(remark); hide(wf_node); hide(fits); hide(inserts); hide(bnd); hide(run); hide(min_depth); hide(remarked); hide(is_slice); hide(may_replace);
        let ghost t = flat(kids(*doc));
        let ghost from = self.span.from as int;
        let ghost to = self.span.to as int;
        let ghost op = MarkOp::Remove(self.mark);
        proof {
            assert forall|n: MarkdownNode| wf_node(n) && head(n) == head(*doc) && flat(kids(n)) == remarked(ty(*doc), t, from, to, op) && valid_node(*doc) implies #[trigger] valid_node(n) by { lemma_mark_valid(*doc, from, to, op, n); }
            lemma_wf_cont(*doc); lemma_empty();
            assert(is_op(op));
            assert forall|n: MarkdownNode| is_text(n) implies (#[trigger] wf_node(n) <==> wf_text(text_of(n))) by { lemma_wf_cont(n); }
            assert forall|a: ResolvedPos, d: int| #![trigger rnode(a, d)] wf_rp(a) && rnode(a, 0) == *doc && a.pos == from && from <= to <= t.len() && is_shared(a, to, d)
                implies (forall|e: int| #[trigger] min_depth(t, from, to, e) ==> e == d) && ty(rnode(a, d)) == pty(run(Seq::empty(), t.take(from)).take(d), ty(*doc)) by {
                lemma_min_shared(a, to, d); lemma_parent_ty(a, d);
                assert forall|e: int| #[trigger] min_depth(t, from, to, e) implies e == d by { lemma_min_unique(t, from, to, d, e); }
            }
            assert forall|s: Seq<MarkdownNode>| s.len() == 0 implies #[trigger] flat(s) == Seq::<Tok>::empty() by { assert(s =~= Seq::empty()); }
            assert forall|s: Slice, d: int| #[trigger] is_slice(t, from, to, d, s) implies wf_frag(s.content) by { reveal(is_slice); }
            assert forall|p: MarkdownNodeType, x: Seq<Tok>| (#[trigger] remark(Seq::empty(), p, x, op)).len() == x.len() by { reveal(remark); }
            assert forall|s: Slice, d: int, u: Slice, p: MarkdownNodeType| #![trigger is_slice(t, from, to, d, s), inserts(u), remark(Seq::empty(), p, flat(s.content.inner@), op)] #![trigger is_slice(t, from, to, d, s), may_replace(ty(*doc), t, from, to, u), remark(Seq::empty(), p, flat(s.content.inner@), op)]
                from < to <= t.len() && is_slice(t, from, to, d, s) && min_depth(t, from, to, d) 
                && u.open_start == s.open_start && u.open_end == s.open_end && flat(u.content.inner@) == remark(Seq::empty(), p, flat(s.content.inner@), op)
                implies t.take(from) + inserts(u) + t.skip(to) == remarked(ty(*doc), t, from, to, op)
                    && (valid_node(*doc) && wf_frag(u.content) ==> may_replace(ty(*doc), t, from, to, u)) by { let q = pty(run(Seq::empty(), t.take(from)).take(d), ty(*doc)); lemma_remark_remove(Seq::empty(), p, q, flat(s.content.inner@), op);
                lemma_remark_slice(t, from, to, d, s, ty(*doc), q, op, u);
                if valid_node(*doc) && wf_frag(u.content) { lemma_mark_fits(*doc, from, to, d, s, u, p, op); }
            }
            assert forall|u: Slice| #![trigger inserts(u)] #![trigger may_replace(ty(*doc), t, from, to, u)] from == to <= t.len() && flat(u.content.inner@).len() == 0 && u.open_start == 0 && u.open_end == 0
                implies t.take(from) + inserts(u) + t.skip(to) == remarked(ty(*doc), t, from, to, op)
                    && (valid_node(*doc) && wf_frag(u.content) ==> u.content.inner@.len() == 0 && may_replace(ty(*doc), t, from, to, u)) by {
                lemma_remark_none(t, from, u, ty(*doc), op);
                if valid_node(*doc) && wf_frag(u.content) { lemma_no_toks(u.content.inner@); lemma_own(*doc, from, to, true, u); }
            }
        }
-- closure 1 (node: MarkdownNode) -> (o: MarkdownNode)
requires wf_node(node),
ensures acted(node, MarkdownNodeType::Paragraph, op, o),
== fn Step::apply -> r
requires
    wf_node(*doc),
    *self matches Step::Replace(s) ==> wf_frag(s.slice.content),
    *self matches Step::ReplaceAround(s) ==> wf_frag(s.slice.content),
ensures match *self {
    Step::Replace(s) => replace_post(*doc, s, r),
    Step::ReplaceAround(s) => around_post(*doc, s, r),
    Step::AddMark(s) => mark_post(*doc, s.span.from as int, s.span.to as int, MarkOp::Add(s.mark), r),
    Step::RemoveMark(s) => mark_post(*doc, s.span.from as int, s.span.to as int, MarkOp::Remove(s.mark), r),
},
    @C06,C07: *self matches Step::AddMark(s) ==> (valid_node(*doc) && s.span.from <= s.span.to <= flat(kids(*doc)).len() && bnd(flat(kids(*doc)), s.span.from as int) && bnd(flat(kids(*doc)), s.span.to as int) ==> r is Ok),
    @C06,C07: *self matches Step::RemoveMark(s) ==> (valid_node(*doc) && s.span.from <= s.span.to <= flat(kids(*doc)).len() && bnd(flat(kids(*doc)), s.span.from as int) && bnd(flat(kids(*doc)), s.span.to as int) ==> r is Ok),
    @C05: valid_node(*doc) && !(*self is ReplaceAround) && (*self matches Step::Replace(s) ==> closed_valid(s.slice)) ==> (r matches Ok(n) ==> valid_node(n)),
    norm_node(*doc) && (*self matches Step::Replace(s) ==> norm(s.slice.content.inner@)) && (*self matches Step::ReplaceAround(s) ==> norm(s.slice.content.inner@)) ==> (r matches Ok(n) ==> norm_node(n)),
-- start
        hide(replace_post); hide(around_post); hide(mark_post); hide(closed_valid);
