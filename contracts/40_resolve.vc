#! resolved positions
== fn ResolvedPos::new -> r
requires path@.len() > 0,
ensures r.pos == pos, r.path == path, r.parent_offset == parent_offset, r.depth == path@.len() - 1,
== fn ResolvedPos::node -> r
requires depth < self.path@.len(),
ensures *r == rnode(*self, depth as int),
== fn ResolvedPos::parent -> r
requires self.depth < self.path@.len(),
ensures *r == rnode(*self, self.depth as int),
== fn ResolvedPos::doc -> r
requires 0 < self.path@.len(),
ensures *r == rnode(*self, 0),
== fn ResolvedPos::index -> r
requires depth < self.path@.len(),
ensures r == ridx(*self, depth as int),
== fn ResolvedPos::text_offset -> r
requires wf_rp(*self),
ensures r == rtoff(*self),
== fn ResolvedPos::index_after -> r
requires wf_rp(*self), depth <= self.depth,
ensures r == ridx(*self, depth as int) + (if depth == self.depth && rtoff(*self) == 0 { 0int } else { 1 }), r <= rkids(*self, depth as int).len(),
-- start
        proof { lemma_rp_level(*self, depth as int); lemma_lt_last(*self); let ghost n = rnode(*self, depth as int); if let Some(c) = cont(n) { assert(c.inner.len() <= usize::MAX); } }
== fn ResolvedPos::start -> r
requires wf_rp(*self), depth <= self.depth,
ensures r == rstart(*self, depth as int), r <= self.pos,
-- start
        proof { lemma_rp_in(*self, depth as int); }
== fn ResolvedPos::end -> r
requires wf_rp(*self), depth <= self.depth,
ensures r == rend(*self, depth as int), r >= self.pos,
-- start
        proof { lemma_rp_in(*self, depth as int); lemma_rp_fits(*self, depth as int); lemma_rp_level(*self, depth as int); lemma_wf_cont(rnode(*self, depth as int)); }
== fn ResolvedPos::before -> r
requires wf_rp(*self), depth <= self.depth + 1,
ensures
    r is None <==> depth == 0,
    r matches Some(p) ==> p == (if depth == self.depth + 1 { self.pos as int } else { rstart(*self, depth as int) - 1 }),
-- start
        proof { lemma_rp_in(*self, 0); lemma_rp_fits(*self, 0); lemma_rp_short(*self); }
== fn ResolvedPos::after -> r
requires wf_rp(*self), depth <= self.depth + 1,
ensures
    r is None <==> depth == 0,
    r matches Some(p) ==> p == (if depth == self.depth + 1 { self.pos as int } else { rend(*self, depth as int) + 1 }),
-- start
        proof { lemma_rp_in(*self, 0); lemma_rp_fits(*self, 0); lemma_rp_short(*self); if 0 < depth && depth <= self.depth { lemma_rp_in(*self, depth as int); lemma_rp_fits(*self, depth as int); lemma_rp_level(*self, depth as int); lemma_toks_cont(rnode(*self, depth as int)); } }
== fn ResolvedPos::node_before -> r
requires wf_rp(*self),
ensures ({
    let ks = rkids(*self, self.depth as int);
    let i = ridx(*self, self.depth as int);
    let t = rtoff(*self);
    &&& t > 0 ==> (r matches Some(c) && is_text(cow_val(c)) && wf_node(cow_val(c)) && toks(cow_val(c)) == toks(ks[i]).take(t))
    &&& t == 0 && i > 0 ==> (r matches Some(c) && cow_val(c) == ks[i - 1])
    &&& t == 0 && i == 0 ==> r is None
}),
-- start
        proof { lemma_lt_last(*self); lemma_rp_level(*self, self.depth as int); let ghost ks = rkids(*self, self.depth as int); let ghost i = ridx(*self, self.depth as int); if rtoff(*self) > 0 { lemma_toks_cont(ks[i]); lemma_bnd_units0(text_of(ks[i]).text.content@, marks_of(ks[i])); assert(toks(ks[i]).subrange(0, rtoff(*self)) =~= toks(ks[i]).take(rtoff(*self))); } }
== fn ResolvedPos::node_after -> r
requires wf_rp(*self),
ensures ({
    let ks = rkids(*self, self.depth as int);
    let i = ridx(*self, self.depth as int);
    let t = rtoff(*self);
    &&& i == ks.len() ==> r is None
    &&& i < ks.len() && t > 0 ==> (r matches Some(c) && is_text(cow_val(c)) && wf_node(cow_val(c)) && toks(cow_val(c)) == toks(ks[i]).skip(t))
    &&& i < ks.len() && t == 0 ==> (r matches Some(c) && cow_val(c) == ks[i])
}),
-- start
        proof { lemma_lt_last(*self); lemma_rp_level(*self, self.depth as int); let ghost ks = rkids(*self, self.depth as int); let ghost i = ridx(*self, self.depth as int); if rtoff(*self) > 0 { lemma_toks_cont(ks[i]); assert(toks(ks[i]).subrange(rtoff(*self), toks(ks[i]).len() as int) =~= toks(ks[i]).skip(rtoff(*self))); } }
== fn ResolvedPos::shared_depth -> r
requires wf_rp(*self),
ensures
    r <= self.depth,
    r == 0 || rstart(*self, r as int) <= pos <= rend(*self, r as int),
    forall|d: int| r < d <= self.depth ==> !(#[trigger] rstart(*self, d) <= pos <= rend(*self, d)),
-- loop 1
invariant
    wf_rp(*self), lo1 == 1, idx1 <= self.depth, live1 ==> lo1 <= idx1,
    forall|d: int| (if live1 { idx1 as int } else { 0 }) < d <= self.depth ==> !(#[trigger] rstart(*self, d) <= pos <= rend(*self, d)),
decreases (if live1 { idx1 + 1 } else { 0 }),
== fn ResolvedPos::resolve -> r
requires wf_node(*doc),
ensures
    r is Ok <==> pos <= flat(kids(*doc)).len() && bnd(flat(kids(*doc)), pos as int),
    r matches Ok(rp) ==> wf_rp(rp) && rp.pos == pos && *rp.path@[0].node == *doc,
-- beforeloop 1
        proof { lemma_wf_cont(*doc); lemma_empty(); }
-- loop 1
invariant_except_break
    wf_node(*node),
    path@.len() > 0 ==> cont(*node) is Some && pidx(path@, path@.len() - 1) < pkids(path@, path@.len() - 1).len() && pkids(path@, path@.len() - 1)[pidx(path@, path@.len() - 1)] == *node,
    path@.len() == 0 ==> *node == *doc,
    start == pstart(path@, path@.len() as int),
    start + parent_offset == pos, parent_offset <= flat(kids(*node)).len(),
    bnd(flat(kids(*node)), parent_offset as int) <==> bnd(flat(kids(*doc)), pos as int),
invariant
    pchain(path@), path@.len() > 0 ==> *path@[0].node == *doc,
    wf_node(*doc), pos <= flat(kids(*doc)).len(),
ensures
    path_ok(path@, pos as int), parent_offset == pos - pstart(path@, path@.len() - 1), bnd(flat(kids(*doc)), pos as int),
decreases parent_offset,
-- loopstart 1
                let ghost path0 = path@;
                let ghost n0 = *node;
                proof { lemma_wf_cont(n0); lemma_wf_all(kids(n0)); lemma_empty(); }
-- before /if rem == 0/
                proof {
                    assert(forall|d: int| 0 <= d < path0.len() ==> plevel(path@, d) == #[trigger] plevel(path0, d));
                    assert(forall|d: int| 0 <= d < path0.len() - 1 ==> pdown(path@, d) == #[trigger] pdown(path0, d));
                    assert(plevel(path@, path0.len() as int));
                    assert forall|d: int| 0 <= d < path@.len() implies #[trigger] plevel(path@, d) by { if d < path0.len() { assert(plevel(path0, d)); } }
                    assert forall|d: int| 0 <= d < path@.len() - 1 implies #[trigger] pdown(path@, d) by { if d < path0.len() - 1 { assert(pdown(path0, d)); } }
                    let ks = kids(n0);
                    if rem == 0 { lemma_bnd_seam(ks, index as int); }
                    else {
                        lemma_flat_take(ks, index as int);
                        lemma_bnd_down(ks, index as int, rem as int);
                        lemma_toks_cont(ks[index as int]);
                        if is_text(ks[index as int]) { axiom_str_fits(text_of(ks[index as int]).text.content); }
                    }
                }
== fn ResolvedNode::clone@ -> r
ensures r == *self,
