#! steps
== fn content_between -> r
requires wf_node(*doc),
ensures ({
    let t = flat(kids(*doc));
    &&& r is Ok <==> from <= t.len() && bnd(t, from as int) && from <= to
    &&& r matches Ok(b) ==> b == !only_structure(t, from as int, to as int)
}),
-- attr #[verifier::spinoff_prover]
-- attr #[verifier::loop_isolation(false)]
-- start
        hide(flat); hide(toks); hide(wf_node); hide(wf_all); hide(path_ok); hide(brackets); hide(tok_at);
        let ghost t = flat(kids(*doc));
-- after /let rp_from =/
        let ghost mut p: int = from as int;
        let ghost mut m: int = from as int;
        proof {
            lemma_lt_last(rp_from); lemma_rp_in(rp_from, rp_from.depth as int); lemma_rp_at(rp_from, rp_from.depth as int);
            if rtoff(rp_from) > 0 { lemma_in_text(rp_from); if from < to { lemma_not_brackets(t, from as int, to as int, from as int); } }
        }
-- loop 1
invariant
    wf_rp(rp_from), rp_from.depth >= depth, rnode(rp_from, 0) == *doc, p + dist == to, p >= from, p <= t.len(), rp_from.pos == from,
    closes_at(t, from as int, p), dist > 0 ==> rtoff(rp_from) == 0, t == flat(kids(*doc)),
    dist > 0 ==> p == rstart(rp_from, depth as int) + flat(rkids(rp_from, depth as int).take(ridx(rp_from, depth as int) + if depth == rp_from.depth { 0int } else { 1 })).len(),
decreases depth,
-- loopstart 1
            proof {
                assert(rkids(rp_from, depth as int).take(rkids(rp_from, depth as int).len() as int) =~= rkids(rp_from, depth as int));
                lemma_rp_at(rp_from, depth as int);
                lemma_close_at(rp_from, depth as int);
                p = p + 1;
            }
-- afterloop 1
        proof {
            m = p;
            let ks = rkids(rp_from, depth as int);
            let i = ridx(rp_from, depth as int) + if depth == rp_from.depth { 0int } else { 1 };
            lemma_rp_at(rp_from, depth as int);
            if dist > 0 && i < ks.len() { lemma_child_at(rp_from, depth as int, i); }
            if dist > 0 && i >= ks.len() {
                assert(i == ks.len());
                assert(depth == 0);
                assert(rnode(rp_from, 0) == *doc);
                assert(ks == kids(*doc));
                assert(rstart(rp_from, 0) == 0);
                assert(ks.take(i) =~= ks);
                assert(p == flat(ks).len());
                assert(p == t.len());
            }
            if dist == 0 { lemma_brackets(t, from as int, m, to as int); }
        }
-- loop 2
invariant
    p + dist == to, m <= p, 0 <= from <= m, closes_at(t, from as int, m), opens_at(t, m, p),
    next matches Some(c) ==> tok_at(t, p, *c),
    next is None ==> p == t.len() || (p < t.len() && t[p] is Close && p > m),
    p <= t.len(),
decreases dist,
-- loopstart 2
            proof {
                match next {
                    Some(c) => {
                        lemma_walk(t, p, *c);
                        if cont(*c) is None { lemma_not_brackets(t, from as int, to as int, p); }
                        p = p + 1;
                    }
                    None => { if p < t.len() { lemma_not_brackets(t, from as int, to as int, p); } }
                }
            }
-- afterloop 2
        proof { lemma_brackets(t, from as int, m, to as int); }
== fn ReplaceStep::apply -> r
requires wf_node(*doc), wf_frag(self.slice.content),
ensures
    replace_post(*doc, *self, r),
    norm_node(*doc) && norm(self.slice.content.inner@) ==> (r matches Ok(n) ==> norm_node(n)),
    @C05: valid_node(*doc) && closed_valid(self.slice) ==> (r matches Ok(n) ==> valid_node(n)),
-- attr #[verifier::spinoff_prover]
-- start
        hide(flat); hide(only_structure); hide(fits); hide(spliced); hide(inserts); hide(bnd); hide(wf_node); hide(wf_frag); hide(closed_valid); hide(stays_valid); hide(joins); hide(valid_around);
== fn ReplaceAroundStep::apply -> r
requires wf_node(*doc), wf_frag(self.slice.content),
ensures
    around_post(*doc, *self, r),
    norm_node(*doc) && norm(self.slice.content.inner@) ==> (r matches Ok(n) ==> norm_node(n)),
    @C05: r matches Ok(n) ==> valid_node(*doc) && (forall|f: Slice| #[trigger] around(*doc, *self, f, n) ==> closed_valid(f)) ==> valid_node(n),
-- attr #[verifier::spinoff_prover]
-- start
        hide(flat); hide(only_structure); hide(fits); hide(spliced); hide(inserts); hide(bnd); hide(wf_node); hide(wf_frag); hide(closed_valid); hide(stays_valid); hide(joins); hide(valid_around); hide(min_depth); hide(run); reveal(spliced);
        proof {
            lemma_empty();
            let t = flat(kids(*doc));
            let b = self.gap_from as int;
            let c = self.gap_to as int;
            assert forall|g: Slice| #[trigger] slice_ok(t, b, c, false, g) && b < c <= t.len() && bnd(t, b) && bnd(t, c) && g.open_start == 0 && g.open_end == 0 implies
                flat(g.content.inner@) == t.subrange(b, c) && flat_gap(t, b, c) by { lemma_gap(t, b, c, g); }
            assert forall|s: Seq<MarkdownNode>| s.len() == 0 implies #[trigger] flat(s) == Seq::<Tok>::empty() by { assert(s =~= Seq::<MarkdownNode>::empty()); reveal(flat); }
            let x = gap_toks(t, b, c);
            let p = self.insert + self.slice.open_start;
            assert forall|f: Slice, n: MarkdownNode| #![trigger filled(self.slice, p, x, f), kids(n)] filled(self.slice, p, x, f) && replaced(*doc, self.span.from as int, self.span.to as int, f, n) implies around(*doc, *self, f, n)
                && (insert_ok(self.slice, self.insert as int) ==> inserts(f) == inserts(self.slice).take(self.insert as int) + x + inserts(self.slice).skip(self.insert as int)) by { if insert_ok(self.slice, self.insert as int) { lemma_filled(self.slice, self.insert as int, x, f); } }
        }
