#! slices and replacement
== fn MarkdownNode::resolve -> r
requires wf_node(*self),
ensures
    r is Ok <==> pos <= flat(kids(*self)).len() && bnd(flat(kids(*self)), pos as int),
    r matches Ok(rp) ==> wf_rp(rp) && rp.pos == pos && *rp.path@[0].node == *self,
== fn MarkdownNode::slice -> r
requires wf_node(*self),
ensures
    rfrom(range) == rto(range, nkids(*self)) ==> (r matches Ok(s) && s.content.inner@.len() == 0 && wf_frag(s.content) && s.open_start == 0 && s.open_end == 0),
    rfrom(range) != rto(range, nkids(*self)) ==> (r is Ok <==> rfrom(range) < rto(range, nkids(*self)) <= nkids(*self)
        && bnd(flat(kids(*self)), rfrom(range)) && bnd(flat(kids(*self)), rto(range, nkids(*self)))),
    rfrom(range) != rto(range, nkids(*self)) ==> (r matches Ok(s) ==> slice_ok(flat(kids(*self)), rfrom(range), rto(range, nkids(*self)), include_parents, s)),
    norm_node(*self) ==> (r matches Ok(s) ==> norm(s.content.inner@)),
-- attr #[verifier::spinoff_prover]
-- start
        hide(flat); hide(toks); hide(wf_node); hide(cutf); hide(run); hide(bnd); hide(min_depth);
        proof {
            lemma_wf_cont(*self); lemma_empty();
            let from = rfrom(range);
            let to = rto(range, nkids(*self));
            let t = flat(kids(*self));
            assert forall|a: ResolvedPos, d: int| #![trigger rnode(a, d)] wf_rp(a) && rnode(a, 0) == *self && 0 <= d <= a.depth implies {
                &&& wf_node(rnode(a, d)) && (cont(rnode(a, d)) matches Some(c) ==> wf_frag(c)) && (cont(rnode(a, d)) is None ==> kids(rnode(a, d)).len() == 0)
                &&& rflat(a, 0) == t
                &&& norm_node(*self) ==> norm(rkids(a, d))
            } by {
                lemma_rp_level(a, d); lemma_wf_cont(rnode(a, d));
                if norm_node(*self) { lemma_norm_path(a, d); }
            }
            assert forall|a: ResolvedPos, b: ResolvedPos, d: int| #![trigger rnode(a, d), wf_rp(b)] wf_rp(a) && wf_rp(b) && rnode(a, 0) == *self && rnode(b, 0) == *self && a.pos == from && b.pos == to && from < to
                && 0 <= d <= a.depth && (d == 0 || rstart(a, d) <= to <= rend(a, d)) implies {
                &&& d <= b.depth && rstart(a, d) <= from && bnd(flat(rkids(a, d)), from - rstart(a, d)) && bnd(flat(rkids(a, d)), to - rstart(a, d))
                &&& to - rstart(a, d) <= flat(rkids(a, d)).len()
                &&& forall|s: Slice| #[trigger] slice_ok(t, from, to, include_parents, s) || !(wf_frag(s.content) && flat(s.content.inner@) == cutf(flat(rkids(a, d)), from - rstart(a, d), to - rstart(a, d))
                    && s.open_start == a.depth - d && s.open_end == b.depth - d && (if include_parents { d == 0 } else { is_shared(a, to, d) }))
            } by {
                lemma_slice(a, b, d);
                assert forall|s: Slice| wf_frag(s.content) && flat(s.content.inner@) == cutf(flat(rkids(a, d)), from - rstart(a, d), to - rstart(a, d))
                    && s.open_start == a.depth - d && s.open_end == b.depth - d && (if include_parents { d == 0 } else { is_shared(a, to, d) }) implies #[trigger] slice_ok(t, from, to, include_parents, s) by {
                    if !include_parents { lemma_min_shared(a, to, d); }
                    assert(is_slice(t, from, to, d, s));
                }
            }
        }
== fn Slice::has_open_nodes -> r
ensures r == open_ok(*self),
-- loop 1
invariant
    idx1 <= hi1, hi1 == self.open_start,
    lspine(self.content.inner@, self.open_start as int) <==> lspine(start.inner@, hi1 - idx1),
decreases hi1 - idx1,
-- loop 2
invariant
    idx2 <= hi2, hi2 == self.open_end, lspine(self.content.inner@, self.open_start as int),
    rspine(self.content.inner@, self.open_end as int) <==> rspine(end.inner@, hi2 - idx2),
decreases hi2 - idx2,
== fn check_join -> r
ensures r is Ok <==> compat(ty(*sub), ty(*main)),
== fn joinable -> r
requires depth <= rp_before.depth, depth <= rp_after.depth, rp_before.depth < rp_before.path@.len(), rp_after.depth < rp_after.path@.len(),
ensures
    r is Ok <==> compat(ty(rnode(*rp_after, depth as int)), ty(rnode(*rp_before, depth as int))),
    r matches Ok(n) ==> *n == rnode(*rp_before, depth as int),
== fn close -> r
requires wf_frag(content), wf_node(*node),
ensures
    r is Ok && cont(*node) is None ==> flat(content.inner@) == Seq::<Tok>::empty(),
    @C05: r is Ok ==> valid_content(ty(*node), content.inner@) && vtoks(ty(*node), flat(content.inner@)),
    @C16,C06,C07: valid_content(ty(*node), content.inner@) || vtoks(ty(*node), flat(content.inner@)) ==> r is Ok,
    r matches Ok(n) ==> wf_node(n) && n == with_content(*node, content),
    r matches Ok(n) ==> norm(content.inner@) ==> norm_node(n),
-- start
        hide(vtoks); hide(valid_content);
        proof { lemma_vtoks(ty(*node), content.inner@); if cont(*node) is None && valid_content(ty(*node), content.inner@) { lemma_leaf_valid(*node, content.inner@); } lemma_cut_norm(*node); lemma_wf_cont(*node); if cont(*node) is Some { lemma_with_content(*node, content); } }
-- closure 1 (c: &Fragment) -> (o: Fragment)
ensures o == content,
== fn add_node
requires wf_node(cow_val(child)), wf_all(old(target)@),
ensures
    wf_all(final(target)@),
    flat(final(target)@) == flat(old(target)@) + toks(cow_val(child)),
    norm(old(target)@) && norm_node(cow_val(child)) ==> norm(final(target)@),
    @C15: abs_all(final(target)@) == addt(abs_all(old(target)@), abs(cow_val(child))),
-- start
        let ghost t0 = target@;
        let ghost n = cow_val(child);
        @C15: proof { lemma_abs_push(t0, n); lemma_abs_ty(n); lemma_abs_all(t0); if t0.len() > 0 { lemma_abs_ty(t0.last()); } }
        proof {
            lemma_wf_all(t0); lemma_wf_all(t0.push(n)); lemma_flat_push(t0, n);
            lemma_flat_one(n); lemma_wf_all(seq![n]);
            if norm(t0) && norm_node(n) && (t0.len() > 0 ==> !meets(t0.last(), n)) { lemma_norm_push(t0, n); }
        }
-- before /target\.push/
    proof { assert(target@ =~= t0); }
-- before /return;/
                proof {
                    axiom_str_fits(text_of(n).text.content);
                    assert(seq![n].remove(0) =~= Seq::<MarkdownNode>::empty());
                    assert(target@ =~= t0.update(t0.len() - 1, target@.last()));
                    lemma_append(t0, seq![n], target@, seq![n].remove(0));
                    lemma_cut_norm(n); if norm(t0) { lemma_norm_last(t0, target@.last()); }
                    assert(target@ + Seq::<MarkdownNode>::empty() =~= target@);
                    @C15: lemma_abs_join(t0, n, target@);
                }
== fn add_range
requires wf_all(old(target)@), range_at(range, depth as int),
ensures
    wf_all(final(target)@),
    flat(final(target)@) == flat(old(target)@) + adds(range, depth as int),
    norm(old(target)@) && norm_node(rnode(range_rp(range), 0)) ==> norm(final(target)@),
-- attr #[verifier::spinoff_prover]
-- start
        let ghost t0 = target@;
        let ghost nn = norm(t0) && norm_node(rnode(range_rp(range), 0));
        proof { lemma_range(range, depth as int, t0); if norm_node(rnode(range_rp(range), 0)) { lemma_norm_path(range_rp(range), depth as int); lemma_norm(rkids(range_rp(range), depth as int)); } lemma_cut_norm(rnode(range_rp(range), 0)); }
-- beforeloop 1
        let ghost ks = kids(*node);
        let ghost pre = range_pre(range, depth as int);
        proof {
            assert(start_index <= end_index <= ks.len());
            assert(ks.subrange(start_index as int, start_index as int) =~= Seq::<MarkdownNode>::empty());
            assert(flat(target@) + Seq::<Tok>::empty() =~= flat(target@));
            lemma_empty();
            assert(flat(t0) + pre =~= flat(target@));
        }
-- loop 1
invariant
    start_index <= idx1 <= hi1, hi1 == end_index, end_index <= ks.len(), ks == kids(*node), cont(*node) is Some || ks.len() == 0,
    wf_all(ks), wf_all(target@), nn ==> norm(target@), nn ==> norm(ks),
    flat(target@) == flat(t0) + pre + flat(ks.subrange(start_index as int, idx1 as int)),
decreases hi1 - idx1,
-- loopstart 1
                let ghost tj = flat(t0) + pre;
                proof { lemma_wf_all(ks); lemma_norm(ks); lemma_flat_sub_push(ks, start_index as int, idx1 as int);
                  assert(tj + flat(ks.subrange(start_index as int, idx1 as int)) + toks(ks[idx1 as int]) =~= tj + flat(ks.subrange(start_index as int, idx1 + 1))); }
== fn replace_two_way -> r
requires wf_rp(*rp_from), wf_rp(*rp_to), rp_from.depth == rp_to.depth, depth <= rp_from.depth,
ensures
    @C05: r is Ok ==> ok2(*rp_from, *rp_to, depth as int),
    @C16,C06,C07: ok2(*rp_from, *rp_to, depth as int) ==> r is Ok,
    r matches Ok(f) ==> wf_frag(f) && flat(f.inner@) == lt(*rp_from, depth as int) + rt(*rp_to, depth as int),
    r matches Ok(f) ==> norm_node(rnode(*rp_from, 0)) && norm_node(rnode(*rp_to, 0)) ==> norm(f.inner@),
decreases rp_from.depth - depth,
-- attr #[verifier::spinoff_prover]
-- start
        hide(flat); hide(toks); hide(wf_node); hide(wf_all); hide(lt); hide(rt); hide(lt_flat); hide(rt_flat); hide(path_ok); hide(valid_content); hide(compat); hide(vtoks); hide(chk); hide(ok2);
        proof { lemma_ok2(*rp_from, *rp_to, depth as int); lemma_two(*rp_from, *rp_to, depth as int); lemma_empty(); lemma_rp_at(*rp_from, depth as int); lemma_rp_at(*rp_to, depth as int);
            assert forall|c: Fragment| #![trigger with_content(rnode(*rp_from, depth + 1), c)] depth < rp_from.depth implies cont(with_content(rnode(*rp_from, depth + 1), c)) == Some(c) && head(with_content(rnode(*rp_from, depth + 1), c)) == head(rnode(*rp_from, depth + 1))
                && toks(with_content(rnode(*rp_from, depth + 1), c)) == seq![Tok::Open(head(rnode(*rp_from, depth + 1)))] + flat(c.inner@) + seq![Tok::Close] && (wf_node(with_content(rnode(*rp_from, depth + 1), c)) <==> wf_frag(c)) by { lemma_with_content(rnode(*rp_from, depth + 1), c); } }
== fn replace_three_way -> r
requires
    wf_rp(*rp_from), wf_rp(*rp_start), wf_rp(*rp_end), wf_rp(*rp_to),
    rp_from.depth == rp_start.depth, rp_end.depth == rp_to.depth, depth <= rp_from.depth, depth <= rp_to.depth,
    same_at(*rp_start, *rp_end, depth as int), rp_start.pos <= rp_end.pos, rtoff(*rp_start) == 0, rtoff(*rp_end) == 0,
ensures
    @C05: r is Ok ==> ok3(*rp_from, *rp_start, *rp_end, *rp_to, depth as int),
    @C16,C06,C07: ok3(*rp_from, *rp_start, *rp_end, *rp_to, depth as int) ==> r is Ok,
    r matches Ok(f) ==> wf_frag(f) && flat(f.inner@) == lt(*rp_from, depth as int) + mid(*rp_start, *rp_end, depth as int) + rt(*rp_to, depth as int),
    r matches Ok(f) ==> norm_node(rnode(*rp_from, 0)) && norm_node(rnode(*rp_start, 0)) && norm_node(rnode(*rp_end, 0)) && norm_node(rnode(*rp_to, 0)) ==> norm(f.inner@),
decreases rp_from.depth - depth,
-- attr #[verifier::spinoff_prover]
-- start
        hide(flat); hide(toks); hide(wf_node); hide(wf_all); hide(lt); hide(rt); hide(mid); hide(lt_flat); hide(rt_flat); hide(path_ok); hide(valid_content); hide(compat); hide(range_at); hide(adds); hide(same_at); hide(vtoks); hide(chk); hide(ok2); hide(ok3);
        let ghost d = depth as int;
        let ghost e0 = Seq::<Tok>::empty();
        proof {
            lemma_ok3(*rp_from, *rp_start, *rp_end, *rp_to, d);
            lemma_three(*rp_from, *rp_start, *rp_end, *rp_to, d); lemma_empty();
            lemma_rp_at(*rp_from, d); lemma_rp_at(*rp_start, d); lemma_rp_at(*rp_end, d); lemma_rp_at(*rp_to, d);
            assert(e0 + lt_flat(*rp_from, d) =~= lt_flat(*rp_from, d));
            assert forall|s: Seq<Tok>| #[trigger] (s + e0) == s by { assert(s + e0 =~= s); }
            assert forall|c: Fragment| #![trigger with_content(rnode(*rp_from, d + 1), c)] d < rp_from.depth implies cont(with_content(rnode(*rp_from, d + 1), c)) == Some(c) && head(with_content(rnode(*rp_from, d + 1), c)) == head(rnode(*rp_from, d + 1))
                && toks(with_content(rnode(*rp_from, d + 1), c)) == seq![Tok::Open(head(rnode(*rp_from, d + 1)))] + flat(c.inner@) + seq![Tok::Close] && (wf_node(with_content(rnode(*rp_from, d + 1), c)) <==> wf_frag(c)) by { lemma_with_content(rnode(*rp_from, d + 1), c); }
            assert forall|c: Fragment| #![trigger with_content(rnode(*rp_end, d + 1), c)] d < rp_end.depth implies cont(with_content(rnode(*rp_end, d + 1), c)) == Some(c) && head(with_content(rnode(*rp_end, d + 1), c)) == head(rnode(*rp_end, d + 1))
                && toks(with_content(rnode(*rp_end, d + 1), c)) == seq![Tok::Open(head(rnode(*rp_end, d + 1)))] + flat(c.inner@) + seq![Tok::Close] && (wf_node(with_content(rnode(*rp_end, d + 1), c)) <==> wf_frag(c)) by { lemma_with_content(rnode(*rp_end, d + 1), c); }
        }
== fn prepare_slice_for_replace -> r
requires wf_rp(*rp_along), slice.open_start <= rp_along.depth, wf_frag(slice.content), open_ok(*slice), cont(rnode(*rp_along, 0)) is Some,
ensures ({
    let x = rp_along.depth - slice.open_start;
    wrapped(r.0, *slice, x) && r.1 == slice.open_start + x && r.2 == nkids(r.0) - slice.open_end - x
}),
    flat(kids(r.0)) == opens(pheads(*rp_along, 0, rp_along.depth - slice.open_start)) + flat(slice.content.inner@) + closes((rp_along.depth - slice.open_start) as nat),
    norm(slice.content.inner@) ==> norm_node(r.0),
-- attr #[verifier::spinoff_prover]
-- start
        hide(flat); hide(toks); hide(wf_node); hide(wf_all); hide(path_ok); hide(lspine); hide(rspine); hide(single); hide(wrapped); hide(pheads);
        let ghost tt = flat(slice.content.inner@);
        proof {
            lemma_rp_at(*rp_along, rp_along.depth - slice.open_start);
            lemma_with_content(rnode(*rp_along, rp_along.depth - slice.open_start), slice.content);
            lemma_wrap_none(*rp_along, rp_along.depth - slice.open_start, tt);
        }
        proof { assert forall|n: MarkdownNode, k: int| #[trigger] wrapped(n, *slice, k) && k >= 0 implies wf_node(n) && cont(n) is Some && slice.open_start + k + slice.open_end + k <= nkids(n) <= isize::MAX - 2 && csize(n) == nkids(n) by { lemma_wrapped_fits(n, *slice, k); }
            lemma_rp_at(*rp_along, rp_along.depth - slice.open_start); lemma_wrapped0(rnode(*rp_along, rp_along.depth - slice.open_start), *slice); lemma_cut_norm(rnode(*rp_along, rp_along.depth - slice.open_start)); }
-- closure 1 (c: &Fragment) -> (o: Fragment)
ensures o == slice.content,
-- closure 2 (c: &Fragment) -> (o: Fragment)
requires wf_node(node),
ensures o.inner@ == seq![node], wf_frag(o),
-- loop 1
invariant
    wf_rp(*rp_along), slice.open_start <= rp_along.depth, wf_frag(slice.content), open_ok(*slice), cont(rnode(*rp_along, 0)) is Some,
    lo1 == 0, idx1 <= extra, extra == rp_along.depth - slice.open_start,
    wrapped(node, *slice, extra - idx1), norm(slice.content.inner@) ==> norm_node(node),
    tt == flat(slice.content.inner@), flat(kids(node)) == opens(pheads(*rp_along, idx1 as int, extra as int)) + tt + closes((extra - idx1) as nat), head(node) == head(rnode(*rp_along, idx1 as int)),
decreases idx1,
-- loopstart 1
            let ghost n0 = node;
            proof { lemma_rp_at(*rp_along, idx1 - 1); lemma_wrapped_fits(node, *slice, extra - idx1); lemma_norm(seq![node]); lemma_cut_norm(rnode(*rp_along, idx1 - 1)); }
-- loopend 1
            proof { lemma_wrap_step(*rp_along, idx1 + 1, extra as int, n0, cont(node)->Some_0, tt); lemma_wrapped(rnode(*rp_along, idx1 as int), n0, cont(node)->Some_0, *slice, extra - idx1 - 1); }
== fn replace_outer -> r
requires
    wf_rp(*rp_from), wf_rp(*rp_to), same_at(*rp_from, *rp_to, depth as int), rp_from.pos <= rp_to.pos,
    wf_frag(slice.content), open_ok(*slice), slice.open_start <= rp_from.depth, slice.open_end <= rp_to.depth,
    rp_from.depth - slice.open_start == rp_to.depth - slice.open_end, depth <= rp_from.depth - slice.open_start,
ensures
    @C16,C06,C07: joins_rp(*rp_from, *rp_to, *slice) && keep_at(*rp_from, *rp_to, *slice, depth as int) ==> r is Ok,
    @C05: r is Ok && was_ok(*rp_from, depth as int) ==> keep_at(*rp_from, *rp_to, *slice, depth as int),
    r matches Ok(n) ==> {
        &&& wf_node(n) && head(n) == head(rnode(*rp_from, depth as int))
        &&& flat(kids(n)) == lt(*rp_from, depth as int) + inserts(*slice) + rt(*rp_to, depth as int)
        &&& norm_node(rnode(*rp_from, 0)) && norm_node(rnode(*rp_to, 0)) && norm(slice.content.inner@) ==> norm_node(n)
    },
decreases rp_from.depth - depth,
-- attr #[verifier::spinoff_prover]
-- start
        hide(flat); hide(toks); hide(wf_node); hide(wf_all); hide(lt); hide(rt); hide(mid); hide(path_ok); hide(valid_content); hide(lspine); hide(rspine); hide(single); hide(cutf); hide(inserts); hide(rtoff); hide(keep_at); hide(was_ok); hide(joins_rp); hide(vtoks); hide(ok2); hide(ok3);
        let ghost d = depth as int;
        let ghost y = ty(rnode(*rp_from, d));
        proof {
            if ridx(*rp_from, d) == ridx(*rp_to, d) && d < rp_from.depth - slice.open_start { lemma_keep_down(*rp_from, *rp_to, *slice, d); }
            if rp_from.depth == d && rp_to.depth == d { lemma_keep_flat(*rp_from, *rp_to, *slice, d); }
            if slice.content.size == 0 { lemma_keep_two(*rp_from, *rp_to, *slice, d); }
            lemma_rp_at(*rp_from, d); lemma_rp_at(*rp_to, d); lemma_inserts(*slice); lemma_empty();
            lemma_rp_level(*rp_from, d); lemma_rp_in(*rp_from, d); lemma_wf_cont(rnode(*rp_from, d));
            if rp_from.depth == d && rp_to.depth == d { lemma_flat_case(*rp_from, *rp_to, d); }
            if rp_from.depth > 0 { lemma_root_cont(*rp_from); }
            if norm_node(rnode(*rp_from, 0)) { lemma_norm_path(*rp_from, d); }
            lemma_cut_norm(rnode(*rp_from, d));
            if d < rp_from.depth && d < rp_to.depth && ridx(*rp_from, d) == ridx(*rp_to, d) { lemma_same_down(*rp_from, *rp_to, d); }
            assert forall|s: Seq<Tok>| #[trigger] (s + Seq::<Tok>::empty()) == s by { assert(s + Seq::<Tok>::empty() =~= s); }
            assert forall|c: Fragment| cont(rnode(*rp_from, d)) is Some implies kids(#[trigger] with_content(rnode(*rp_from, d), c)) == c.inner@ && (wf_node(with_content(rnode(*rp_from, d), c)) <==> wf_frag(c)) && head(with_content(rnode(*rp_from, d), c)) == head(rnode(*rp_from, d)) by { lemma_with_content(rnode(*rp_from, d), c); }
            let ks = rkids(*rp_from, d);
            let i = ridx(*rp_from, d);
            assert forall|n: MarkdownNode| #![trigger ks.update(i, n)] d < rp_from.depth && d < rp_to.depth && ridx(*rp_to, d) == i && wf_node(n) && head(n) == head(rnode(*rp_from, d + 1)) && cont(n) is Some
                && flat(kids(n)) == lt(*rp_from, d + 1) + inserts(*slice) + rt(*rp_to, d + 1) implies {
                &&& flat(ks.update(i, n)) == lt(*rp_from, d) + inserts(*slice) + rt(*rp_to, d)
                &&& norm(ks) && norm_node(n) ==> norm(ks.update(i, n))
            } by {
                lemma_outer_child(*rp_from, *rp_to, d, n, inserts(*slice));
                if norm(ks) && norm_node(n) { lemma_norm_update(ks, i, n); }
            }
            let x = rp_from.depth - slice.open_start;
            assert forall|n: MarkdownNode| #[trigger] wrapped(n, *slice, x) implies bnd(flat(kids(n)), slice.open_start + x) && bnd(flat(kids(n)), nkids(n) - slice.open_end - x) by { lemma_prep_bnd(n, x, slice.open_start as int, slice.open_end as int); }
            assert forall|n: MarkdownNode, p: ResolvedPos, q: ResolvedPos| #![trigger wrapped(n, *slice, x), wf_rp(p), wf_rp(q)]
                wrapped(n, *slice, x) && flat(kids(n)) == opens(pheads(*rp_from, 0, x)) + flat(slice.content.inner@) + closes(x as nat) && wf_rp(p) && wf_rp(q) && rnode(p, 0) == n && rnode(q, 0) == n && p.pos == slice.open_start + x && q.pos == nkids(n) - slice.open_end - x implies {
                &&& p.depth == rp_from.depth && q.depth == rp_to.depth && rtoff(p) == 0 && rtoff(q) == 0 && p.pos <= q.pos && same_at(p, q, d)
                &&& mid(p, q, d) == inserts(*slice)
                &&& joins_rp(*rp_from, *rp_to, *slice) && keep_at(*rp_from, *rp_to, *slice, d) ==> ok3(*rp_from, p, q, *rp_to, d) && vtoks(y, mix3(*rp_from, mid(p, q, d), *rp_to, d))
                &&& ok3(*rp_from, p, q, *rp_to, d) && vtoks(y, mix3(*rp_from, mid(p, q, d), *rp_to, d)) ==> keep_at(*rp_from, *rp_to, *slice, d)
            } by {
                lemma_prep(n, p, q, x, slice.open_start as int, slice.open_end as int);
                assert(same_at(p, q, d));
                assert(mid(p, q, d) == inserts(*slice)) by { reveal(inserts); }
                lemma_keep_three(*rp_from, *rp_to, *slice, n, p, q, d);
            }
        }
-- closure 1 (c: &Fragment) -> (o: Fragment)
requires wf_frag(*c), wf_node(inner), index < c.inner@.len(),
ensures wf_frag(o), o.inner@ == c.inner@.update(index as int, inner),
== fn replace -> r
requires
    wf_rp(*rp_from), wf_rp(*rp_to), same_at(*rp_from, *rp_to, 0), rp_from.pos <= rp_to.pos, wf_frag(slice.content),
ensures
    r is Ok ==> fits(rflat(*rp_from, 0), rp_from.pos as int, rp_to.pos as int, *slice),
    @C16,C06,C07: fits(rflat(*rp_from, 0), rp_from.pos as int, rp_to.pos as int, *slice) && joins(rflat(*rp_from, 0), rp_from.pos as int, rp_to.pos as int, *slice) && stays_valid(ty(rnode(*rp_from, 0)), rflat(*rp_from, 0), rp_from.pos as int, rp_to.pos as int, *slice) ==> r is Ok,
    @C05: r is Ok && valid_around(ty(rnode(*rp_from, 0)), rflat(*rp_from, 0), rp_from.pos as int) ==> stays_valid(ty(rnode(*rp_from, 0)), rflat(*rp_from, 0), rp_from.pos as int, rp_to.pos as int, *slice),
    r matches Ok(n) ==> spliced(rnode(*rp_from, 0), rp_from.pos as int, rp_to.pos as int, inserts(*slice), n),
    r matches Ok(n) ==> norm_node(rnode(*rp_from, 0)) && norm_node(rnode(*rp_to, 0)) && norm(slice.content.inner@) ==> norm_node(n),
-- attr #[verifier::spinoff_prover]
-- start
        hide(flat); hide(path_ok); hide(run); hide(stays_valid); hide(joins); hide(valid_around); hide(was_ok); hide(keep_at); hide(joins_rp);
        proof { lemma_rp_depth(*rp_from); lemma_rp_depth(*rp_to); lemma_keep_root(*rp_from, *rp_to, *slice); }
== fn MarkdownNode::replace -> r
requires wf_node(*self), wf_frag(slice.content),
ensures ({
    let t = flat(kids(*self));
    let from = rfrom(range);
    let to = rto(range, nkids(*self));
    &&& r is Ok ==> from <= to <= t.len() && bnd(t, from) && bnd(t, to) && fits(t, from, to, *slice)
    @C16,C06,C07: &&& from <= to <= t.len() && bnd(t, from) && bnd(t, to) && may_replace(ty(*self), t, from, to, *slice) ==> r is Ok
    @C05: &&& r is Ok && valid_around(ty(*self), t, from) ==> stays_valid(ty(*self), t, from, to, *slice)
    &&& r matches Ok(n) ==> spliced(*self, from, to, inserts(*slice), n)
    &&& r matches Ok(n) ==> norm_node(*self) && norm(slice.content.inner@) ==> norm_node(n)
    @C05: &&& r matches Ok(n) ==> valid_node(*self) && closed_valid(*slice) ==> valid_node(n)
}),
-- attr #[verifier::spinoff_prover]
-- start
        hide(flat); hide(path_ok); hide(run); hide(stays_valid); hide(joins); hide(valid_around); hide(fits); hide(closed_valid); hide(spliced); hide(inserts);
        proof {
            let t = flat(kids(*self));
            if valid_node(*self) {
                lemma_valid(*self);
                assert forall|p: int| #[trigger] valid_around(ty(*self), t, p) by { reveal(valid_around); }
                assert forall|from: int, to: int, n: MarkdownNode| #[trigger] spliced(*self, from, to, inserts(*slice), n) && 0 <= from <= to <= t.len() && fits(t, from, to, *slice) && closed_valid(*slice) && stays_valid(ty(*self), t, from, to, *slice)
                    implies valid_node(n) by { reveal(fits); lemma_replace_valid(*self, from, to, *slice, n); }
            }
        }
== fn insert_into -> r
requires wf_frag(*content), wf_frag(insert), parent matches Some(p) ==> content.inner@.len() <= kids(*p).len(),
ensures ({
    let t = flat(content.inner@);
    &&& dist > t.len() || !bnd(t, dist as int) ==> r is Err
    &&& parent is None && dist <= t.len() && bnd(t, dist as int) ==> (r matches Ok(o) && o is Some)
    &&& r matches Ok(Some(f)) ==> wf_frag(f) && flat(f.inner@) == spliced_toks(t, dist as int, flat(insert.inner@))
    &&& r matches Ok(Some(f)) ==> norm(content.inner@) && norm(insert.inner@) ==> norm(f.inner@)
}),
decreases dist,
-- attr #[verifier::spinoff_prover]
-- start
        hide(flat); hide(toks); hide(wf_node); hide(wf_all); hide(run); hide(cutf);
        let ghost s = content.inner@;
        let ghost x = flat(insert.inner@);
        proof {
            lemma_wf_all(s); lemma_empty(); axiom_fits(content.inner); assert(s.take(s.len() as int) =~= s);
            assert forall|i: int| #![trigger s.take(i)] 0 <= i <= s.len() && ({ let o = flat(s.take(i)).len(); o <= dist && (o < dist ==> i < s.len() && dist < flat(s.take(i + 1)).len()) }) implies ({
                let o = flat(s.take(i)).len() as int;
                &&& i < s.len() ==> flat(s.take(i + 1)) == flat(s.take(i)) + toks(s[i]) && wf_node(s[i])
                &&& o == dist ==> bnd(flat(s), dist as int)
                &&& o < dist && cont(s[i]) is None ==> is_text(s[i])
                &&& o < dist && is_text(s[i]) ==> (bnd(flat(s), dist as int) <==> cbnd(text_of(s[i]).text.content@, dist - o)) && 0 < dist - o < u16len(text_of(s[i]).text.content@) <= usize::MAX
                &&& i < s.len() && is_text(s[i]) ==> cbnd(text_of(s[i]).text.content@, 0) && u16len(text_of(s[i]).text.content@) <= usize::MAX
                &&& bnd(flat(s), dist as int) && (o == dist || is_text(s[i])) ==> cutf(flat(s), 0, dist as int) == flat(s).take(dist as int) && cutf(flat(s), dist as int, flat(s).len() as int) == flat(s).skip(dist as int) && bnd(flat(s), 0) && bnd(flat(s), flat(s).len() as int)
                &&& o < dist && cont(s[i]) is Some ==> wf_frag(cont(s[i]).unwrap()) && dist - o - 1 <= nkids(s[i]) && (bnd(flat(s), dist as int) <==> bnd(flat(kids(s[i])), dist - o - 1)) && decreases_to!(dist => (dist - o - 1) as usize)
                &&& o < dist && cont(s[i]) is Some ==> forall|c: Fragment| wf_frag(c) && flat(c.inner@) == spliced_toks(flat(kids(s[i])), dist - o - 1, x) ==> {
                    &&& wf_node(#[trigger] with_content(s[i], c))
                    &&& flat(s.update(i, with_content(s[i], c))) == spliced_toks(flat(s), dist as int, x)
                    &&& norm(s) && norm(c.inner@) ==> norm(s.update(i, with_content(s[i], c)))
                }
                &&& i < s.len() && norm(s) ==> (cont(s[i]) matches Some(c) ==> norm(c.inner@))
            }) by {
                let o = flat(s.take(i)).len() as int;
                if i < s.len() {
                    lemma_toks_cont(s[i]); lemma_wf_cont(s[i]); lemma_flat_take(s, i); lemma_norm(s); lemma_cut_norm(s[i]);
                    if is_text(s[i]) { axiom_str_fits(text_of(s[i]).text.content); assert(u16len(text_of(s[i]).text.content@.take(0)) == 0); }
                }
                if o == dist { lemma_bnd_seam(s, i); } else { lemma_bnd_down(s, i, dist - o); }
                if bnd(flat(s), dist as int) && (o == dist || is_text(s[i])) { lemma_insert_here(s, i, dist as int); }
                if o < dist && cont(s[i]) is Some {
                    assert forall|c: Fragment| wf_frag(c) && flat(c.inner@) == spliced_toks(flat(kids(s[i])), dist - o - 1, x) implies {
                        &&& wf_node(#[trigger] with_content(s[i], c))
                        &&& flat(s.update(i, with_content(s[i], c))) == spliced_toks(flat(s), dist as int, x)
                        &&& norm(s) && norm(c.inner@) ==> norm(s.update(i, with_content(s[i], c)))
                    } by {
                        if norm(s) && norm(c.inner@) { lemma_norm_update(s, i, with_content(s[i], c)); }
                        lemma_with_content(s[i], c);
                        lemma_insert_child(s, i, dist as int, with_content(s[i], c), x);
                    }
                }
            }
        }
-- closure 1 (c: &Fragment) -> (o: Fragment)
ensures o == i,
== fn Slice::insert_at -> r
requires wf_frag(self.content), wf_frag(fragment),
ensures ({
    let t = flat(self.content.inner@);
    let p = pos + self.open_start;
    &&& p > t.len() || !bnd(t, p) ==> r is Err
    &&& p <= t.len() && bnd(t, p) ==> (r matches Ok(o) && o is Some)
    &&& r matches Ok(Some(f)) ==> filled(*self, p, flat(fragment.inner@), f)
    &&& r matches Ok(Some(f)) ==> norm(self.content.inner@) && norm(fragment.inner@) ==> norm(f.content.inner@)
}),
-- start
        proof { axiom_fits(self.content.inner); }
