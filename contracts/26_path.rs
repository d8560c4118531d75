// ------------------------------------------------------------------ resolved positions
pub open spec fn pstart(path: Seq<ResolvedNode>, d: int) -> int { if d == 0 { 0 } else { path[d - 1].before + 1 } }
pub open spec fn pnode(path: Seq<ResolvedNode>, d: int) -> MarkdownNode { *path[d].node }
pub open spec fn pkids(path: Seq<ResolvedNode>, d: int) -> Seq<MarkdownNode> { kids(pnode(path, d)) }
pub open spec fn pidx(path: Seq<ResolvedNode>, d: int) -> int { path[d].index as int }
/// level `d` is exact: the index and the position before the node at it
pub open spec fn plevel(path: Seq<ResolvedNode>, d: int) -> bool {
    let ks = pkids(path, d);
    wf_node(pnode(path, d)) && pidx(path, d) <= ks.len() && path[d].before == pstart(path, d) + flat(ks.take(pidx(path, d))).len()
}
/// the node of level `d + 1` is the child of the node of level `d` at its index
pub open spec fn pdown(path: Seq<ResolvedNode>, d: int) -> bool {
    pidx(path, d) < pkids(path, d).len() && pkids(path, d)[pidx(path, d)] == pnode(path, d + 1) && cont(pnode(path, d + 1)) is Some
}
pub open spec fn pchain(path: Seq<ResolvedNode>) -> bool {
    (forall|d: int| 0 <= d < path.len() ==> #[trigger] plevel(path, d)) && (forall|d: int| 0 <= d < path.len() - 1 ==> #[trigger] pdown(path, d))
}
/// the last level, and how far the position is inside of a text
pub open spec fn plast(path: Seq<ResolvedNode>, pos: int) -> bool {
    let d = path.len() - 1;
    let t = pos - path[d].before;
    t >= 0 && (t > 0 ==> pidx(path, d) < pkids(path, d).len() && is_text(pkids(path, d)[pidx(path, d)])
        && t < toks(pkids(path, d)[pidx(path, d)]).len() && bnd(toks(pkids(path, d)[pidx(path, d)]), t))
}
pub open spec fn path_ok(path: Seq<ResolvedNode>, pos: int) -> bool { path.len() > 0 && pchain(path) && plast(path, pos) }
/// `rp` is the position `rp.pos` in the document `rnode(rp, 0)`
pub open spec fn wf_rp(rp: ResolvedPos) -> bool {
    path_ok(rp.path@, rp.pos as int) && rp.depth == rp.path@.len() - 1 && rp.parent_offset == rp.pos - pstart(rp.path@, rp.depth as int)
}
pub open spec fn rstart(rp: ResolvedPos, d: int) -> int { pstart(rp.path@, d) }
pub open spec fn rnode(rp: ResolvedPos, d: int) -> MarkdownNode { pnode(rp.path@, d) }
pub open spec fn rkids(rp: ResolvedPos, d: int) -> Seq<MarkdownNode> { pkids(rp.path@, d) }
pub open spec fn ridx(rp: ResolvedPos, d: int) -> int { pidx(rp.path@, d) }
pub open spec fn rflat(rp: ResolvedPos, d: int) -> Seq<Tok> { flat(pkids(rp.path@, d)) }
/// how far the position is inside of a text
pub open spec fn rtoff(rp: ResolvedPos) -> int { rp.pos - rp.path@[rp.depth as int].before }
pub open spec fn rend(rp: ResolvedPos, d: int) -> int { rstart(rp, d) + rflat(rp, d).len() }
/// the tokens of the node at level `d` before and after the position
pub open spec fn lt(rp: ResolvedPos, d: int) -> Seq<Tok> { rflat(rp, d).take(rp.pos - rstart(rp, d)) }
pub open spec fn rt(rp: ResolvedPos, d: int) -> Seq<Tok> { rflat(rp, d).skip(rp.pos - rstart(rp, d)) }

pub proof fn lemma_rp_level(rp: ResolvedPos, d: int)
    requires wf_rp(rp), 0 <= d <= rp.depth
    ensures plevel(rp.path@, d), d < rp.depth ==> pdown(rp.path@, d) && plevel(rp.path@, d + 1)
{ }
/// the position is inside of every node of its path
pub proof fn lemma_rp_in(rp: ResolvedPos, d: int)
    requires wf_rp(rp), 0 <= d <= rp.depth
    ensures rstart(rp, d) <= rp.pos <= rend(rp, d), d > 0 ==> cont(rnode(rp, d)) is Some,
    decreases rp.depth - d
{
    lemma_rp_level(rp, d);
    if d > 0 { lemma_rp_level(rp, d - 1); }
    let ks = rkids(rp, d);
    let i = ridx(rp, d);
    if d < rp.depth {
        lemma_rp_in(rp, d + 1);
        lemma_flat_at(ks, i);
        lemma_toks_cont(ks[i]);
    } else {
        lemma_flat_split(ks, i);
        if rtoff(rp) > 0 { lemma_flat_at(ks, i); }
    }
}
pub proof fn lemma_lt(rp: ResolvedPos, d: int)
    requires wf_rp(rp), 0 <= d < rp.depth
    ensures
        lt(rp, d) == flat(rkids(rp, d).take(ridx(rp, d))) + seq![Tok::Open(head(rnode(rp, d + 1)))] + lt(rp, d + 1),
        rt(rp, d) == rt(rp, d + 1) + seq![Tok::Close] + flat(rkids(rp, d).skip(ridx(rp, d) + 1)),
{
    lemma_rp_level(rp, d);
    lemma_rp_in(rp, d);
    lemma_rp_in(rp, d + 1);
    let ks = rkids(rp, d);
    let i = ridx(rp, d);
    lemma_flat_at(ks, i);
    lemma_toks_cont(ks[i]);
    assert(lt(rp, d) =~= flat(ks.take(i)) + seq![Tok::Open(head(rnode(rp, d + 1)))] + lt(rp, d + 1));
    assert(rt(rp, d) =~= rt(rp, d + 1) + seq![Tok::Close] + flat(ks.skip(i + 1)));
}
pub proof fn lemma_lt_last(rp: ResolvedPos)
    requires wf_rp(rp)
    ensures ({
        let d = rp.depth as int;
        let ks = rkids(rp, d);
        let i = ridx(rp, d);
        &&& 0 <= i <= ks.len()
        &&& rtoff(rp) == 0 ==> lt(rp, d) == flat(ks.take(i)) && rt(rp, d) == flat(ks.skip(i))
        &&& rtoff(rp) > 0 ==> i < ks.len() && is_text(ks[i]) && wf_node(ks[i]) && rtoff(rp) < toks(ks[i]).len() && bnd(toks(ks[i]), rtoff(rp))
            && lt(rp, d) == flat(ks.take(i)) + toks(ks[i]).take(rtoff(rp))
            && rt(rp, d) == toks(ks[i]).skip(rtoff(rp)) + flat(ks.skip(i + 1))
    })
{
    let d = rp.depth as int;
    let ks = rkids(rp, d);
    let i = ridx(rp, d);
    lemma_rp_level(rp, d);
    lemma_rp_in(rp, d);
    lemma_flat_split(ks, i);
    if rtoff(rp) == 0 {
        assert(lt(rp, d) =~= flat(ks.take(i)));
        assert(rt(rp, d) =~= flat(ks.skip(i)));
    } else {
        lemma_wf_cont(rnode(rp, d));
        lemma_wf_all(ks);
        lemma_flat_at(ks, i);
        assert(lt(rp, d) =~= flat(ks.take(i)) + toks(ks[i]).take(rtoff(rp)));
        assert(rt(rp, d) =~= toks(ks[i]).skip(rtoff(rp)) + flat(ks.skip(i + 1)));
    }
}
/// the heads of the nodes of the path from level `a + 1` to level `b`
pub open spec fn pheads(rp: ResolvedPos, a: int, b: int) -> Seq<Head> { Seq::new((b - a) as nat, |k: int| head(rnode(rp, a + 1 + k))) }
/// a position inside of the node at level `d`, seen from level `a`
pub proof fn lemma_rp_run(rp: ResolvedPos, a: int, d: int, p: int)
    requires wf_rp(rp), 0 <= a <= d <= rp.depth, rstart(rp, d) <= p <= rend(rp, d)
    ensures
        rstart(rp, a) <= p <= rend(rp, a),
        run(Seq::empty(), rflat(rp, a).take(p - rstart(rp, a))) == pheads(rp, a, d) + run(Seq::empty(), rflat(rp, d).take(p - rstart(rp, d))),
    decreases d - a
{
    if a == d {
        assert(pheads(rp, a, d) =~= Seq::empty());
        assert(pheads(rp, a, d) + run(Seq::empty(), rflat(rp, d).take(p - rstart(rp, d))) =~= run(Seq::empty(), rflat(rp, d).take(p - rstart(rp, d))));
    } else {
        lemma_rp_run(rp, a + 1, d, p);
        lemma_rp_level(rp, a);
        let ks = rkids(rp, a);
        let i = ridx(rp, a);
        let n = rnode(rp, a + 1);
        lemma_flat_at(ks, i);
        lemma_toks_cont(n);
        let q = p - rstart(rp, a);
        lemma_run_at(ks, i, q);
        lemma_run_in(n, q - flat(ks.take(i)).len());
        assert(q - flat(ks.take(i)).len() - 1 == p - rstart(rp, a + 1));
        assert(pheads(rp, a, d) =~= seq![head(n)] + pheads(rp, a + 1, d));
        assert(seq![head(n)] + (pheads(rp, a + 1, d) + run(Seq::empty(), rflat(rp, d).take(p - rstart(rp, d)))) =~= pheads(rp, a, d) + run(Seq::empty(), rflat(rp, d).take(p - rstart(rp, d))));
    }
}
/// the nodes open at the position are those of the path
pub proof fn lemma_rp_depth(rp: ResolvedPos)
    requires wf_rp(rp)
    ensures
        run(Seq::empty(), rflat(rp, 0).take(rp.pos as int)) == pheads(rp, 0, rp.depth as int),
        depth_at(rflat(rp, 0), rp.pos as int) == rp.depth,
{
    let d = rp.depth as int;
    lemma_rp_in(rp, d);
    lemma_rp_run(rp, 0, d, rp.pos as int);
    lemma_lt_last(rp);
    lemma_run_lt_last(rp);
    assert(pheads(rp, 0, d) + Seq::empty() =~= pheads(rp, 0, d));
}
pub proof fn lemma_run_lt_last(rp: ResolvedPos)
    requires wf_rp(rp)
    ensures run(Seq::empty(), lt(rp, rp.depth as int)) == Seq::<Head>::empty()
{
    let d = rp.depth as int;
    let ks = rkids(rp, d);
    let i = ridx(rp, d);
    lemma_lt_last(rp);
    let e = Seq::<Head>::empty();
    lemma_run_flat(e, ks.take(i));
    if rtoff(rp) > 0 {
        lemma_units_nb(text_of(ks[i]).text.content@, marks_of(ks[i]));
        lemma_toks_cont(ks[i]);
        lemma_nb_take(toks(ks[i]), rtoff(rp));
        lemma_run_flat0(e, toks(ks[i]).take(rtoff(rp)));
        lemma_run_concat(e, flat(ks.take(i)), toks(ks[i]).take(rtoff(rp)));
    }
}
/// boundaries, one level down
pub proof fn lemma_bnd_seam(s: Seq<MarkdownNode>, i: int)
    requires 0 <= i <= s.len()
    ensures bnd(flat(s), flat(s.take(i)).len() as int)
{
    lemma_flat_split(s, i);
    lemma_bnd_flat0(s.skip(i));
    let p = flat(s.take(i)).len() as int;
    if p < flat(s).len() { assert(flat(s)[p] == flat(s.skip(i))[0]); }
}
pub proof fn lemma_bnd_down(s: Seq<MarkdownNode>, i: int, r: int)
    requires 0 <= i < s.len(), 0 < r < toks(s[i]).len()
    ensures
        bnd(flat(s), flat(s.take(i)).len() + r) <==> bnd(toks(s[i]), r),
        cont(s[i]) is Some ==> (bnd(toks(s[i]), r) <==> bnd(flat(kids(s[i])), r - 1)) && r - 1 <= flat(kids(s[i])).len(),
        is_text(s[i]) ==> (bnd(toks(s[i]), r) <==> cbnd(text_of(s[i]).text.content@, r)),
        is_text(s[i]) || cont(s[i]) is Some,
{
    lemma_flat_at(s, i);
    lemma_toks_cont(s[i]);
    assert(flat(s)[flat(s.take(i)).len() + r] == toks(s[i])[r]);
    if cont(s[i]) is Some {
        if r - 1 < flat(kids(s[i])).len() { assert(flat(kids(s[i]))[r - 1] == toks(s[i])[r]); }
    }
    if is_text(s[i]) { lemma_bnd_units(text_of(s[i]).text.content@, marks_of(s[i]), r); }
}
/// positions fit into a word
pub proof fn lemma_rp_fits(rp: ResolvedPos, d: int)
    requires wf_rp(rp), 0 <= d <= rp.depth
    ensures rend(rp, d) <= rflat(rp, 0).len() <= isize::MAX - 2, d > 0 ==> rend(rp, d) + 1 <= rflat(rp, 0).len()
    decreases d
{
    if d == 0 { if let Some(c) = cont(rnode(rp, 0)) { axiom_fits(c.inner); } else { lemma_empty(); } }
    else {
        lemma_rp_fits(rp, d - 1);
        lemma_rp_level(rp, d - 1);
        lemma_flat_at(rkids(rp, d - 1), ridx(rp, d - 1));
        lemma_toks_cont(rnode(rp, d));
    }
}
/// every level takes a position
pub proof fn lemma_rp_short(rp: ResolvedPos)
    requires wf_rp(rp)
    ensures rp.depth <= rp.pos
{ lemma_rp_short_at(rp, rp.depth as int); lemma_rp_in(rp, rp.depth as int); }
pub proof fn lemma_rp_short_at(rp: ResolvedPos, d: int)
    requires wf_rp(rp), 0 <= d <= rp.depth
    ensures d <= rstart(rp, d)
    decreases d
{ if d > 0 { lemma_rp_short_at(rp, d - 1); lemma_rp_level(rp, d - 1); } }
