// ------------------------------------------------------------------ slices
pub proof fn lemma_rp_sub(rp: ResolvedPos, d: int)
    requires wf_rp(rp), 0 <= d <= rp.depth
    ensures
        rend(rp, d) <= rend(rp, 0),
        rflat(rp, 0).subrange(rstart(rp, d), rend(rp, d)) == rflat(rp, d)
    decreases d
{
    if d == 0 { assert(rflat(rp, 0).subrange(0, rend(rp, 0)) =~= rflat(rp, 0)); } else {
        lemma_rp_sub(rp, d - 1);
        lemma_rp_level(rp, d - 1);
        let ks = rkids(rp, d - 1);
        lemma_flat_at(ks, ridx(rp, d - 1));
        lemma_toks_cont(rnode(rp, d));
        let t = rflat(rp, 0);
        let u = rflat(rp, d - 1);
        let o = rstart(rp, d) - rstart(rp, d - 1);
        assert(u.subrange(o, o + rflat(rp, d).len()) =~= rflat(rp, d));
        assert(t.subrange(rstart(rp, d), rend(rp, d)) =~= u.subrange(o, o + rflat(rp, d).len()));
    }
}
pub proof fn lemma_rp_bnd(rp: ResolvedPos, d: int)
    requires wf_rp(rp), 0 <= d <= rp.depth
    ensures bnd(rflat(rp, d), rp.pos - rstart(rp, d))
    decreases rp.depth - d
{
    let ks = rkids(rp, d);
    let i = ridx(rp, d);
    lemma_rp_level(rp, d);
    if d < rp.depth {
        lemma_rp_bnd(rp, d + 1);
        lemma_rp_in(rp, d + 1);
        lemma_toks_cont(ks[i]);
        lemma_bnd_down(ks, i, rp.pos - rstart(rp, d + 1) + 1);
    } else {
        lemma_lt_last(rp);
        if rtoff(rp) == 0 { lemma_bnd_seam(ks, i); } else { lemma_bnd_down(ks, i, rtoff(rp)); }
    }
}
/// the fewest nodes that are open anywhere in a span
pub open spec fn min_depth(t: Seq<Tok>, from: int, to: int, d: int) -> bool {
    (forall|p: int| from <= p <= to ==> #[trigger] depth_at(t, p) >= d) && exists|p: int| from <= p <= to && #[trigger] depth_at(t, p) == d
}
/// `s` is the part of `t` between the positions, inside of the `d` outermost nodes
pub open spec fn is_slice(t: Seq<Tok>, from: int, to: int, d: int, s: Slice) -> bool {
    &&& wf_frag(s.content)
    &&& 0 <= d <= depth_at(t, from) && d <= depth_at(t, to)
    &&& s.open_start == depth_at(t, from) - d
    &&& s.open_end == depth_at(t, to) - d
    &&& flat(s.content.inner@) == opens(run(Seq::empty(), t.take(from)).skip(d)) + t.subrange(from, to) + closes((depth_at(t, to) - d) as nat)
}
pub open spec fn same_root(a: ResolvedPos, b: ResolvedPos) -> bool { rnode(a, 0) == rnode(b, 0) }
/// the open nodes shared by two positions
pub open spec fn is_shared(a: ResolvedPos, to: int, d: int) -> bool {
    0 <= d <= a.depth && (d == 0 || rstart(a, d) <= to <= rend(a, d)) && (forall|e: int| d < e <= a.depth ==> !(#[trigger] rstart(a, e) <= to <= rend(a, e)))
}
pub proof fn lemma_min_shared(a: ResolvedPos, to: int, d: int)
    requires wf_rp(a), a.pos <= to <= rflat(a, 0).len(), is_shared(a, to, d)
    ensures min_depth(rflat(a, 0), a.pos as int, to, d)
{
    let t = rflat(a, 0);
    lemma_rp_in(a, d);
    assert forall|p: int| a.pos <= p <= to implies #[trigger] depth_at(t, p) >= d by { lemma_rp_run(a, 0, d, p); }
    if d == a.depth { lemma_rp_depth(a); assert(depth_at(t, a.pos as int) == d); }
    else {
        lemma_rp_in(a, d + 1);
        lemma_rp_level(a, d);
        let ks = rkids(a, d);
        let i = ridx(a, d);
        let p = rend(a, d + 1) + 1;
        lemma_toks_cont(ks[i]);
        lemma_flat_take(ks, i);
        lemma_flat_split(ks, i + 1);
        assert(rflat(a, d).take(p - rstart(a, d)) =~= flat(ks.take(i + 1)));
        lemma_run_flat(Seq::empty(), ks.take(i + 1));
        lemma_rp_run(a, 0, d, p);
        assert(a.pos <= p <= to);
        assert(depth_at(t, p) == d);
    }
}
pub proof fn lemma_min_unique(t: Seq<Tok>, from: int, to: int, d: int, e: int)
    requires min_depth(t, from, to, d), min_depth(t, from, to, e)
    ensures d == e
{ }
pub proof fn lemma_slice(a: ResolvedPos, b: ResolvedPos, d: int)
    requires
        wf_rp(a), wf_rp(b), same_root(a, b), a.pos < b.pos,
        0 <= d <= a.depth, d == 0 || rstart(a, d) <= b.pos <= rend(a, d),
    ensures ({
        let t = rflat(a, 0);
        let u = rflat(a, d);
        let f = a.pos - rstart(a, d);
        let g = b.pos - rstart(a, d);
        &&& d <= b.depth && a.depth == depth_at(t, a.pos as int) && b.depth == depth_at(t, b.pos as int)
        &&& 0 <= f < g <= u.len() && bnd(u, f) && bnd(u, g)
        &&& cutf(u, f, g) == opens(run(Seq::empty(), t.take(a.pos as int)).skip(d)) + t.subrange(a.pos as int, b.pos as int) + closes((b.depth - d) as nat)
        &&& b.pos <= t.len()
    })
{
    let t = rflat(a, 0);
    let u = rflat(a, d);
    let s = rstart(a, d);
    let e = Seq::<Head>::empty();
    lemma_rp_in(a, d); lemma_rp_in(b, 0);
    lemma_rp_sub(a, d);
    lemma_rp_run(a, 0, d, a.pos as int);
    lemma_rp_run(a, 0, d, b.pos as int);
    lemma_rp_depth(a); lemma_rp_depth(b);
    lemma_rp_bnd(a, d); lemma_rp_bnd(b, 0);
    let f = a.pos - s;
    let g = b.pos - s;
    if g < u.len() { assert(u[g] == t[b.pos as int]); }
    assert(t.subrange(a.pos as int, b.pos as int) =~= u.subrange(f, g));
    assert(run(e, t.take(a.pos as int)).skip(d) =~= run(e, u.take(f)));
}
pub open spec fn nkids(n: MarkdownNode) -> int { flat(kids(n)).len() as int }
pub open spec fn slice_ok(t: Seq<Tok>, from: int, to: int, inc: bool, s: Slice) -> bool {
    exists|d: int| #[trigger] is_slice(t, from, to, d, s) && (if inc { d == 0 } else { min_depth(t, from, to, d) })
}
