// ------------------------------------------------------------------ when a replacement succeeds
/// goes from one level to another, never below the lowest
pub open spec fn climbs(t: Seq<Tok>, i: int, j: int) -> bool { dz(t) == j - i && forall|p: int| 0 <= p <= t.len() ==> #[trigger] lev(t, p) >= -i }
pub proof fn lemma_climbs_concat(a: Seq<Tok>, b: Seq<Tok>, i: int, j: int, k: int)
    requires climbs(a, i, j), climbs(b, j, k)
    ensures climbs(a + b, i, k)
{
    lemma_lev_concat(a, b);
    assert forall|p: int| 0 <= p <= (a + b).len() implies #[trigger] lev(a + b, p) >= -i by { if p <= a.len() { assert(lev(a, p) >= -i); } else { assert(lev(b, p - a.len()) >= -j); } }
}
/// the levels of the tokens before and after a position
pub proof fn lemma_rp_lev(rp: ResolvedPos, d: int)
    requires wf_rp(rp), 0 <= d <= rp.depth
    ensures
        rflat(rp, d) == lt(rp, d) + rt(rp, d), bal(rflat(rp, d)),
        climbs(lt(rp, d), 0, rp.depth - d), climbs(rt(rp, d), rp.depth - d, 0),
    decreases rp.depth - d
{
    let ks = rkids(rp, d);
    let i = ridx(rp, d);
    let t = rflat(rp, d);
    let l = lt(rp, d);
    let r = rt(rp, d);
    lemma_rp_in(rp, d);
    lemma_bal_flat(ks);
    assert(t =~= l + r);
    lemma_bal_flat(ks.take(i));
    if d < rp.depth {
        lemma_rp_lev(rp, d + 1);
        lemma_lt(rp, d);
        let o = seq![Tok::Open(head(rnode(rp, d + 1)))];
        lemma_dz_one(o[0]);
        lemma_dz_concat(flat(ks.take(i)) + o, lt(rp, d + 1));
        lemma_dz_concat(flat(ks.take(i)), o);
    } else {
        lemma_lt_last(rp);
        if rtoff(rp) > 0 {
            lemma_units_nb(text_of(ks[i]).text.content@, marks_of(ks[i]));
            lemma_toks_cont(ks[i]);
            lemma_nb_take(toks(ks[i]), rtoff(rp));
            lemma_nb_lev(toks(ks[i]).take(rtoff(rp)));
            lemma_dz_concat(flat(ks.take(i)), toks(ks[i]).take(rtoff(rp)));
        }
    }
    assert(dz(l) == rp.depth - d);
    lemma_lev_concat(l, r);
    assert forall|p: int| 0 <= p <= l.len() implies #[trigger] lev(l, p) >= 0 by { assert(lev(t, p) == lev(l, p)); }
    assert forall|p: int| 0 <= p <= r.len() implies #[trigger] lev(r, p) >= -(rp.depth - d) by { assert(lev(t, l.len() + p) == dz(l) + lev(r, p)); }
}
pub proof fn lemma_mid_lev(s: ResolvedPos, e: ResolvedPos, d: int)
    requires wf_rp(s), wf_rp(e), 0 <= d, same_at(s, e, d), s.pos <= e.pos
    ensures climbs(mid(s, e, d), s.depth - d, e.depth - d), rflat(s, d) == lt(s, d) + mid(s, e, d) + rt(e, d)
{
    lemma_rp_lev(s, d); lemma_rp_lev(e, d);
    lemma_rp_in(s, d); lemma_rp_in(e, d);
    let t = rflat(s, d);
    let l = lt(s, d);
    let m = mid(s, e, d);
    let r = rt(e, d);
    assert(t =~= l + m + r);
    assert(lt(e, d) =~= l + m);
    lemma_lev_concat(l, m);
    assert forall|p: int| 0 <= p <= m.len() implies #[trigger] lev(m, p) >= -(s.depth - d) by { assert(lev(l + m, l.len() + p) == dz(l) + lev(m, p)); assert(lev(lt(e, d), l.len() + p) >= 0); }
}
/// two sides put together
pub open spec fn mix2(a: ResolvedPos, b: ResolvedPos, d: int) -> Seq<Tok> { lt(a, d) + rt(b, d) }
pub open spec fn mix3(a: ResolvedPos, m: Seq<Tok>, b: ResolvedPos, d: int) -> Seq<Tok> { lt(a, d) + m + rt(b, d) }
pub open spec fn llen(a: ResolvedPos, d: int) -> int { lt(a, d).len() as int }
pub proof fn lemma_mix_lev(a: ResolvedPos, m: Seq<Tok>, b: ResolvedPos, d: int)
    requires wf_rp(a), wf_rp(b), 0 <= d <= a.depth, d <= b.depth, climbs(m, a.depth - d, b.depth - d)
    ensures
        bal(mix3(a, m, b, d)), lev(mix3(a, m, b, d), llen(a, d)) == a.depth - d, lev(mix3(a, m, b, d), llen(a, d) + m.len()) == b.depth - d,
        m.len() == 0 ==> bal(mix2(a, b, d)) && mix2(a, b, d) == mix3(a, m, b, d),
{
    lemma_rp_lev(a, d); lemma_rp_lev(b, d);
    let l = lt(a, d);
    let r = rt(b, d);
    lemma_climbs_concat(l, m, 0, a.depth - d, b.depth - d);
    lemma_climbs_concat(l + m, r, 0, b.depth - d, 0);
    lemma_lev_concat(l + m, r);
    lemma_lev_concat(l, m);
    lemma_lev_ends(l); lemma_lev_ends(l + m);
    if m.len() == 0 { assert(mix2(a, b, d) =~= mix3(a, m, b, d)); }
}
/// one level down, on both sides of a node
pub open spec fn framed(a: Seq<Tok>, h: Head, b: Seq<Tok>, c: Seq<Tok>) -> Seq<Tok> { a + seq![Tok::Open(h)] + b + seq![Tok::Close] + c }
pub proof fn lemma_mix_down(a: ResolvedPos, m: Seq<Tok>, b: ResolvedPos, d: int)
    requires wf_rp(a), wf_rp(b), 0 <= d < a.depth, d < b.depth, climbs(m, a.depth - d - 1, b.depth - d - 1)
    ensures ({
        let l = flat(rkids(a, d).take(ridx(a, d)));
        let h = head(rnode(a, d + 1));
        let x = mix3(a, m, b, d + 1);
        let r = flat(rkids(b, d).skip(ridx(b, d) + 1));
        &&& bal(l) && bal(x)
        &&& mix3(a, m, b, d) == framed(l, h, x, r)
        &&& llen(a, d) == l.len() + 1 + llen(a, d + 1)
    })
{
    lemma_mix_lev(a, m, b, d + 1);
    lemma_lt(a, d); lemma_lt(b, d);
    lemma_bal_flat(rkids(a, d).take(ridx(a, d)));
    let l = flat(rkids(a, d).take(ridx(a, d)));
    let h = head(rnode(a, d + 1));
    let x = mix3(a, m, b, d + 1);
    let r = flat(rkids(b, d).skip(ridx(b, d) + 1));
    assert(mix3(a, m, b, d) =~= framed(l, h, x, r));
}
pub proof fn lemma_mix_chk(a: ResolvedPos, m: Seq<Tok>, b: ResolvedPos, d: int)
    requires wf_rp(a), wf_rp(b), 0 <= d < a.depth, d < b.depth, climbs(m, a.depth - d - 1, b.depth - d - 1)
    ensures
        chk(mix3(a, m, b, d), llen(a, d)) <==> vtoks(ty(rnode(a, d + 1)), mix3(a, m, b, d + 1)) && chk(mix3(a, m, b, d + 1), llen(a, d + 1)),
        chk(mix3(a, m, b, d), llen(a, d) + m.len()) <==> vtoks(ty(rnode(a, d + 1)), mix3(a, m, b, d + 1)) && chk(mix3(a, m, b, d + 1), llen(a, d + 1) + m.len()),
{
    hide(chk); hide(vtoks); hide(flat); hide(lt); hide(rt); hide(climbs);
    lemma_mix_down(a, m, b, d);
    let l = flat(rkids(a, d).take(ridx(a, d)));
    let h = head(rnode(a, d + 1));
    let x = mix3(a, m, b, d + 1);
    let r = flat(rkids(b, d).skip(ridx(b, d) + 1));
    lemma_chk(l, h, x, r, llen(a, d + 1));
    lemma_chk(l, h, x, r, llen(a, d + 1) + m.len());
}
// ------------------------------------------------------------------ two sides
pub open spec fn joins2(a: ResolvedPos, b: ResolvedPos, d: int) -> bool {
    forall|k: int| d < k <= a.depth ==> compat(ty(#[trigger] rnode(b, k)), ty(rnode(a, k)))
}
pub open spec fn ok2(a: ResolvedPos, b: ResolvedPos, d: int) -> bool { joins2(a, b, d) && chk(mix2(a, b, d), llen(a, d)) }
pub proof fn lemma_ok2(a: ResolvedPos, b: ResolvedPos, d: int)
    requires wf_rp(a), wf_rp(b), 0 <= d <= a.depth, a.depth == b.depth
    ensures
        d == a.depth ==> ok2(a, b, d),
        d < a.depth ==> (ok2(a, b, d) <==> compat(ty(rnode(b, d + 1)), ty(rnode(a, d + 1))) && ok2(a, b, d + 1) && vtoks(ty(rnode(a, d + 1)), mix2(a, b, d + 1))),
{
    hide(chk); hide(vtoks); hide(compat); hide(lt); hide(rt);
    let e = Seq::<Tok>::empty();
    lemma_empty_bal();
    assert(climbs(e, a.depth - d, b.depth - d)) by { assert forall|p: int| 0 <= p <= e.len() implies #[trigger] lev(e, p) >= -(a.depth - d) by { assert(lev(e, p) >= 0); } }
    lemma_mix_lev(a, e, b, d);
    if d < a.depth {
        assert(climbs(e, a.depth - d - 1, b.depth - d - 1)) by { assert forall|p: int| 0 <= p <= e.len() implies #[trigger] lev(e, p) >= -(a.depth - d - 1) by { assert(lev(e, p) >= 0); } }
        lemma_mix_lev(a, e, b, d + 1);
        lemma_mix_chk(a, e, b, d);
        if joins2(a, b, d + 1) && compat(ty(rnode(b, d + 1)), ty(rnode(a, d + 1))) {
            assert forall|k: int| d < k <= a.depth implies compat(ty(#[trigger] rnode(b, k)), ty(rnode(a, k))) by { }
        }
        if joins2(a, b, d) { let x = rnode(b, d + 1); }
    } else {
        lemma_chk_top(mix2(a, b, d), llen(a, d));
    }
}
// ------------------------------------------------------------------ two sides and a slice
pub open spec fn joins3(a: ResolvedPos, s: ResolvedPos, e: ResolvedPos, b: ResolvedPos, d: int) -> bool { joins2(a, s, d) && joins2(e, b, d) }
pub open spec fn ok3(a: ResolvedPos, s: ResolvedPos, e: ResolvedPos, b: ResolvedPos, d: int) -> bool {
    let t = mix3(a, mid(s, e, d), b, d);
    joins3(a, s, e, b, d) && chk(t, llen(a, d)) && chk(t, llen(a, d) + mid(s, e, d).len())
}
pub proof fn lemma_joins2_down(a: ResolvedPos, b: ResolvedPos, d: int)
    requires 0 <= d < a.depth
    ensures joins2(a, b, d) <==> compat(ty(rnode(b, d + 1)), ty(rnode(a, d + 1))) && joins2(a, b, d + 1)
{
    hide(compat);
    if joins2(a, b, d) { let x = rnode(b, d + 1); assert(compat(ty(rnode(b, d + 1)), ty(rnode(a, d + 1)))); }
    if joins2(a, b, d + 1) && compat(ty(rnode(b, d + 1)), ty(rnode(a, d + 1))) {
        assert forall|k: int| d < k <= a.depth implies compat(ty(#[trigger] rnode(b, k)), ty(rnode(a, k))) by { }
    }
}
pub proof fn lemma_mix2_bal(a: ResolvedPos, b: ResolvedPos, d: int)
    requires wf_rp(a), wf_rp(b), 0 <= d <= a.depth, a.depth == b.depth
    ensures bal(mix2(a, b, d)), lev(mix2(a, b, d), llen(a, d)) == a.depth - d
{
    hide(lt); hide(rt);
    let e = Seq::<Tok>::empty();
    lemma_empty_bal();
    assert(climbs(e, a.depth - d, b.depth - d)) by { assert forall|p: int| 0 <= p <= e.len() implies #[trigger] lev(e, p) >= -(a.depth - d) by { assert(lev(e, p) >= 0); } }
    lemma_mix_lev(a, e, b, d);
}
pub proof fn lemma_ok3_left(a: ResolvedPos, s: ResolvedPos, q: Seq<Tok>, d: int)
    requires wf_rp(a), wf_rp(s), 0 <= d < a.depth, a.depth == s.depth
    ensures
        chk(lt(a, d) + (rt(s, d + 1) + seq![Tok::Close]) + q, llen(a, d)) <==> vtoks(ty(rnode(a, d + 1)), mix2(a, s, d + 1)) && chk(mix2(a, s, d + 1), llen(a, d + 1)),
{
    hide(chk); hide(vtoks); hide(lt); hide(rt); hide(flat);
    lemma_mix2_bal(a, s, d + 1);
    lemma_lt(a, d);
    let l = flat(rkids(a, d).take(ridx(a, d)));
    lemma_bal_flat(rkids(a, d).take(ridx(a, d)));
    let h = head(rnode(a, d + 1));
    let x = mix2(a, s, d + 1);
    lemma_chk(l, h, x, q, llen(a, d + 1));
    assert(lt(a, d) + (rt(s, d + 1) + seq![Tok::Close]) + q =~= l + seq![Tok::Open(h)] + x + seq![Tok::Close] + q);
}
pub proof fn lemma_ok3_right(e: ResolvedPos, b: ResolvedPos, p: Seq<Tok>, d: int)
    requires wf_rp(e), wf_rp(b), 0 <= d < b.depth, e.depth == b.depth, bal(p)
    ensures
        chk(p + (seq![Tok::Open(head(rnode(e, d + 1)))] + lt(e, d + 1)) + rt(b, d), p.len() + 1 + llen(e, d + 1))
            <==> vtoks(ty(rnode(e, d + 1)), mix2(e, b, d + 1)) && chk(mix2(e, b, d + 1), llen(e, d + 1)),
{
    hide(chk); hide(vtoks); hide(lt); hide(rt); hide(flat);
    lemma_mix2_bal(e, b, d + 1);
    lemma_lt(b, d);
    let r = flat(rkids(b, d).skip(ridx(b, d) + 1));
    let h = head(rnode(e, d + 1));
    let x = mix2(e, b, d + 1);
    lemma_chk(p, h, x, r, llen(e, d + 1));
    assert(p + (seq![Tok::Open(h)] + lt(e, d + 1)) + rt(b, d) =~= p + seq![Tok::Open(h)] + x + seq![Tok::Close] + r);
}
pub proof fn lemma_side_bal(a: ResolvedPos, s: ResolvedPos, g: Seq<Tok>, d: int)
    requires wf_rp(a), wf_rp(s), 0 <= d <= a.depth, a.depth == s.depth, bal(g)
    ensures bal(lt(a, d) + rt_open(s, d) + g)
{
    hide(lt); hide(rt);
    let k = a.depth - d;
    lemma_rp_lev(a, d);
    if k > 0 {
        lemma_rp_lev(s, d + 1);
        let r = rt(s, d + 1);
        let z = seq![Tok::Close];
        assert(climbs(r, k, 1)) by { assert forall|p: int| 0 <= p <= r.len() implies #[trigger] lev(r, p) >= -k by { assert(lev(r, p) >= -(k - 1)); } }
        lemma_dz_one(Tok::Close);
        lemma_lev_ends(z);
        assert(climbs(z, 1, 0)) by { assert forall|p: int| 0 <= p <= z.len() implies #[trigger] lev(z, p) >= -1 by { if p == 0 { } else { assert(p == z.len()); } } }
        lemma_climbs_concat(r, z, k, 1, 0);
    } else {
        let e = Seq::<Tok>::empty();
        lemma_empty_bal();
        assert(climbs(e, 0, 0)) by { assert forall|p: int| 0 <= p <= e.len() implies #[trigger] lev(e, p) >= 0 by { } }
    }
    lemma_climbs_concat(lt(a, d), rt_open(s, d), 0, k, 0);
    assert(climbs(g, 0, 0)) by { assert forall|p: int| 0 <= p <= g.len() implies #[trigger] lev(g, p) >= 0 by { } }
    lemma_climbs_concat(lt(a, d) + rt_open(s, d), g, 0, 0, 0);
    let t = lt(a, d) + rt_open(s, d) + g;
    assert forall|p: int| 0 <= p <= t.len() implies #[trigger] lev(t, p) >= 0 by { assert(lev(t, p) >= -0); }
}
pub proof fn lemma_ok3(a: ResolvedPos, s: ResolvedPos, e: ResolvedPos, b: ResolvedPos, d: int)
    requires
        wf_rp(a), wf_rp(s), wf_rp(e), wf_rp(b), 0 <= d <= a.depth, a.depth == s.depth, e.depth == b.depth, d <= b.depth,
        same_at(s, e, d), s.pos <= e.pos, rtoff(s) == 0, rtoff(e) == 0,
    ensures
        ridx(s, d) == ridx(e, d) && a.depth > d && b.depth > d ==> {
            &&& rnode(s, d + 1) == rnode(e, d + 1) && same_at(s, e, d + 1) && mid(s, e, d) == mid(s, e, d + 1)
            &&& ok3(a, s, e, b, d) <==> compat(ty(rnode(s, d + 1)), ty(rnode(a, d + 1))) && compat(ty(rnode(b, d + 1)), ty(rnode(e, d + 1)))
                && ok3(a, s, e, b, d + 1) && vtoks(ty(rnode(a, d + 1)), mix3(a, mid(s, e, d + 1), b, d + 1))
        },
        !(ridx(s, d) == ridx(e, d) && a.depth > d && b.depth > d) ==> (ok3(a, s, e, b, d) <==>
            (a.depth > d ==> compat(ty(rnode(s, d + 1)), ty(rnode(a, d + 1))) && ok2(a, s, d + 1) && vtoks(ty(rnode(a, d + 1)), mix2(a, s, d + 1)))
            && (b.depth > d ==> compat(ty(rnode(b, d + 1)), ty(rnode(e, d + 1))) && ok2(e, b, d + 1) && vtoks(ty(rnode(e, d + 1)), mix2(e, b, d + 1)))),
{
    hide(chk); hide(vtoks); hide(compat); hide(flat); hide(lt); hide(rt); hide(mid); hide(path_ok); hide(joins2); hide(lev); hide(climbs);
    lemma_mid_lev(s, e, d);
    let m = mid(s, e, d);
    let t = mix3(a, m, b, d);
    lemma_mix_lev(a, m, b, d);
    if a.depth > d { lemma_joins2_down(a, s, d); }
    if b.depth > d { lemma_joins2_down(e, b, d); }
    if ridx(s, d) == ridx(e, d) && a.depth > d && b.depth > d {
        lemma_mid_down(s, e, d);
        lemma_mid_lev(s, e, d + 1);
        lemma_mix_chk(a, m, b, d);
    } else {
        lemma_mid_split(s, e, d);
        let g = flat(rkids(s, d).subrange(first_in(s, d), ridx(e, d)));
        lemma_bal_flat(rkids(s, d).subrange(first_in(s, d), ridx(e, d)));
        if a.depth > d {
            let q = lt_open(e, d) + rt(b, d);
            let n = rnode(a, d + 1);
            lemma_ok3_left(a, s, g + q, d);
            assert(t =~= lt(a, d) + (rt(s, d + 1) + seq![Tok::Close]) + (g + q));
        } else { lemma_chk_top(t, llen(a, d)); reveal(joins2); }
        if b.depth > d {
            lemma_side_bal(a, s, g, d);
            lemma_ok3_right(e, b, lt(a, d) + rt_open(s, d) + g, d);
            assert(t =~= (lt(a, d) + rt_open(s, d) + g) + (seq![Tok::Open(head(rnode(e, d + 1)))] + lt(e, d + 1)) + rt(b, d));
            assert(m.len() == rt_open(s, d).len() + g.len() + 1 + llen(e, d + 1)) by { assert(m.len() == (rt_open(s, d) + g + lt_open(e, d)).len()); }
        } else { lemma_chk_top(t, llen(a, d) + m.len()); reveal(joins2); }
    }
}
// ------------------------------------------------------------------ replacing
/// the heads of the nodes open at the end of the slice's start and at the start of its end
pub open spec fn heads_l(s: Slice) -> Seq<Head> { run(Seq::empty(), flat(s.content.inner@).take(s.open_start as int)) }
pub open spec fn heads_r(s: Slice) -> Seq<Head> { run(Seq::empty(), flat(s.content.inner@).take(flat(s.content.inner@).len() - s.open_end)) }
/// the nodes that are joined have compatible types: `f` and `g` are open at the two positions, `l` and `r` at the sides of the slice
pub open spec fn joinok(f: Seq<Head>, g: Seq<Head>, l: Seq<Head>, r: Seq<Head>) -> bool {
    let x = f.len() - l.len();
    &&& forall|k: int| 0 <= k < x ==> compat(head_ty(#[trigger] g[k]), head_ty(f[k]))
    &&& forall|k: int| 0 <= k < l.len() ==> compat(head_ty(#[trigger] l[k]), head_ty(f[x + k]))
    &&& forall|k: int| 0 <= k < r.len() ==> compat(head_ty(g[x + k]), head_ty(#[trigger] r[k]))
}
pub open spec fn joins_rp(a: ResolvedPos, b: ResolvedPos, s: Slice) -> bool { joinok(pheads(a, 0, a.depth as int), pheads(b, 0, b.depth as int), heads_l(s), heads_r(s)) }
/// the tokens are valid content, and so is that of all nodes around the two positions
pub open spec fn keeps(y: MarkdownNodeType, t: Seq<Tok>, p: int, q: int) -> bool { vtoks(y, t) && chk(t, p) && chk(t, q) }
pub open spec fn mixs(a: ResolvedPos, b: ResolvedPos, s: Slice, d: int) -> Seq<Tok> { mix3(a, inserts(s), b, d) }
pub open spec fn keep_at(a: ResolvedPos, b: ResolvedPos, s: Slice, d: int) -> bool { keeps(ty(rnode(a, d)), mixs(a, b, s, d), llen(a, d), llen(a, d) + inserts(s).len()) }
pub open spec fn was_ok(a: ResolvedPos, d: int) -> bool { vtoks(ty(rnode(a, d)), rflat(a, d)) && chk(rflat(a, d), llen(a, d)) }
pub open spec fn slice_fits(a: ResolvedPos, b: ResolvedPos, s: Slice) -> bool {
    wf_frag(s.content) && open_ok(s) && s.open_start <= a.depth && s.open_end <= b.depth && a.depth - s.open_start == b.depth - s.open_end
}
pub proof fn lemma_opens_lev(t: Seq<Tok>, k: int)
    requires 0 <= k <= t.len(), forall|i: int| 0 <= i < k ==> (#[trigger] t[i]) is Open
    ensures lev(t, k) == k
    decreases k
{ lemma_lev_ends(t); if k > 0 { lemma_opens_lev(t, k - 1); lemma_lev_step(t, k - 1); } }
pub proof fn lemma_closes_lev(t: Seq<Tok>, k: int)
    requires 0 <= k <= t.len(), forall|i: int| t.len() - k <= i < t.len() ==> (#[trigger] t[i]) is Close
    ensures lev(t, t.len() - k) == dz(t) + k
    decreases k
{ lemma_lev_ends(t); if k > 0 { lemma_closes_lev(t, k - 1); lemma_lev_step(t, t.len() - k); } }
pub proof fn lemma_ins_climbs(s: Slice, x: int)
    requires wf_frag(s.content), open_ok(s), x >= 0
    ensures climbs(inserts(s), s.open_start + x, s.open_end + x)
{
    let t = flat(s.content.inner@);
    let os = s.open_start as int;
    let oe = s.open_end as int;
    let m = inserts(s);
    lemma_lspine(s.content.inner@, os); lemma_rspine(s.content.inner@, oe); lemma_spines(s.content.inner@, os, oe);
    lemma_opens_lev(t, os); lemma_closes_lev(t, oe);
    lemma_bal_flat(s.content.inner@);
    let u = t.take(os);
    assert(t.take(t.len() - oe) =~= u + m);
    lemma_lev_concat(u, m);
    assert forall|p: int| 0 <= p <= m.len() implies #[trigger] lev(m, p) >= -(os + x) by {
        assert(lev(u + m, u.len() + p) == dz(u) + lev(m, p));
        assert((u + m).take(u.len() + p) =~= t.take(os + p));
        assert(lev(t, os + p) >= 0);
    }
}
pub proof fn lemma_was_down(a: ResolvedPos, d: int)
    requires wf_rp(a), 0 <= d < a.depth, was_ok(a, d)
    ensures was_ok(a, d + 1)
{
    hide(chk); hide(vtoks); hide(lt); hide(rt);
    lemma_rp_lev(a, d); lemma_rp_lev(a, d + 1);
    let e = Seq::<Tok>::empty();
    lemma_empty_bal();
    assert(climbs(e, a.depth - d - 1, a.depth - d - 1)) by { assert forall|p: int| 0 <= p <= e.len() implies #[trigger] lev(e, p) >= -(a.depth - d - 1) by { assert(lev(e, p) >= 0); } }
    lemma_mix_chk(a, e, a, d);
    assert(mix3(a, e, a, d) =~= rflat(a, d));
    assert(mix3(a, e, a, d + 1) =~= rflat(a, d + 1));
}
/// when both positions are in the same child
pub proof fn lemma_keep_down(a: ResolvedPos, b: ResolvedPos, s: Slice, d: int)
    requires wf_rp(a), wf_rp(b), slice_fits(a, b, s), same_at(a, b, d), ridx(a, d) == ridx(b, d), 0 <= d < a.depth - s.open_start
    ensures
        keep_at(a, b, s, d) ==> keep_at(a, b, s, d + 1),
        was_ok(a, d) ==> was_ok(a, d + 1),
        was_ok(a, d) && keep_at(a, b, s, d + 1) ==> keep_at(a, b, s, d),
{
    hide(chk); hide(vtoks); hide(lt); hide(rt); hide(flat); hide(inserts); hide(open_ok); hide(climbs);
    let m = inserts(s);
    lemma_ins_climbs(s, a.depth - d - 1 - s.open_start);
    lemma_mix_chk(a, m, b, d);
    if was_ok(a, d) {
        lemma_was_down(a, d);
        lemma_mix_down(a, m, b, d);
        lemma_rp_lev(a, d + 1);
        lemma_lt(a, d);
        let l = flat(rkids(a, d).take(ridx(a, d)));
        let h = head(rnode(a, d + 1));
        let r = flat(rkids(a, d).skip(ridx(a, d) + 1));
        lemma_rp_lev(a, d);
        assert(rflat(a, d) =~= l + seq![Tok::Open(h)] + rflat(a, d + 1) + seq![Tok::Close] + r);
        lemma_vtoks_inner(ty(rnode(a, d)), l, h, rflat(a, d + 1), mixs(a, b, s, d + 1), r);
    }
}
/// when nothing is open at either position
pub proof fn lemma_keep_flat(a: ResolvedPos, b: ResolvedPos, s: Slice, d: int)
    requires wf_rp(a), wf_rp(b), slice_fits(a, b, s), same_at(a, b, d), d == a.depth, d == b.depth, s.open_start == 0
    ensures keep_at(a, b, s, d) <==> vtoks(ty(rnode(a, d)), mixs(a, b, s, d))
{
    hide(vtoks); hide(lt); hide(rt); hide(inserts);
    lemma_ins_climbs(s, 0);
    lemma_mix_lev(a, inserts(s), b, d);
    lemma_chk_top(mixs(a, b, s, d), llen(a, d));
    lemma_chk_top(mixs(a, b, s, d), llen(a, d) + inserts(s).len());
}
/// when nothing is put in
pub proof fn lemma_keep_two(a: ResolvedPos, b: ResolvedPos, s: Slice, d: int)
    requires wf_rp(a), wf_rp(b), slice_fits(a, b, s), 0 <= d <= a.depth, d <= b.depth, s.content.size == 0
    ensures
        a.depth == b.depth, mixs(a, b, s, d) == mix2(a, b, d), inserts(s).len() == 0,
        joins_rp(a, b, s) ==> joins2(a, b, d),
        joins_rp(a, b, s) && keep_at(a, b, s, d) ==> ok2(a, b, d) && vtoks(ty(rnode(a, d)), mix2(a, b, d)),
        ok2(a, b, d) && vtoks(ty(rnode(a, d)), mix2(a, b, d)) ==> keep_at(a, b, s, d),
{
    hide(chk); hide(vtoks); hide(lt); hide(rt); hide(compat); hide(path_ok); hide(flat);
    lemma_inserts(s);
    assert(mixs(a, b, s, d) =~= mix2(a, b, d));
    assert(heads_l(s).len() == 0) by { lemma_lspine(s.content.inner@, 0); }
    if joins_rp(a, b, s) {
        let f = pheads(a, 0, a.depth as int);
        let g = pheads(b, 0, b.depth as int);
        assert forall|k: int| d < k <= a.depth implies compat(ty(#[trigger] rnode(b, k)), ty(rnode(a, k))) by {
            assert(g[k - 1] == head(rnode(b, k)));
            assert(f[k - 1] == head(rnode(a, k)));
        }
    }
}
/// one more node around the slice's content
pub proof fn lemma_wrap_step(a: ResolvedPos, i: int, x: int, n: MarkdownNode, c: Fragment, t: Seq<Tok>)
    requires
        0 < i <= x, flat(kids(n)) == opens(pheads(a, i, x)) + t + closes((x - i) as nat), head(n) == head(rnode(a, i)),
        cont(n) is Some, c.inner@ == seq![n], cont(rnode(a, i - 1)) is Some,
    ensures ({
        let m = with_content(rnode(a, i - 1), c);
        flat(kids(m)) == opens(pheads(a, i - 1, x)) + t + closes((x - i + 1) as nat) && head(m) == head(rnode(a, i - 1))
    })
{
    let m = with_content(rnode(a, i - 1), c);
    lemma_with_content(rnode(a, i - 1), c);
    lemma_flat_one(n); lemma_toks_cont(n);
    assert(pheads(a, i - 1, x) =~= seq![head(rnode(a, i))] + pheads(a, i, x));
    assert(opens(pheads(a, i - 1, x)) =~= seq![Tok::Open(head(n))] + opens(pheads(a, i, x)));
    assert(closes((x - i + 1) as nat) =~= closes((x - i) as nat) + seq![Tok::Close]);
    assert(flat(kids(m)) =~= opens(pheads(a, i - 1, x)) + t + closes((x - i + 1) as nat));
}
/// the nodes open at a position in the document made for the slice
pub proof fn lemma_wrap_heads(n: MarkdownNode, a: ResolvedPos, x: int, s: Slice, p: ResolvedPos, q: int)
    requires
        flat(kids(n)) == opens(pheads(a, 0, x)) + flat(s.content.inner@) + closes(x as nat), x >= 0, wf_rp(p), rnode(p, 0) == n,
        p.pos == x + q, 0 <= q <= flat(s.content.inner@).len(),
    ensures pheads(p, 0, p.depth as int) == pheads(a, 0, x) + run(Seq::empty(), flat(s.content.inner@).take(q))
{
    let f = pheads(a, 0, x);
    let t = flat(s.content.inner@);
    lemma_rp_depth(p);
    assert(flat(kids(n)).take(x + q) =~= opens(f) + t.take(q));
    lemma_run_opens0(f);
    lemma_run_concat(Seq::empty(), opens(f), t.take(q));
    lemma_run_flat_pre(f, s.content.inner@, q);
}
pub proof fn lemma_keep_three(a: ResolvedPos, b: ResolvedPos, s: Slice, n: MarkdownNode, p: ResolvedPos, q: ResolvedPos, d: int)
    requires
        wf_rp(a), wf_rp(b), slice_fits(a, b, s), 0 <= d <= a.depth - s.open_start,
        wf_rp(p), wf_rp(q), rnode(p, 0) == n, rnode(q, 0) == n,
        flat(kids(n)) == opens(pheads(a, 0, a.depth - s.open_start)) + flat(s.content.inner@) + closes((a.depth - s.open_start) as nat),
        p.pos == s.open_start + (a.depth - s.open_start), q.pos == nkids(n) - s.open_end - (a.depth - s.open_start),
        p.depth == a.depth, q.depth == b.depth, mid(p, q, d) == inserts(s),
    ensures
        joins_rp(a, b, s) && keep_at(a, b, s, d) ==> ok3(a, p, q, b, d) && vtoks(ty(rnode(a, d)), mix3(a, mid(p, q, d), b, d)),
        ok3(a, p, q, b, d) && vtoks(ty(rnode(a, d)), mix3(a, mid(p, q, d), b, d)) ==> keep_at(a, b, s, d),
{
    hide(chk); hide(vtoks); hide(lt); hide(rt); hide(compat); hide(path_ok); hide(flat); hide(mid); hide(run);
    let x = a.depth - s.open_start;
    let t = flat(s.content.inner@);
    lemma_spines(s.content.inner@, s.open_start as int, s.open_end as int);
    lemma_wrap_heads(n, a, x, s, p, s.open_start as int);
    lemma_wrap_heads(n, a, x, s, q, t.len() - s.open_end);
    let f = pheads(a, 0, a.depth as int);
    let g = pheads(b, 0, b.depth as int);
    let l = pheads(p, 0, p.depth as int);
    let r = pheads(q, 0, q.depth as int);
    let w = pheads(a, 0, x);
    if joins_rp(a, b, s) {
        assert(l.len() == x + heads_l(s).len());
        assert(r.len() == x + heads_r(s).len());
        assert forall|k: int| d < k <= a.depth implies compat(ty(#[trigger] rnode(p, k)), ty(rnode(a, k))) by {
            assert(l[k - 1] == head(rnode(p, k)));
            assert(f[k - 1] == head(rnode(a, k)));
            if k <= x { assert((w + heads_l(s))[k - 1] == w[k - 1]); assert(w[k - 1] == head(rnode(a, k))); lemma_compat_self(ty(rnode(a, k))); }
            else { assert((w + heads_l(s))[k - 1] == heads_l(s)[k - 1 - x]); }
        }
        assert forall|k: int| d < k <= q.depth implies compat(ty(#[trigger] rnode(b, k)), ty(rnode(q, k))) by {
            assert(r[k - 1] == head(rnode(q, k)));
            assert(g[k - 1] == head(rnode(b, k)));
            if k <= x { assert((w + heads_r(s))[k - 1] == w[k - 1]); assert(w[k - 1] == head(rnode(a, k))); assert(f[k - 1] == head(rnode(a, k))); }
            else { assert((w + heads_r(s))[k - 1] == heads_r(s)[k - 1 - x]); }
        }
    }
}
pub proof fn lemma_compat_self(y: MarkdownNodeType) ensures compat(y, y) { }
pub proof fn lemma_wrap_none(a: ResolvedPos, x: int, t: Seq<Tok>)
    ensures opens(pheads(a, x, x)) + t + closes(0) == t
{ assert(opens(pheads(a, x, x)) + t + closes(0) =~= t); }
/// the positions around the slice's content are between characters
pub proof fn lemma_prep_bnd(n: MarkdownNode, k: int, os: int, oe: int)
    requires lspine(kids(n), os + k), rspine(kids(n), oe + k), k >= 0, os >= 0, oe >= 0
    ensures bnd(flat(kids(n)), os + k), bnd(flat(kids(n)), nkids(n) - oe - k), os + k + oe + k <= nkids(n)
{
    lemma_lspine(kids(n), os + k); lemma_rspine(kids(n), oe + k); lemma_spines(kids(n), os + k, oe + k);
    let p = nkids(n) - oe - k;
    if p < nkids(n) { assert(flat(kids(n))[p] is Close); }
}
// ------------------------------------------------------------------ the same on tokens
pub open spec fn put(t: Seq<Tok>, from: int, to: int, ins: Seq<Tok>) -> Seq<Tok> { t.take(from) + ins + t.skip(to) }
/// the nodes that the slice joins with those open at the two positions have compatible types
pub open spec fn joins(t: Seq<Tok>, from: int, to: int, s: Slice) -> bool { joinok(run(Seq::empty(), t.take(from)), run(Seq::empty(), t.take(to)), heads_l(s), heads_r(s)) }
/// every node whose content changes has valid content afterwards, in a node of type `y`
pub open spec fn stays_valid(y: MarkdownNodeType, t: Seq<Tok>, from: int, to: int, s: Slice) -> bool { keeps(y, put(t, from, to, inserts(s)), from, from + inserts(s).len()) }
/// everything that a replacement needs: the slice fits, the joined nodes have compatible types, and all changed content is valid
pub open spec fn may_replace(y: MarkdownNodeType, t: Seq<Tok>, from: int, to: int, s: Slice) -> bool {
    fits(t, from, to, s) && joins(t, from, to, s) && stays_valid(y, t, from, to, s)
}
/// the content is valid, and so is that of every node around the position
pub open spec fn valid_around(y: MarkdownNodeType, t: Seq<Tok>, from: int) -> bool { vtoks(y, t) && chk(t, from) }
pub proof fn lemma_keep_root(a: ResolvedPos, b: ResolvedPos, s: Slice)
    requires wf_rp(a), wf_rp(b), same_at(a, b, 0)
    ensures ({
        let t = rflat(a, 0);
        let y = ty(rnode(a, 0));
        &&& 0 <= a.pos <= t.len()
        &&& keep_at(a, b, s, 0) <==> stays_valid(y, t, a.pos as int, b.pos as int, s)
        &&& was_ok(a, 0) <==> valid_around(y, t, a.pos as int)
        &&& joins_rp(a, b, s) <==> joins(t, a.pos as int, b.pos as int, s)
    })
{
    hide(vtoks); hide(chk); hide(joinok); hide(run); hide(inserts);
    lemma_rp_depth(a); lemma_rp_depth(b); lemma_rp_in(a, 0); lemma_rp_in(b, 0);
    assert(mixs(a, b, s, 0) == put(rflat(a, 0), a.pos as int, b.pos as int, inserts(s)));
}
// ------------------------------------------------------------------ all nodes
/// every node of the slice that is not open is valid
pub open spec fn closed_valid(s: Slice) -> bool {
    let t = flat(s.content.inner@);
    forall|a: int, b: int| #[trigger] content_at(t, a, b) && s.open_start < a && b < t.len() - s.open_end ==> vnode_at(t, a, b)
}
/// a node in a part of the tokens, in the whole
pub proof fn lemma_content_shift(t: Seq<Tok>, u: Seq<Tok>, a: int, b: int, o: int, q: int)
    requires content_at(t, a, b), q == a - 1 + o, 0 <= q, b + o < u.len(), forall|i: int| a - 1 <= i <= b ==> #[trigger] t[i] == u[i + o]
    ensures content_at(u, a + o, b + o), vnode_at(u, a + o, b + o) ==> vnode_at(t, a, b)
{
    hide(vtoks); hide(lev);
    assert(t[a - 1] == u[a - 1 + o]);
    assert(t[b] == u[b + o]);
    lemma_lev_shift(t, u, a, b, o);
    assert forall|k: int| a + o <= k <= b + o implies #[trigger] lev(u, k) >= lev(u, a + o) by { assert(lev(t, k - o) >= lev(t, a)); }
    assert(t.subrange(a, b) =~= u.subrange(a + o, b + o)) by {
        assert forall|k: int| 0 <= k < b - a implies t.subrange(a, b)[k] == u.subrange(a + o, b + o)[k] by { assert(t[a + k] == u[a + k + o]); }
    }
}
pub proof fn lemma_lev_shift(t: Seq<Tok>, u: Seq<Tok>, a: int, b: int, o: int)
    requires 0 <= a <= b <= t.len(), 0 <= a + o, b + o <= u.len(), forall|i: int| a <= i < b ==> #[trigger] t[i] == u[i + o]
    ensures forall|k: int| a <= k <= b ==> #[trigger] lev(t, k) - lev(t, a) == lev(u, k + o) - lev(u, a + o)
    decreases b - a
{
    if a < b {
        lemma_lev_shift(t, u, a, b - 1, o);
        lemma_lev_step(t, b - 1); lemma_lev_step(u, b - 1 + o);
        assert(t[b - 1] == u[b - 1 + o]);
        assert(lev(t, b - 1) - lev(t, a) == lev(u, b - 1 + o) - lev(u, a + o));
    }
}
/// a document of valid nodes stays one
pub proof fn lemma_stays_valid(y: MarkdownNodeType, t: Seq<Tok>, from: int, to: int, s: Slice)
    requires
        0 <= from <= to <= t.len(), tvalid(t), wf_frag(s.content), open_ok(s), closed_valid(s), stays_valid(y, t, from, to, s),
    ensures vtoks(y, put(t, from, to, inserts(s))), tvalid(put(t, from, to, inserts(s)))
{
    hide(vtoks); hide(lev); hide(content_at); hide(vnode_at);
    let f = flat(s.content.inner@);
    let m = inserts(s);
    let u = put(t, from, to, m);
    let p = from;
    let q = from + m.len();
    lemma_spines(s.content.inner@, s.open_start as int, s.open_end as int);
    assert forall|a: int, b: int| #[trigger] content_at(u, a, b) implies vnode_at(u, a, b) by {
        lemma_content_bounds(u, a, b);
        if a <= p <= b || a <= q <= b { }
        else if b < p {
            lemma_content_shift(u, t, a, b, 0, a - 1);
        } else if a > q {
            lemma_content_shift(u, t, a, b, to - q, a - 1 + to - q);
        } else {
            assert forall|i: int| a - 1 <= i <= b implies #[trigger] u[i] == f[i + (s.open_start - p)] by { assert(u[i] == m[i - p]); }
            lemma_content_shift(u, f, a, b, s.open_start - p, a - 1 + s.open_start - p);
            assert(content_at(f, a + (s.open_start - p), b + (s.open_start - p)));
        }
    }
}
pub proof fn lemma_content_bounds(t: Seq<Tok>, a: int, b: int)
    requires content_at(t, a, b)
    ensures 1 <= a <= b < t.len()
{ }
/// a replacement keeps a valid document valid
pub proof fn lemma_replace_valid(m: MarkdownNode, from: int, to: int, s: Slice, n: MarkdownNode)
    requires
        wf_node(m), valid_node(m), wf_frag(s.content), open_ok(s), closed_valid(s), 0 <= from <= to <= flat(kids(m)).len(),
        stays_valid(ty(m), flat(kids(m)), from, to, s), spliced(m, from, to, inserts(s), n),
    ensures valid_node(n)
{
    lemma_valid(m); lemma_valid(n);
    lemma_stays_valid(ty(m), flat(kids(m)), from, to, s);
    assert(flat(kids(n)) == put(flat(kids(m)), from, to, inserts(s)));
}
