// ------------------------------------------------------------------ open sides of a slice
/// there are `k` nested nodes at the start
pub open spec fn lspine(s: Seq<MarkdownNode>, k: int) -> bool decreases k { k <= 0 || (s.len() > 0 && cont(s[0]) is Some && lspine(kids(s[0]), k - 1)) }
/// there are `k` nested nodes at the end
pub open spec fn rspine(s: Seq<MarkdownNode>, k: int) -> bool decreases k { k <= 0 || (s.len() > 0 && cont(s.last()) is Some && rspine(kids(s.last()), k - 1)) }
/// the `k` outermost nodes are nested, each the only child
pub open spec fn single(s: Seq<MarkdownNode>, k: int) -> bool decreases k { k <= 0 || (s.len() == 1 && cont(s[0]) is Some && single(kids(s[0]), k - 1)) }
pub open spec fn open_ok(s: Slice) -> bool { lspine(s.content.inner@, s.open_start as int) && rspine(s.content.inner@, s.open_end as int) }
/// what a slice puts in: its tokens without those of the open sides
pub open spec fn inserts(s: Slice) -> Seq<Tok> { flat(s.content.inner@).subrange(s.open_start as int, flat(s.content.inner@).len() - s.open_end) }

pub proof fn lemma_lspine(s: Seq<MarkdownNode>, k: int)
    requires lspine(s, k), k >= 0
    ensures
        k <= flat(s).len(), bnd(flat(s), k),
        forall|i: int| 0 <= i < k ==> (#[trigger] flat(s)[i]) is Open,
        depth_at(flat(s), k) == k,
    decreases k
{
    if k == 0 { lemma_bnd_flat0(s); assert(flat(s).take(0) =~= Seq::empty()); } else {
        let n = s[0];
        lemma_lspine(kids(n), k - 1);
        lemma_toks_cont(n);
        lemma_flat_at(s, 0);
        assert(s.take(0) =~= Seq::empty());
        lemma_bnd_down(s, 0, k);
        lemma_run_at(s, 0, k);
        lemma_run_in(n, k);
        assert forall|i: int| 0 <= i < k implies (#[trigger] flat(s)[i]) is Open by {
            assert(flat(s)[i] == toks(n)[i]);
            if i > 0 { assert(toks(n)[i] == flat(kids(n))[i - 1]); }
        }
    }
}
pub proof fn lemma_rspine(s: Seq<MarkdownNode>, k: int)
    requires rspine(s, k), k >= 0
    ensures
        k <= flat(s).len(),
        forall|i: int| flat(s).len() - k <= i < flat(s).len() ==> (#[trigger] flat(s)[i]) is Close,
        depth_at(flat(s), flat(s).len() - k) == k,
    decreases k
{
    if k == 0 { lemma_run_flat(Seq::empty(), s); assert(flat(s).take(flat(s).len() as int) =~= flat(s)); } else {
        let n = s.last();
        let j = s.len() - 1;
        lemma_rspine(kids(n), k - 1);
        lemma_toks_cont(n);
        lemma_flat_at(s, j);
        assert(s.skip(j + 1) =~= Seq::empty());
        let p = flat(s).len() - k;
        let o = flat(s.take(j)).len() as int;
        lemma_run_at(s, j, p);
        lemma_run_in(n, p - o);
        assert forall|i: int| p <= i < flat(s).len() implies (#[trigger] flat(s)[i]) is Close by {
            assert(flat(s)[i] == toks(n)[i - o]);
            if i < flat(s).len() - 1 { assert(toks(n)[i - o] == flat(kids(n))[i - o - 1]); }
        }
    }
}
pub proof fn lemma_spines(s: Seq<MarkdownNode>, a: int, b: int)
    requires lspine(s, a), rspine(s, b), a >= 0, b >= 0
    ensures a + b <= flat(s).len()
{
    lemma_lspine(s, a); lemma_rspine(s, b);
    let i = flat(s).len() - b;
    if a > i { assert(flat(s)[i] is Open); }
}
/// a node with the nodes of `s` as the only content
pub proof fn lemma_spine_wrap(n: MarkdownNode, k: int)
    requires cont(n) is Some, k >= 0
    ensures
        lspine(kids(n), k) ==> lspine(seq![n], k + 1), rspine(kids(n), k) ==> rspine(seq![n], k + 1), single(kids(n), k) ==> single(seq![n], k + 1),
        flat(seq![n]) == seq![Tok::Open(head(n))] + flat(kids(n)) + seq![Tok::Close],
{ lemma_flat_one(n); lemma_toks_cont(n); assert(seq![n][0] == n); assert(seq![n].last() == n); }

// ------------------------------------------------------------------ two positions in one document
/// both positions are in the same node at level `d`
pub open spec fn same_at(a: ResolvedPos, b: ResolvedPos, d: int) -> bool { d <= a.depth && d <= b.depth && rnode(a, d) == rnode(b, d) && rstart(a, d) == rstart(b, d) }
pub open spec fn mid(a: ResolvedPos, b: ResolvedPos, d: int) -> Seq<Tok> { rflat(a, d).subrange(a.pos - rstart(a, d), b.pos - rstart(b, d)) }
pub proof fn lemma_same_down(a: ResolvedPos, b: ResolvedPos, d: int)
    requires wf_rp(a), wf_rp(b), 0 <= d, same_at(a, b, d), ridx(a, d) == ridx(b, d), d < a.depth, d < b.depth
    ensures same_at(a, b, d + 1), rnode(a, d + 1) == rkids(a, d)[ridx(a, d)]
{ lemma_rp_level(a, d); lemma_rp_level(b, d); }
pub proof fn lemma_single(a: ResolvedPos, b: ResolvedPos, d: int, k: int)
    requires wf_rp(a), wf_rp(b), 0 <= d <= k, k <= a.depth, k <= b.depth, same_at(a, b, d), single(rkids(a, d), k - d)
    ensures same_at(a, b, k)
    decreases k - d
{
    if d < k {
        lemma_rp_level(a, d); lemma_rp_level(b, d);
        lemma_same_down(a, b, d);
        lemma_single(a, b, d + 1, k);
    }
}
pub proof fn lemma_single_le(s: Seq<MarkdownNode>, k: int, j: int)
    requires single(s, k), 0 <= j <= k
    ensures single(s, j)
    decreases k
{ if j > 0 { lemma_single_le(kids(s[0]), k - 1, j - 1); } }
pub proof fn lemma_flat_sub(s: Seq<MarkdownNode>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures flat(s.take(j)) == flat(s.take(i)) + flat(s.subrange(i, j))
{ assert(s.take(j) =~= s.take(i) + s.subrange(i, j)); lemma_flat_concat(s.take(i), s.subrange(i, j)); }
pub proof fn lemma_flat_sub_push(s: Seq<MarkdownNode>, i: int, j: int)
    requires 0 <= i <= j < s.len()
    ensures flat(s.subrange(i, j + 1)) == flat(s.subrange(i, j)) + toks(s[j])
{ assert(s.subrange(i, j + 1) =~= s.subrange(i, j).push(s[j])); lemma_flat_push(s.subrange(i, j), s[j]); }
/// one level down, in the same child
pub proof fn lemma_mid_down(a: ResolvedPos, b: ResolvedPos, d: int)
    requires wf_rp(a), wf_rp(b), 0 <= d < a.depth, d < b.depth, same_at(a, b, d), ridx(a, d) == ridx(b, d), a.pos <= b.pos
    ensures same_at(a, b, d + 1), mid(a, b, d) == mid(a, b, d + 1)
{
    lemma_same_down(a, b, d);
    lemma_rp_level(a, d);
    lemma_rp_in(a, d + 1); lemma_rp_in(b, d + 1);
    let ks = rkids(a, d);
    let i = ridx(a, d);
    lemma_flat_at(ks, i);
    lemma_toks_cont(ks[i]);
    assert(mid(a, b, d) =~= mid(a, b, d + 1));
}
pub open spec fn rt_open(a: ResolvedPos, d: int) -> Seq<Tok> { if a.depth > d { rt(a, d + 1) + seq![Tok::Close] } else { Seq::empty() } }
pub open spec fn lt_open(b: ResolvedPos, d: int) -> Seq<Tok> { if b.depth > d { seq![Tok::Open(head(rnode(b, d + 1)))] + lt(b, d + 1) } else { Seq::empty() } }
pub open spec fn first_in(a: ResolvedPos, d: int) -> int { ridx(a, d) + if a.depth > d { 1int } else { 0 } }
pub proof fn lemma_glue(t: Seq<Tok>, pa: int, pb: int, x: Seq<Tok>, fs: Seq<Tok>, fi: Seq<Tok>, m: Seq<Tok>, y: Seq<Tok>)
    requires 0 <= pa <= t.len(), 0 <= pb <= t.len(), t.skip(pa) == x + fs, fi.len() == pa + x.len(), t.take(pb) == fi + m + y
    ensures t.subrange(pa, pb) == x + m + y
{
    let l = fi.len() as int;
    assert(t.skip(pa) == t.subrange(pa, t.len() as int));
    assert(t.skip(pa).len() == (x + fs).len());
    assert(t.take(pb) == t.subrange(0, pb));
    assert(t.take(pb).len() == (fi + m + y).len());
    assert(t.skip(pa).len() == t.len() - pa);
    assert((x + fs).len() == x.len() + fs.len());
    assert(t.take(pb).len() == pb);
    assert((fi + m + y).len() == (fi + m).len() + y.len());
    assert((fi + m).len() == fi.len() + m.len());
    assert(l <= t.len());
    assert(l <= pb);
    assert(t.subrange(pa, l) =~= x) by {
        assert forall|k: int| 0 <= k < l - pa implies #[trigger] t.subrange(pa, l)[k] == x[k] by { assert(t.skip(pa)[k] == t[pa + k]); }
    }
    assert(t.subrange(l, pb) =~= m + y) by {
        assert forall|k: int| 0 <= k < pb - l implies #[trigger] t.subrange(l, pb)[k] == (m + y)[k] by { assert(t.take(pb)[l + k] == t[l + k]); }
    }
    assert(t.subrange(pa, pb) =~= t.subrange(pa, l) + t.subrange(l, pb));
    assert(x + (m + y) =~= x + m + y);
}
pub proof fn lemma_mid_split(a: ResolvedPos, b: ResolvedPos, d: int)
    requires
        wf_rp(a), wf_rp(b), 0 <= d, same_at(a, b, d), a.pos <= b.pos, rtoff(a) == 0, rtoff(b) == 0,
        !(ridx(a, d) == ridx(b, d) && a.depth > d && b.depth > d),
    ensures
        0 <= first_in(a, d) <= ridx(b, d) <= rkids(a, d).len(),
        mid(a, b, d) == rt_open(a, d) + flat(rkids(a, d).subrange(first_in(a, d), ridx(b, d))) + lt_open(b, d),
{
    let ks = rkids(a, d);
    let t = rflat(a, d);
    let i = ridx(a, d);
    let j = ridx(b, d);
    let si = first_in(a, d);
    let pa = a.pos - rstart(a, d);
    let pb = b.pos - rstart(b, d);
    lemma_rp_level(a, d); lemma_rp_level(b, d);
    lemma_rp_in(a, d); lemma_rp_in(b, d);
    lemma_lt_last(a); lemma_lt_last(b);
    lemma_wf_cont(rnode(a, d));
    if a.depth > d { lemma_lt(a, d); lemma_flat_take(ks, i); lemma_rp_in(a, d + 1); lemma_toks_cont(ks[i]); lemma_flat_split(ks, i + 1); }
    if b.depth > d { lemma_lt(b, d); lemma_flat_take(ks, j); lemma_rp_in(b, d + 1); lemma_toks_cont(ks[j]); lemma_flat_split(ks, j + 1); }
    lemma_flat_split(ks, i); lemma_flat_split(ks, j); lemma_flat_split(ks, si);
    assert(flat(ks.take(si)).len() == pa + rt_open(a, d).len());
    assert(pb == flat(ks.take(j)).len() + lt_open(b, d).len());
    if si > j {
        if j < i {
            if b.depth > d { lemma_flat_mono(ks, j + 1, i); } else { lemma_flat_mono(ks, j, i); }
        }
        assert(false);
    }
    lemma_flat_sub(ks, si, j);
    assert(t.skip(pa) == rt_open(a, d) + flat(ks.skip(si)));
    assert(t.take(pb) == flat(ks.take(j)) + lt_open(b, d));
    lemma_glue(t, pa, pb, rt_open(a, d), flat(ks.skip(si)), flat(ks.take(si)), flat(ks.subrange(si, j)), lt_open(b, d));
}
/// a position after brackets only is not inside of a text
pub proof fn lemma_toff_open(a: ResolvedPos)
    requires wf_rp(a), a.pos == 0 || !(rflat(a, 0)[a.pos - 1] is Ch)
    ensures rtoff(a) == 0
{
    lemma_lt_last(a);
    if rtoff(a) > 0 {
        let d = a.depth as int;
        lemma_rp_in(a, d); lemma_rp_sub(a, d);
        let ks = rkids(a, d);
        let i = ridx(a, d);
        let x = toks(ks[i]);
        lemma_toks_cont(ks[i]);
        lemma_units_ch(text_of(ks[i]).text.content@, marks_of(ks[i]));
        let l = lt(a, d);
        assert(l.last() == x[rtoff(a) - 1]);
        assert(l.last() == rflat(a, d)[a.pos - rstart(a, d) - 1]);
        assert(rflat(a, d)[a.pos - rstart(a, d) - 1] == rflat(a, 0).subrange(rstart(a, d), rend(a, d))[a.pos - rstart(a, d) - 1]);
    }
}
pub proof fn lemma_toff_close(a: ResolvedPos)
    requires wf_rp(a), a.pos < rflat(a, 0).len() ==> !(rflat(a, 0)[a.pos as int] is Ch)
    ensures rtoff(a) == 0
{
    lemma_lt_last(a);
    if rtoff(a) > 0 {
        let d = a.depth as int;
        lemma_rp_in(a, d); lemma_rp_sub(a, d);
        let ks = rkids(a, d);
        let i = ridx(a, d);
        let x = toks(ks[i]);
        lemma_toks_cont(ks[i]);
        lemma_units_ch(text_of(ks[i]).text.content@, marks_of(ks[i]));
        let l = rt(a, d);
        let u = rflat(a, d);
        let q = a.pos - rstart(a, d);
        assert(l.len() > 0);
        assert(u.skip(q)[0] == u[q]);
        assert(toks(ks[i]).skip(rtoff(a))[0] == x[rtoff(a)]);
        assert(l[0] == x[rtoff(a)]);
        assert(l[0] == rflat(a, d)[a.pos - rstart(a, d)]);
        assert(rflat(a, d)[a.pos - rstart(a, d)] == rflat(a, 0).subrange(rstart(a, d), rend(a, d))[a.pos - rstart(a, d)]);
    }
}
pub proof fn lemma_units_ch(s: Seq<char>, m: Seq<MarkdownMark>)
    ensures forall|i: int| 0 <= i < units(s, m).len() ==> (#[trigger] units(s, m)[i]) is Ch
    decreases s.len()
{ if s.len() > 0 { lemma_units_ch(s.drop_last(), m); } }
/// the positions a slice is put between, in the document made for it
pub proof fn lemma_prep(n: MarkdownNode, a: ResolvedPos, b: ResolvedPos, k: int, os: int, oe: int)
    requires
        wf_rp(a), wf_rp(b), rnode(a, 0) == n, rnode(b, 0) == n, k >= 0, os >= 0, oe >= 0,
        single(kids(n), k), lspine(kids(n), os + k), rspine(kids(n), oe + k),
        a.pos == os + k, b.pos == nkids(n) - oe - k,
    ensures
        a.depth == os + k, b.depth == oe + k, rtoff(a) == 0, rtoff(b) == 0, a.pos <= b.pos,
        forall|d: int| 0 <= d <= k ==> #[trigger] same_at(a, b, d),
        forall|d: int| 0 <= d <= k ==> #[trigger] mid(a, b, d) == flat(kids(n)).subrange(os + k, nkids(n) - oe - k),
{
    let t = flat(kids(n));
    lemma_lspine(kids(n), os + k);
    lemma_rspine(kids(n), oe + k);
    lemma_spines(kids(n), os + k, oe + k);
    lemma_rp_depth(a); lemma_rp_depth(b);
    if a.pos > 0 { assert(t[a.pos - 1] is Open); }
    lemma_toff_open(a);
    if b.pos < t.len() { assert(t[b.pos as int] is Close); }
    lemma_toff_close(b);
    assert forall|d: int| 0 <= d <= k implies #[trigger] same_at(a, b, d) by {
        lemma_single_le(kids(n), k, d);
        lemma_single(a, b, 0, d);
    }
    assert forall|d: int| 0 <= d <= k implies #[trigger] mid(a, b, d) == flat(kids(n)).subrange(os + k, nkids(n) - oe - k) by {
        lemma_single_le(kids(n), k, d);
        lemma_single(a, b, 0, d);
        lemma_rp_sub(a, d);
        lemma_rp_in(a, d); lemma_rp_in(b, d);
        assert(mid(a, b, d) =~= t.subrange(os + k, nkids(n) - oe - k));
    }
}
/// the positions that a range of children is given by
pub open spec fn range_at(r: Range, d: int) -> bool {
    match r {
        EitherOrBoth::Right(b) => wf_rp(*b) && d <= b.depth,
        EitherOrBoth::Left(a) => wf_rp(*a) && d <= a.depth,
        EitherOrBoth::Both(a, b) => wf_rp(*a) && wf_rp(*b) && same_at(*a, *b, d) && rtoff(*a) == 0 && rtoff(*b) == 0 && first_in(*a, d) <= ridx(*b, d),
    }
}
/// the tokens of level `d` before the position that are not in a node open there
pub open spec fn lt_flat(b: ResolvedPos, d: int) -> Seq<Tok> { if b.depth == d { lt(b, d) } else { flat(rkids(b, d).take(ridx(b, d))) } }
pub open spec fn rt_flat(a: ResolvedPos, d: int) -> Seq<Tok> { if a.depth == d { rt(a, d) } else { flat(rkids(a, d).skip(ridx(a, d) + 1)) } }
pub open spec fn adds(r: Range, d: int) -> Seq<Tok> {
    match r {
        EitherOrBoth::Right(b) => lt_flat(*b, d),
        EitherOrBoth::Left(a) => rt_flat(*a, d),
        EitherOrBoth::Both(a, b) => flat(rkids(*a, d).subrange(first_in(*a, d), ridx(*b, d))),
    }
}
pub open spec fn range_rp<'a>(r: Range<'a, 'a>) -> ResolvedPos<'a> { match r { EitherOrBoth::Right(b) => *b, EitherOrBoth::Left(a) => *a, EitherOrBoth::Both(a, b) => *b } }
/// what is added before and after the whole children of a range
pub open spec fn range_pre(r: Range, d: int) -> Seq<Tok> {
    match r {
        EitherOrBoth::Left(a) => if a.depth == d && rtoff(*a) > 0 { toks(rkids(*a, d)[ridx(*a, d)]).skip(rtoff(*a)) } else { Seq::empty() },
        _ => Seq::empty(),
    }
}
pub open spec fn range_post(r: Range, d: int) -> Seq<Tok> {
    match r {
        EitherOrBoth::Right(b) => if b.depth == d && rtoff(*b) > 0 { toks(rkids(*b, d)[ridx(*b, d)]).take(rtoff(*b)) } else { Seq::empty() },
        _ => Seq::empty(),
    }
}
pub open spec fn range_lo(r: Range, d: int) -> int {
    match r {
        EitherOrBoth::Right(b) => 0,
        EitherOrBoth::Left(a) => ridx(*a, d) + if a.depth > d || rtoff(*a) > 0 { 1int } else { 0 },
        EitherOrBoth::Both(a, b) => first_in(*a, d),
    }
}
pub open spec fn range_hi(r: Range, d: int) -> int {
    match r {
        EitherOrBoth::Right(b) => ridx(*b, d),
        EitherOrBoth::Left(a) => rkids(*a, d).len() as int,
        EitherOrBoth::Both(a, b) => ridx(*b, d),
    }
}
pub proof fn lemma_range(r: Range, d: int, t0: Seq<MarkdownNode>)
    requires range_at(r, d), 0 <= d
    ensures ({
        let ks = rkids(range_rp(r), d);
        &&& 0 <= range_lo(r, d) <= range_hi(r, d) <= ks.len()
        &&& wf_all(ks)
        &&& adds(r, d) == range_pre(r, d) + flat(ks.subrange(range_lo(r, d), range_hi(r, d))) + range_post(r, d)
        &&& wf_node(rnode(range_rp(r), d))
        &&& ks.len() <= usize::MAX
        &&& cont(rnode(range_rp(r), d)) is Some || ks.len() == 0
    })
{
    let b = range_rp(r);
    let ks = rkids(b, d);
    lemma_rp_level(b, d);
    lemma_wf_cont(rnode(b, d));
    lemma_lt_last(b);
    lemma_empty();
    if let Some(c) = cont(rnode(b, d)) { assert(c.inner.len() <= usize::MAX); assert(ks == c.inner@); } else { assert(ks =~= Seq::empty()); }
    let lo = range_lo(r, d);
    let hi = range_hi(r, d);
    match r {
        EitherOrBoth::Right(b) => { assert(ks.subrange(0, hi) =~= ks.take(hi)); }
        EitherOrBoth::Left(a) => { assert(ks.subrange(lo, hi) =~= ks.skip(lo)); }
        EitherOrBoth::Both(a, b) => { lemma_rp_level(*a, d); }
    }
    assert(adds(r, d) =~= range_pre(r, d) + flat(ks.subrange(lo, hi)) + range_post(r, d));
}
/// the parts of a level, put together again
pub proof fn lemma_two(a: ResolvedPos, b: ResolvedPos, d: int)
    requires wf_rp(a), wf_rp(b), 0 <= d <= a.depth, a.depth == b.depth
    ensures
        d == a.depth ==> lt_flat(a, d) + rt_flat(b, d) == lt(a, d) + rt(b, d),
        d < a.depth ==> lt_flat(a, d) + (seq![Tok::Open(head(rnode(a, d + 1)))] + (lt(a, d + 1) + rt(b, d + 1)) + seq![Tok::Close]) + rt_flat(b, d) == lt(a, d) + rt(b, d),
        range_at(EitherOrBoth::Right(&a), d), range_at(EitherOrBoth::Left(&b), d),
        adds(EitherOrBoth::Right(&a), d) == lt_flat(a, d), adds(EitherOrBoth::Left(&b), d) == rt_flat(b, d),
{
    if d < a.depth {
        lemma_lt(a, d); lemma_lt(b, d);
        assert(lt_flat(a, d) + (seq![Tok::Open(head(rnode(a, d + 1)))] + (lt(a, d + 1) + rt(b, d + 1)) + seq![Tok::Close]) + rt_flat(b, d) =~= lt(a, d) + rt(b, d));
    }
}
/// what there is at a level of a position
pub proof fn lemma_rp_at(a: ResolvedPos, d: int)
    requires wf_rp(a), 0 <= d <= a.depth
    ensures
        a.path@.len() == a.depth + 1, wf_node(rnode(a, d)), 0 <= ridx(a, d) <= rkids(a, d).len(),
        d > 0 ==> cont(rnode(a, d)) is Some,
        d < a.depth ==> cont(rnode(a, d + 1)) is Some && wf_node(rnode(a, d + 1)) && rnode(a, d + 1) == rkids(a, d)[ridx(a, d)] && ridx(a, d) < rkids(a, d).len(),
{ lemma_rp_level(a, d); if d > 0 { lemma_rp_level(a, d - 1); } }
pub open spec fn closed_left(a: ResolvedPos, s: ResolvedPos, d: int) -> Seq<Tok> {
    if a.depth > d { seq![Tok::Open(head(rnode(a, d + 1)))] + (lt(a, d + 1) + rt(s, d + 1)) + seq![Tok::Close] } else { Seq::empty() }
}
/// the parts of a level around a slice, put together again
pub proof fn lemma_three(a: ResolvedPos, s: ResolvedPos, e: ResolvedPos, b: ResolvedPos, d: int)
    requires
        wf_rp(a), wf_rp(s), wf_rp(e), wf_rp(b), 0 <= d <= a.depth, a.depth == s.depth, e.depth == b.depth, d <= b.depth,
        same_at(s, e, d), s.pos <= e.pos, rtoff(s) == 0, rtoff(e) == 0,
    ensures ({
        let all = lt(a, d) + mid(s, e, d) + rt(b, d);
        &&& range_at(EitherOrBoth::Right(&a), d) && range_at(EitherOrBoth::Left(&b), d)
        &&& adds(EitherOrBoth::Right(&a), d) == lt_flat(a, d) && adds(EitherOrBoth::Left(&b), d) == rt_flat(b, d)
        &&& ridx(s, d) == ridx(e, d) && a.depth > d && b.depth > d ==> {
            &&& same_at(s, e, d + 1)
            &&& lt_flat(a, d) + (seq![Tok::Open(head(rnode(a, d + 1)))] + (lt(a, d + 1) + mid(s, e, d + 1) + rt(b, d + 1)) + seq![Tok::Close]) + rt_flat(b, d) == all
        }
        &&& !(ridx(s, d) == ridx(e, d) && a.depth > d && b.depth > d) ==> {
            &&& range_at(EitherOrBoth::Both(&s, &e), d)
            &&& (lt_flat(a, d) + closed_left(a, s, d)) + adds(EitherOrBoth::Both(&s, &e), d) + closed_left(e, b, d) + rt_flat(b, d) == all
        }
    })
{
    hide(flat); hide(toks); hide(path_ok); hide(wf_node); hide(wf_all); hide(mid); hide(lt); hide(rt); hide(run);
    if a.depth > d { lemma_lt(a, d); }
    if b.depth > d { lemma_lt(b, d); }
    if ridx(s, d) == ridx(e, d) && a.depth > d && b.depth > d {
        lemma_mid_down(s, e, d);
        lemma_seq3(lt_flat(a, d), seq![Tok::Open(head(rnode(a, d + 1)))], lt(a, d + 1), mid(s, e, d), rt(b, d + 1), seq![Tok::Close], rt_flat(b, d));
    } else {
        lemma_mid_split(s, e, d);
        let m = adds(EitherOrBoth::Both(&s, &e), d);
        let z = Seq::<Tok>::empty();
        if a.depth > d { lemma_seq_l(lt_flat(a, d), seq![Tok::Open(head(rnode(a, d + 1)))], lt(a, d + 1), rt(s, d + 1), seq![Tok::Close]); }
        else { lemma_seq_l(lt(a, d), z, z, z, z); assert(z + z =~= z); assert(lt(a, d) + z =~= lt(a, d)); }
        if b.depth > d { lemma_seq_r(seq![Tok::Open(head(rnode(e, d + 1)))], lt(e, d + 1), rt(b, d + 1), seq![Tok::Close], rt_flat(b, d)); }
        else { assert(z + rt(b, d) =~= rt(b, d)); }
        assert(lt_flat(a, d) + closed_left(a, s, d) == lt(a, d) + rt_open(s, d));
        assert(closed_left(e, b, d) + rt_flat(b, d) == lt_open(e, d) + rt(b, d));
        lemma_seq_c(lt(a, d), rt_open(s, d), m, lt_open(e, d), rt(b, d), closed_left(e, b, d), rt_flat(b, d));
    }
}
proof fn lemma_seq3(l: Seq<Tok>, o: Seq<Tok>, x: Seq<Tok>, m: Seq<Tok>, y: Seq<Tok>, c: Seq<Tok>, r: Seq<Tok>)
    ensures l + (o + (x + m + y) + c) + r == (l + o + x) + m + (y + c + r)
{ assert(l + (o + (x + m + y) + c) + r =~= (l + o + x) + m + (y + c + r)); }
proof fn lemma_seq_l(l: Seq<Tok>, o: Seq<Tok>, x: Seq<Tok>, y: Seq<Tok>, c: Seq<Tok>)
    ensures l + (o + (x + y) + c) == (l + o + x) + (y + c)
{ assert(l + (o + (x + y) + c) =~= (l + o + x) + (y + c)); }
proof fn lemma_seq_r(o: Seq<Tok>, x: Seq<Tok>, y: Seq<Tok>, c: Seq<Tok>, r: Seq<Tok>)
    ensures (o + (x + y) + c) + r == (o + x) + (y + c + r)
{ assert((o + (x + y) + c) + r =~= (o + x) + (y + c + r)); }
proof fn lemma_seq_c(a: Seq<Tok>, b: Seq<Tok>, m: Seq<Tok>, c: Seq<Tok>, d: Seq<Tok>, x: Seq<Tok>, y: Seq<Tok>)
    requires x + y == c + d
    ensures (a + b) + m + x + y == a + (b + m + c) + d
{
    assert((a + b) + m + x + y =~= (a + b) + m + (x + y));
    assert((a + b) + m + (c + d) =~= a + (b + m + c) + d);
}
/// the slice's content, with `j` nodes around it
pub open spec fn wrapped(n: MarkdownNode, s: Slice, j: int) -> bool {
    &&& wf_node(n) && cont(n) is Some
    &&& single(kids(n), j) && lspine(kids(n), s.open_start + j) && rspine(kids(n), s.open_end + j)
    &&& s.open_start + j + s.open_end + j <= nkids(n)
    &&& flat(kids(n)).subrange(s.open_start + j, nkids(n) - s.open_end - j) == inserts(s)
}
pub proof fn lemma_wrapped0(n: MarkdownNode, s: Slice)
    requires wf_frag(s.content), open_ok(s), cont(n) is Some
    ensures wrapped(with_content(n, s.content), s, 0)
{ lemma_with_content(n, s.content); lemma_spines(s.content.inner@, s.open_start as int, s.open_end as int); }
pub proof fn lemma_wrapped(p: MarkdownNode, n: MarkdownNode, c: Fragment, s: Slice, j: int)
    requires wrapped(n, s, j), cont(p) is Some, j >= 0, wf_frag(c), c.inner@ == seq![n]
    ensures wrapped(with_content(p, c), s, j + 1)
{
    lemma_with_content(p, c);
    lemma_spine_wrap(n, s.open_start + j);
    lemma_spine_wrap(n, s.open_end + j);
    lemma_spine_wrap(n, j);
    let t = flat(c.inner@);
    assert(t.subrange(s.open_start + j + 1, t.len() - s.open_end - j - 1) =~= flat(kids(n)).subrange(s.open_start + j, nkids(n) - s.open_end - j));
}
pub proof fn lemma_wrapped_fits(n: MarkdownNode, s: Slice, j: int)
    requires wrapped(n, s, j), j >= 0
    ensures wf_node(n), cont(n) is Some, s.open_start + j + s.open_end + j <= nkids(n) <= isize::MAX - 2, csize(n) == nkids(n)
{ lemma_wf_cont(n); if let Some(c) = cont(n) { axiom_fits(c.inner); } }
/// a type without content takes none
pub proof fn lemma_leaf_valid(n: MarkdownNode, s: Seq<MarkdownNode>)
    requires cont(n) is None, valid_content(ty(n), s)
    ensures s =~= Seq::<MarkdownNode>::empty()
{ assert(tys(s).len() == s.len()); }
/// the content around two positions at one level, when both are directly in it
pub proof fn lemma_flat_case(a: ResolvedPos, b: ResolvedPos, d: int)
    requires wf_rp(a), wf_rp(b), d == a.depth, d == b.depth, same_at(a, b, d)
    ensures ({
        let t = rflat(a, d);
        &&& 0 <= a.parent_offset <= t.len() && 0 <= b.parent_offset <= t.len()
        &&& bnd(t, 0) && bnd(t, t.len() as int) && bnd(t, a.parent_offset as int) && bnd(t, b.parent_offset as int)
        &&& cutf(t, 0, a.parent_offset as int) == lt(a, d)
        &&& cutf(t, b.parent_offset as int, t.len() as int) == rt(b, d)
    })
{
    let t = rflat(a, d);
    let e = Seq::<Head>::empty();
    lemma_rp_in(a, d); lemma_rp_in(b, d);
    lemma_rp_bnd(a, d); lemma_rp_bnd(b, d);
    lemma_run_lt_last(a); lemma_run_lt_last(b);
    lemma_bnd_flat0(rkids(a, d));
    lemma_run_flat(e, rkids(a, d));
    assert(t.take(0) =~= Seq::<Tok>::empty());
    assert(t.take(t.len() as int) =~= t);
    assert(opens(e) =~= Seq::<Tok>::empty());
    assert(closes(0) =~= Seq::<Tok>::empty());
    assert(cutf(t, 0, a.parent_offset as int) =~= lt(a, d));
    assert(cutf(t, b.parent_offset as int, t.len() as int) =~= rt(b, d));
}
/// a level with the child that both positions are in replaced
pub proof fn lemma_outer_child(a: ResolvedPos, b: ResolvedPos, d: int, n: MarkdownNode, m: Seq<Tok>)
    requires
        wf_rp(a), wf_rp(b), 0 <= d < a.depth, d < b.depth, same_at(a, b, d), ridx(a, d) == ridx(b, d),
        cont(n) is Some, head(n) == head(rnode(a, d + 1)), flat(kids(n)) == lt(a, d + 1) + m + rt(b, d + 1),
    ensures
        same_at(a, b, d + 1),
        flat(rkids(a, d).update(ridx(a, d), n)) == lt(a, d) + m + rt(b, d),
{
    lemma_same_down(a, b, d);
    lemma_lt(a, d); lemma_lt(b, d);
    lemma_rp_at(a, d);
    lemma_flat_update(rkids(a, d), ridx(a, d), n);
    lemma_toks_cont(n);
    assert(flat(rkids(a, d).update(ridx(a, d), n)) =~= lt(a, d) + m + rt(b, d));
}
pub proof fn lemma_inserts(s: Slice)
    requires wf_frag(s.content), open_ok(s)
    ensures
        s.open_start + s.open_end <= flat(s.content.inner@).len(),
        s.content.size == 0 ==> s.open_start == 0 && s.open_end == 0 && inserts(s) == Seq::<Tok>::empty(),
        s.open_start == 0 && s.open_end == 0 ==> inserts(s) == flat(s.content.inner@),
{
    lemma_spines(s.content.inner@, s.open_start as int, s.open_end as int);
    if s.content.size == 0 { assert(inserts(s) =~= Seq::<Tok>::empty()); }
    if s.open_start == 0 && s.open_end == 0 { assert(inserts(s) =~= flat(s.content.inner@)); }
}
pub proof fn lemma_root_cont(a: ResolvedPos)
    requires wf_rp(a), a.depth > 0
    ensures cont(rnode(a, 0)) is Some
{ lemma_rp_level(a, 0); }
/// the open sides of a slice exist, and fit the depths of the two positions
pub open spec fn fits(t: Seq<Tok>, from: int, to: int, s: Slice) -> bool {
    open_ok(s) && s.open_start <= depth_at(t, from) && s.open_end <= depth_at(t, to) && depth_at(t, from) - s.open_start == depth_at(t, to) - s.open_end
}
/// `n` is the node `m` with the tokens between the positions replaced
pub open spec fn spliced(m: MarkdownNode, from: int, to: int, ins: Seq<Tok>, n: MarkdownNode) -> bool {
    &&& wf_node(n) && head(n) == head(m)
    &&& flat(kids(n)) == flat(kids(m)).take(from) + ins + flat(kids(m)).skip(to)
}
