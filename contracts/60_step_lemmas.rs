// ------------------------------------------------------------------ structure between two positions
pub open spec fn closes_at(t: Seq<Tok>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> (#[trigger] t[i]) is Close }
pub open spec fn opens_at(t: Seq<Tok>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> (#[trigger] t[i]) is Open }
/// nothing but closing and then opening tokens
pub open spec fn brackets(t: Seq<Tok>, from: int, to: int) -> bool { exists|m: int| from <= m <= to && #[trigger] closes_at(t, from, m) && opens_at(t, m, to) }
pub open spec fn only_structure(t: Seq<Tok>, from: int, to: int) -> bool { to <= t.len() && brackets(t, from, to) }
pub proof fn lemma_not_brackets(t: Seq<Tok>, from: int, to: int, i: int)
    requires from <= i < to, !(t[i] is Open), !(t[i] is Close) || (from < i && t[i - 1] is Open)
    ensures !brackets(t, from, to)
{
    if brackets(t, from, to) {
        let m = choose|m: int| from <= m <= to && #[trigger] closes_at(t, from, m) && opens_at(t, m, to);
        if i >= m { assert(t[i] is Open); } else { assert(t[i] is Close); assert(t[i - 1] is Close); }
    }
}
pub proof fn lemma_brackets(t: Seq<Tok>, from: int, m: int, to: int)
    requires from <= m <= to, closes_at(t, from, m), opens_at(t, m, to)
    ensures brackets(t, from, to)
{ }
/// the tokens of a level are those of the root
pub proof fn lemma_at_level(a: ResolvedPos, d: int, q: int)
    requires wf_rp(a), 0 <= d <= a.depth, 0 <= q < rflat(a, d).len()
    ensures rstart(a, d) >= 0, rstart(a, d) + q < rflat(a, 0).len(), rflat(a, 0)[rstart(a, d) + q] == rflat(a, d)[q]
{
    lemma_rp_sub(a, d);
    lemma_rp_short_at(a, d);
    assert(rflat(a, 0).subrange(rstart(a, d), rend(a, d))[q] == rflat(a, d)[q]);
}
pub proof fn lemma_close_at(a: ResolvedPos, d: int)
    requires wf_rp(a), 0 < d <= a.depth
    ensures
        rend(a, d) < rflat(a, 0).len(), rflat(a, 0)[rend(a, d)] is Close,
        rend(a, d) + 1 == rstart(a, d - 1) + flat(rkids(a, d - 1).take(ridx(a, d - 1) + 1)).len(),
{
    lemma_rp_level(a, d - 1);
    let ks = rkids(a, d - 1);
    let i = ridx(a, d - 1);
    lemma_flat_at(ks, i);
    lemma_flat_take(ks, i);
    lemma_toks_cont(ks[i]);
    let q = flat(ks.take(i)).len() + toks(ks[i]).len() - 1;
    assert(rflat(a, d - 1)[q] == toks(ks[i])[toks(ks[i]).len() - 1]);
    lemma_at_level(a, d - 1, q);
}
/// the child of a level at an index, in the tokens of the root
pub proof fn lemma_child_at(a: ResolvedPos, d: int, i: int)
    requires wf_rp(a), 0 <= d <= a.depth, 0 <= i < rkids(a, d).len()
    ensures tok_at(rflat(a, 0), rstart(a, d) + flat(rkids(a, d).take(i)).len(), rkids(a, d)[i])
{
    let ks = rkids(a, d);
    lemma_flat_at(ks, i);
    let o = flat(ks.take(i)).len();
    let p = rstart(a, d) + o;
    assert forall|k: int| 0 <= k < toks(ks[i]).len() implies p + k < rflat(a, 0).len() && #[trigger] rflat(a, 0)[p + k] == toks(ks[i])[k] by {
        lemma_at_level(a, d, o + k);
    }
    lemma_rp_level(a, d); lemma_wf_cont(rnode(a, d)); lemma_wf_all(ks);
    lemma_wf_nonempty(ks[i]);
    lemma_rp_short_at(a, d);
    let k = toks(ks[i]).len() - 1;
    assert(rflat(a, 0)[p + k] == toks(ks[i])[k]);
}
/// the node starts at the position
pub open spec fn tok_at(t: Seq<Tok>, p: int, n: MarkdownNode) -> bool {
    wf_node(n) && 0 <= p && p + toks(n).len() <= t.len() && toks(n).len() > 0 && (forall|k: int| 0 <= k < toks(n).len() ==> #[trigger] t[p + k] == toks(n)[k])
}
/// what the walk finds in a node
pub proof fn lemma_walk(t: Seq<Tok>, p: int, n: MarkdownNode)
    requires tok_at(t, p, n)
    ensures
        0 <= p < t.len(),
        cont(n) is None ==> !(t[p] is Open) && !(t[p] is Close),
        cont(n) is Some ==> t[p] is Open,
        cont(n) is Some && kids(n).len() > 0 ==> tok_at(t, p + 1, kids(n)[0]),
        cont(n) is Some && kids(n).len() == 0 ==> p + 1 < t.len() && t[p + 1] is Close,
{
    lemma_toks_cont(n); lemma_wf_cont(n);
    assert(t[p + 0] == toks(n)[0]);
    if is_text(n) { lemma_units_ch(text_of(n).text.content@, marks_of(n)); }
    if cont(n) is Some {
        let ks = kids(n);
        if ks.len() > 0 {
            lemma_wf_all(ks);
            lemma_wf_nonempty(ks[0]);
            lemma_flat_at(ks, 0);
            assert(ks.take(0) =~= Seq::<MarkdownNode>::empty());
            assert(toks(ks[0]).len() <= flat(ks).len());
            assert forall|k: int| 0 <= k < toks(ks[0]).len() implies #[trigger] t[p + 1 + k] == toks(ks[0])[k] by {
                assert(t[p + (k + 1)] == toks(n)[k + 1]);
                assert(toks(n)[k + 1] == flat(ks)[k]);
            }
        } else {
            assert(ks =~= Seq::<MarkdownNode>::empty());
            assert(t[p + 1] == toks(n)[1]);
        }
    }
}
/// a position inside of a text has a character after it
pub proof fn lemma_in_text(a: ResolvedPos)
    requires wf_rp(a), rtoff(a) > 0
    ensures a.pos < rflat(a, 0).len(), rflat(a, 0)[a.pos as int] is Ch
{
    let d = a.depth as int;
    let ks = rkids(a, d);
    let i = ridx(a, d);
    lemma_lt_last(a);
    lemma_rp_level(a, d);
    lemma_child_at(a, d, i);
    lemma_units_ch(text_of(ks[i]).text.content@, marks_of(ks[i]));
    lemma_toks_cont(ks[i]);
    let p = rstart(a, d) + flat(ks.take(i)).len();
    assert(rflat(a, 0)[p + rtoff(a)] == toks(ks[i])[rtoff(a)]);
}
/// what a replacement of a range by a slice gives
pub open spec fn replaced(m: MarkdownNode, from: int, to: int, s: Slice, n: MarkdownNode) -> bool {
    let t = flat(kids(m));
    from <= to <= t.len() && bnd(t, from) && bnd(t, to) && fits(t, from, to, s) && spliced(m, from, to, inserts(s), n)
}
pub open spec fn gap_toks(t: Seq<Tok>, from: int, to: int) -> Seq<Tok> { if from < to { t.subrange(from, to) } else { Seq::empty() } }
/// the slice of a step with the gap put in
pub open spec fn around(m: MarkdownNode, st: ReplaceAroundStep, f: Slice, n: MarkdownNode) -> bool {
    let t = flat(kids(m));
    filled(st.slice, st.insert + st.slice.open_start, gap_toks(t, st.gap_from as int, st.gap_to as int), f)
        && replaced(m, st.span.from as int, st.span.to as int, f, n)
}
/// what can be a gap: a flat range
pub open spec fn flat_gap(t: Seq<Tok>, from: int, to: int) -> bool {
    from == to || (from < to <= t.len() && bnd(t, from) && bnd(t, to) && min_depth(t, from, to, depth_at(t, from) as int) && depth_at(t, from) == depth_at(t, to))
}
/// the insertion point is one of the slice
pub open spec fn insert_ok(s: Slice, p: int) -> bool {
    0 <= p && p + s.open_start + s.open_end <= flat(s.content.inner@).len()
}

/// a flat slice is the range itself
pub proof fn lemma_gap(t: Seq<Tok>, b: int, c: int, s: Slice)
    requires b < c <= t.len(), bnd(t, b), bnd(t, c), slice_ok(t, b, c, false, s), s.open_start == 0, s.open_end == 0
    ensures flat(s.content.inner@) == t.subrange(b, c), flat_gap(t, b, c)
{
    hide(run); hide(flat);
    let d = choose|d: int| #[trigger] is_slice(t, b, c, d, s) && min_depth(t, b, c, d);
    assert(d == depth_at(t, b));
    assert(d == depth_at(t, c));
    assert(run(Seq::empty(), t.take(b)).skip(d) =~= Seq::<Head>::empty());
    assert(opens(Seq::<Head>::empty()) =~= Seq::<Tok>::empty());
    assert(closes(0) =~= Seq::<Tok>::empty());
    assert(flat(s.content.inner@) =~= t.subrange(b, c));
}
/// what the filled slice inserts
pub proof fn lemma_filled(s: Slice, p: int, x: Seq<Tok>, f: Slice)
    requires insert_ok(s, p), filled(s, p + s.open_start, x, f)
    ensures inserts(f) == inserts(s).take(p) + x + inserts(s).skip(p)
{
    hide(flat);
    let k = flat(s.content.inner@);
    let a = s.open_start as int;
    let e = k.len() - s.open_end;
    let g = flat(f.content.inner@);
    assert(g == k.take(p + a) + x + k.skip(p + a));
    assert(g.len() == k.len() + x.len());
    let l = k.subrange(a, p + a);
    let r = k.subrange(p + a, e);
    assert(inserts(s).take(p) =~= l);
    assert(inserts(s).skip(p) =~= r);
    assert(g.subrange(a, g.len() - s.open_end) =~= l + x + r);
}
/// what a replace step promises
pub open spec fn replace_post(m: MarkdownNode, st: ReplaceStep, r: StepResult) -> bool {
    let t = flat(kids(m));
    let a = st.span.from as int;
    let b = st.span.to as int;
    &&& r is Err && r->Err_0 is WouldOverwrite <==> st.structure && a <= b && a <= t.len() && bnd(t, a) && !only_structure(t, a, b)
    &&& !(r is Err && r->Err_0 is GapWouldOverwrite)
    &&& r matches Ok(n) ==> replaced(m, a, b, st.slice, n) && (st.structure ==> only_structure(t, a, b))
}
/// what a replace-around step promises
pub open spec fn around_post(m: MarkdownNode, st: ReplaceAroundStep, r: StepResult) -> bool {
    let t = flat(kids(m));
    let a = st.span.from as int;
    let b = st.gap_from as int;
    let c = st.gap_to as int;
    let d = st.span.to as int;
    let x = flat(st.slice.content.inner@);
    let first = a <= b && a <= t.len() && bnd(t, a);
    let second = c <= d && c <= t.len() && bnd(t, c);
    &&& r is Err && r->Err_0 is GapWouldOverwrite <==> st.structure && first && (!only_structure(t, a, b) || (second && !only_structure(t, c, d)))
    &&& !(r is Err && r->Err_0 is WouldOverwrite)
    &&& r matches Ok(n) ==> {
        &&& exists|f: Slice| #[trigger] around(m, st, f, n)
        &&& flat_gap(t, b, c)
        &&& st.insert + st.slice.open_start <= x.len() && bnd(x, st.insert + st.slice.open_start)
        &&& st.structure ==> only_structure(t, a, b) && only_structure(t, c, d)
        &&& insert_ok(st.slice, st.insert as int) ==> flat(kids(n)) == t.take(a)
            + (inserts(st.slice).take(st.insert as int) + gap_toks(t, b, c) + inserts(st.slice).skip(st.insert as int)) + t.skip(d)
    }
}
