// ------------------------------------------------------------------ a slice of the range itself always fits
pub proof fn lemma_opens_lspine(s: Seq<MarkdownNode>, k: int)
    requires wf_all(s), 0 <= k <= flat(s).len(), forall|i: int| 0 <= i < k ==> (#[trigger] flat(s)[i]) is Open
    ensures lspine(s, k)
    decreases k
{
    if k > 0 {
        assert(s.len() > 0);
        let n = s[0];
        lemma_wf_all(s); lemma_wf_cont(n); lemma_wf_nonempty(n);
        lemma_flat_at(s, 0); lemma_toks_cont(n);
        assert(s.take(0) =~= Seq::<MarkdownNode>::empty());
        let t = flat(s);
        assert forall|i: int| 0 <= i < toks(n).len() implies t[i] == #[trigger] toks(n)[i] by { }
        assert(t[0] is Open); assert(toks(n)[0] is Open);
        if is_text(n) { lemma_units_nb(text_of(n).text.content@, marks_of(n)); }
        assert(cont(n) is Some);
        let u = flat(kids(n));
        if u.len() < k - 1 { assert(toks(n)[1 + u.len() as int] is Close); assert(t[1 + u.len() as int] is Open); }
        assert forall|i: int| 0 <= i < k - 1 implies (#[trigger] u[i]) is Open by { assert(toks(n)[1 + i] == u[i]); assert(t[1 + i] is Open); }
        lemma_opens_lspine(kids(n), k - 1);
    }
}
pub proof fn lemma_closes_rspine(s: Seq<MarkdownNode>, k: int)
    requires wf_all(s), 0 <= k <= flat(s).len(), forall|i: int| flat(s).len() - k <= i < flat(s).len() ==> (#[trigger] flat(s)[i]) is Close
    ensures rspine(s, k)
    decreases k
{
    if k > 0 {
        assert(s.len() > 0);
        let n = s.last();
        lemma_wf_all(s); lemma_wf_cont(n); lemma_wf_nonempty(n); lemma_toks_cont(n);
        let t = flat(s);
        let o = flat(s.drop_last()).len() as int;
        let l = toks(n).len() as int;
        assert(t =~= flat(s.drop_last()) + toks(n));
        assert forall|i: int| 0 <= i < l implies t[o + i] == #[trigger] toks(n)[i] by { }
        assert(t[o + (l - 1)] is Close); assert(toks(n)[l - 1] is Close);
        if is_text(n) { lemma_units_nb(text_of(n).text.content@, marks_of(n)); }
        assert(cont(n) is Some);
        let u = flat(kids(n));
        if u.len() < k - 1 { assert(toks(n)[0] is Open); assert(t[o + 0] is Close); }
        assert forall|i: int| u.len() - (k - 1) <= i < u.len() implies (#[trigger] u[i]) is Close by { assert(toks(n)[1 + i] == u[i]); assert(t[o + (1 + i)] is Close); }
        lemma_closes_rspine(kids(n), k - 1);
    }
}
/// the same structure
pub open spec fn same_brackets(f: Seq<Tok>, g: Seq<Tok>) -> bool {
    f.len() == g.len() && forall|i: int| 0 <= i < f.len() ==> ((#[trigger] f[i]) is Open || g[i] is Open || f[i] is Close || g[i] is Close ==> f[i] == g[i])
}
pub proof fn lemma_run_same(st: Seq<Head>, f: Seq<Tok>, g: Seq<Tok>, p: int)
    requires same_brackets(f, g), 0 <= p <= f.len()
    ensures run(st, f.take(p)) == run(st, g.take(p))
    decreases p
{
    if p > 0 {
        lemma_run_same(st, f, g, p - 1);
        assert(f.take(p).drop_last() =~= f.take(p - 1)); assert(g.take(p).drop_last() =~= g.take(p - 1));
        assert(f.take(p).last() == f[p - 1]); assert(g.take(p).last() == g[p - 1]);
    } else { assert(f.take(0) =~= g.take(0)); }
}
/// a slice with the structure of the range fits it
pub proof fn lemma_own_joins(t: Seq<Tok>, from: int, to: int, d: int, s: Slice, u: Slice)
    requires
        0 <= from <= to <= t.len(), is_slice(t, from, to, d, s), forall|p: int| from <= p <= to ==> #[trigger] depth_at(t, p) >= d,
        wf_frag(u.content), u.open_start == s.open_start, u.open_end == s.open_end, same_brackets(flat(s.content.inner@), flat(u.content.inner@)),
    ensures fits(t, from, to, u), joins(t, from, to, u)
{
    hide(flat); hide(run); hide(wf_all); hide(compat);
    let e = Seq::<Head>::empty();
    let st = run(e, t.take(from));
    let k = st.skip(d);
    let x = t.subrange(from, to);
    let f = flat(s.content.inner@);
    let g = flat(u.content.inner@);
    let n = closes((depth_at(t, to) - d) as nat);
    let os = s.open_start as int;
    let oe = s.open_end as int;
    assert(f == opens(k) + x + n);
    assert(f.len() == os + x.len() + oe);
    assert forall|i: int| 0 <= i < os implies (#[trigger] g[i]) is Open by { assert(f[i] == opens(k)[i]); }
    assert forall|i: int| g.len() - oe <= i < g.len() implies (#[trigger] g[i]) is Close by { assert(f[i] == n[i - os - x.len()]); }
    lemma_empty();
    lemma_opens_lspine(u.content.inner@, os);
    lemma_closes_rspine(u.content.inner@, oe);
    // the open nodes of the slice
    assert(f.take(os) =~= opens(k));
    assert(f.take(f.len() - oe) =~= opens(k) + x);
    assert(x.take(x.len() as int) =~= x);
    lemma_run_opens0(k);
    lemma_run_concat(e, opens(k), x);
    lemma_run_same(e, f, g, os);
    lemma_run_same(e, f, g, f.len() - oe);
    assert(heads_l(u) == k);
    assert(heads_r(u) == run(k, x));
    assert forall|q: int| 0 <= q <= x.len() implies (#[trigger] run(st, x.take(q))).len() >= d by {
        assert(t.take(from + q) =~= t.take(from) + x.take(q));
        lemma_run_concat(e, t.take(from), x.take(q));
        assert(depth_at(t, from + q) >= d);
    }
    lemma_run_floor(st, x, x.len() as int, d);
    assert(t.take(to) =~= t.take(from) + x);
    lemma_run_concat(e, t.take(from), x);
    let r = run(k, x);
    let gg = run(e, t.take(to));
    assert(gg == st.take(d) + r);
    assert forall|a: MarkdownNodeType| #[trigger] compat(a, a) by { reveal(compat); }
    assert forall|i: int| 0 <= i < d implies compat(head_ty(#[trigger] gg[i]), head_ty(st[i])) by { assert(gg[i] == st[i]); }
    assert forall|i: int| 0 <= i < k.len() implies compat(head_ty(#[trigger] k[i]), head_ty(st[d + i])) by { assert(k[i] == st[d + i]); }
    assert forall|i: int| 0 <= i < r.len() implies compat(head_ty(gg[d + i]), head_ty(#[trigger] r[i])) by { assert(gg[d + i] == r[i]); }
}
/// what a slice of the range puts in is what was there
pub proof fn lemma_own_inserts(t: Seq<Tok>, from: int, to: int, d: int, s: Slice)
    requires 0 <= from <= to <= t.len(), is_slice(t, from, to, d, s)
    ensures inserts(s) == t.subrange(from, to), put(t, from, to, inserts(s)) == t
{
    hide(flat); hide(run);
    let k = run(Seq::empty(), t.take(from)).skip(d);
    let f = flat(s.content.inner@);
    assert(f == opens(k) + t.subrange(from, to) + closes((depth_at(t, to) - d) as nat));
    assert(inserts(s) =~= t.subrange(from, to));
    assert(put(t, from, to, inserts(s)) =~= t);
}
/// the slice of an empty range
pub proof fn lemma_own_empty(t: Seq<Tok>, from: int, s: Slice)
    requires 0 <= from <= t.len(), wf_frag(s.content), s.content.inner@.len() == 0, s.open_start == 0, s.open_end == 0
    ensures is_slice(t, from, from, depth_at(t, from) as int, s), min_depth(t, from, from, depth_at(t, from) as int)
{
    hide(run);
    let d = depth_at(t, from) as int;
    lemma_empty();
    assert(s.content.inner@ =~= Seq::<MarkdownNode>::empty());
    assert(opens(run(Seq::empty(), t.take(from)).skip(d)) + t.subrange(from, from) + closes((depth_at(t, from) - d) as nat) =~= Seq::<Tok>::empty());
    assert(depth_at(t, from) == d);
}
/// the slice that a document gives for a range
pub open spec fn own_slice(t: Seq<Tok>, from: int, to: int, inc: bool, s: Slice) -> bool {
    if from == to { wf_frag(s.content) && s.content.inner@.len() == 0 && s.open_start == 0 && s.open_end == 0 } else { slice_ok(t, from, to, inc, s) }
}
pub proof fn lemma_own(m: MarkdownNode, from: int, to: int, inc: bool, s: Slice)
    requires wf_node(m), valid_node(m), 0 <= from <= to <= flat(kids(m)).len(), own_slice(flat(kids(m)), from, to, inc, s)
    ensures ({
        let t = flat(kids(m));
        &&& wf_frag(s.content) && may_replace(ty(m), t, from, to, s)
        &&& t.take(from) + inserts(s) + t.skip(to) == t
    })
{
    hide(flat); hide(run); hide(vtoks); hide(content_at);
    let t = flat(kids(m));
    lemma_valid(m);
    if from == to { lemma_own_empty(t, from, s); }
    let d = if from == to { depth_at(t, from) as int } else { choose|d: int| #[trigger] is_slice(t, from, to, d, s) && (if inc { d == 0 } else { min_depth(t, from, to, d) }) };
    lemma_own_joins(t, from, to, d, s, s);
    lemma_own_inserts(t, from, to, d, s);
}
/// so does one of the same structure with other marks
pub proof fn lemma_remark_same(st: Seq<Head>, p: MarkdownNodeType, t: Seq<Tok>, op: MarkOp)
    ensures same_brackets(t, remark(st, p, t, op))
{ }
pub proof fn lemma_mark_fits(m: MarkdownNode, from: int, to: int, d: int, s: Slice, u: Slice, p: MarkdownNodeType, op: MarkOp)
    requires
        wf_node(m), valid_node(m), 0 <= from <= to <= flat(kids(m)).len(), is_slice(flat(kids(m)), from, to, d, s), min_depth(flat(kids(m)), from, to, d),
        wf_frag(u.content), u.open_start == s.open_start, u.open_end == s.open_end, flat(u.content.inner@) == remark(Seq::empty(), p, flat(s.content.inner@), op),
        flat(kids(m)).take(from) + inserts(u) + flat(kids(m)).skip(to) == remarked(ty(m), flat(kids(m)), from, to, op),
    ensures may_replace(ty(m), flat(kids(m)), from, to, u)
{
    hide(flat); hide(run); hide(vtoks); hide(content_at); hide(remark); hide(remarked);
    let t = flat(kids(m));
    lemma_valid(m); lemma_bal_flat(kids(m));
    lemma_remark_same(Seq::empty(), p, flat(s.content.inner@), op);
    lemma_own_joins(t, from, to, d, s, u);
    lemma_remarked_valid(ty(m), t, from, to, op);
}
pub proof fn lemma_no_toks(s: Seq<MarkdownNode>)
    requires wf_all(s), flat(s).len() == 0
    ensures s.len() == 0
{ if s.len() > 0 { lemma_wf_all(s); lemma_wf_nonempty(s.last()); assert(flat(s).len() == flat(s.drop_last()).len() + toks(s.last()).len()); } }
