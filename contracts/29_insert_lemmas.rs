// ------------------------------------------------------------------ insertion
/// a position between two children, or inside of a text: content can be cut there without parts of nodes
pub proof fn lemma_insert_here(s: Seq<MarkdownNode>, i: int, p: int)
    requires 0 <= i <= s.len(), p == flat(s.take(i)).len() || (i < s.len() && is_text(s[i]) && flat(s.take(i)).len() <= p < flat(s.take(i + 1)).len()), bnd(flat(s), p)
    ensures
        0 <= p <= flat(s).len(), bnd(flat(s), 0), bnd(flat(s), flat(s).len() as int),
        cutf(flat(s), 0, p) == flat(s).take(p), cutf(flat(s), p, flat(s).len() as int) == flat(s).skip(p),
{
    let t = flat(s);
    let e = Seq::<Head>::empty();
    lemma_flat_split(s, i);
    lemma_bnd_flat0(s);
    lemma_run_flat(e, s);
    lemma_run_flat(e, s.take(i));
    assert(t.take(0) =~= Seq::<Tok>::empty());
    assert(t.take(t.len() as int) =~= t);
    assert(opens(e) =~= Seq::<Tok>::empty());
    assert(closes(0) =~= Seq::<Tok>::empty());
    if p == flat(s.take(i)).len() { assert(t.take(p) =~= flat(s.take(i))); }
    else {
        lemma_flat_take(s, i);
        lemma_flat_at(s, i);
        lemma_flat_split(s, i + 1);
        assert(s.take(s.len() as int) =~= s);
        let q = p - flat(s.take(i)).len();
        lemma_units_nb(text_of(s[i]).text.content@, marks_of(s[i]));
        lemma_toks_cont(s[i]);
        lemma_nb_take(toks(s[i]), q);
        lemma_run_flat0(e, toks(s[i]).take(q));
        lemma_run_concat(e, flat(s.take(i)), toks(s[i]).take(q));
        assert(t.take(p) =~= flat(s.take(i)) + toks(s[i]).take(q));
    }
    assert(cutf(t, 0, p) =~= t.take(p));
    assert(t.skip(p) == t.subrange(p, t.len() as int));
    assert(cutf(t, p, t.len() as int) =~= t.skip(p));
}
pub open spec fn spliced_toks(t: Seq<Tok>, p: int, x: Seq<Tok>) -> Seq<Tok> { t.take(p) + x + t.skip(p) }
pub proof fn lemma_insert_assoc(a: Seq<Tok>, k: Seq<Tok>, b: Seq<Tok>, q: int, x: Seq<Tok>)
    requires 0 <= q <= k.len()
    ensures a + spliced_toks(k, q, x) + b == spliced_toks(a + k + b, a.len() + q, x)
{
    let t = a + k + b;
    let p = a.len() + q;
    assert(t.take(p) =~= a + k.take(q));
    assert(t.skip(p) =~= k.skip(q) + b);
    assert(a + spliced_toks(k, q, x) + b =~= (a + k.take(q)) + x + (k.skip(q) + b));
}
/// an insertion inside of a child
pub proof fn lemma_insert_child(s: Seq<MarkdownNode>, i: int, p: int, n: MarkdownNode, x: Seq<Tok>)
    requires
        0 <= i < s.len(), flat(s.take(i)).len() < p < flat(s.take(i + 1)).len(), cont(s[i]) is Some, cont(n) is Some, head(n) == head(s[i]),
        flat(kids(n)) == spliced_toks(flat(kids(s[i])), p - flat(s.take(i)).len() - 1, x),
    ensures flat(s.update(i, n)) == spliced_toks(flat(s), p, x), 0 <= p <= flat(s).len()
{
    hide(flat); hide(toks); hide(spliced_toks); hide(head); hide(cont);
    let k = flat(kids(s[i]));
    let q = p - flat(s.take(i)).len() - 1;
    let a = flat(s.take(i)) + seq![Tok::Open(head(n))];
    let b = seq![Tok::Close] + flat(s.skip(i + 1));
    assert(a + k + b == flat(s) && a + flat(kids(n)) + b == flat(s.update(i, n)) && q <= k.len() && p <= flat(s).len()) by {
        lemma_flat_update(s, i, n);
        lemma_flat_at(s, i);
        lemma_flat_take(s, i);
        lemma_toks_cont(n); lemma_toks_cont(s[i]);
        assert(flat(s) =~= a + k + b);
        assert(flat(s.update(i, n)) =~= a + flat(kids(n)) + b);
    }
    lemma_insert_assoc(a, k, b, q, x);
}
/// `f` is the slice `s` with `x` put into its content
pub open spec fn filled(s: Slice, p: int, x: Seq<Tok>, f: Slice) -> bool {
    wf_frag(f.content) && f.open_start == s.open_start && f.open_end == s.open_end && flat(f.content.inner@) == spliced_toks(flat(s.content.inner@), p, x)
}
pub open spec fn cbnd_here(s: Seq<MarkdownNode>, i: int) -> bool { i < s.len() && is_text(s[i]) ==> cbnd(text_of(s[i]).text.content@, 0) }
