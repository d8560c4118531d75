// ------------------------------------------------------------------ fragments
pub open spec fn joined(a: TextNode, b: TextNode, t: Text) -> MarkdownNode { MarkdownNode::Text(TextNode { marks: a.marks, text: t }) }
pub proof fn lemma_flat_update(s: Seq<MarkdownNode>, i: int, n: MarkdownNode)
    requires 0 <= i < s.len()
    ensures flat(s.update(i, n)) == flat(s.take(i)) + toks(n) + flat(s.skip(i + 1))
{
    let u = s.update(i, n);
    lemma_flat_at(u, i);
    assert(u.take(i) =~= s.take(i));
    assert(u.skip(i + 1) =~= s.skip(i + 1));
}
pub proof fn lemma_with_content(n: MarkdownNode, c: Fragment)
    requires cont(n) is Some
    ensures
        cont(with_content(n, c)) == Some(c), kids(with_content(n, c)) == c.inner@, head(with_content(n, c)) == head(n),
        ty(with_content(n, c)) == ty(n), !is_text(with_content(n, c)),
        toks(with_content(n, c)) == seq![Tok::Open(head(n))] + flat(c.inner@) + seq![Tok::Close],
        wf_node(with_content(n, c)) <==> wf_frag(c),
{ lemma_toks_cont(with_content(n, c)); }
pub proof fn lemma_bnd_flat0(s: Seq<MarkdownNode>)
    ensures bnd(flat(s), 0)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_bnd_flat0(s.drop_last());
        let n = s.last();
        lemma_toks_cont(n);
        if flat(s.drop_last()).len() > 0 { assert(flat(s)[0] == flat(s.drop_last())[0]); }
        else {
            assert(flat(s) =~= toks(n));
            if is_text(n) { lemma_bnd_units0(text_of(n).text.content@, marks_of(n)); }
        }
    }
}
pub proof fn lemma_bnd_units0(s: Seq<char>, m: Seq<MarkdownMark>)
    ensures bnd(units(s, m), 0)
{ assert(u16len(s.take(0)) == 0); lemma_bnd_units(s, m, 0); }
/// joining the last text of `a` to the first text of `b`
pub proof fn lemma_join(a: Seq<MarkdownNode>, b: Seq<MarkdownNode>)
    requires a.len() > 0, b.len() > 0, is_text(a.last()), is_text(b[0])
    ensures ({
        let x = text_of(a.last()).text.content@;
        let y = text_of(b[0]).text.content@;
        u16len(x + y) == u16len(x) + u16len(y) && units(x + y, marks_of(b[0])) == units(x, marks_of(b[0])) + units(y, marks_of(b[0]))
    })
{
    lemma_u16_concat(text_of(a.last()).text.content@, text_of(b[0]).text.content@);
    lemma_units_concat(text_of(a.last()).text.content@, text_of(b[0]).text.content@, marks_of(b[0]));
}
pub open spec fn is_join(a: MarkdownNode, b: MarkdownNode, r: MarkdownNode) -> bool {
    is_text(a) && is_text(b) && is_text(r) && marks_of(a) == marks_of(b) && marks_of(r) == marks_of(a)
        && text_of(r).text.content@ == text_of(a).text.content@ + text_of(b).text.content@
        && text_of(r).text.len_utf16 == u16len(text_of(r).text.content@)
}
pub proof fn lemma_is_join(a: MarkdownNode, b: MarkdownNode, r: MarkdownNode)
    requires is_join(a, b, r), wf_node(a)
    ensures toks(r) == toks(a) + toks(b), wf_node(r)
{ lemma_units_concat(text_of(a).text.content@, text_of(b).text.content@, marks_of(b)); }
pub proof fn lemma_append(a: Seq<MarkdownNode>, b: Seq<MarkdownNode>, c: Seq<MarkdownNode>, d: Seq<MarkdownNode>)
    requires
        wf_all(a), wf_all(b), a.len() > 0, b.len() > 0,
        (c =~= a && d =~= b) || (c =~= a.update(a.len() - 1, c.last()) && d =~= b.remove(0) && is_join(a.last(), b[0], c.last()))
    ensures flat(c + d) == flat(a) + flat(b), wf_all(c + d)
{
    lemma_flat_concat(c, d);
    lemma_wf_all(a); lemma_wf_all(b); lemma_wf_all(c + d);
    if c == a && d == b { } else {
        lemma_is_join(a.last(), b[0], c.last());
        lemma_flat_update(a, a.len() - 1, c.last());
        lemma_flat_at(a, a.len() - 1);
        assert(a.skip(a.len() as int) =~= Seq::<MarkdownNode>::empty());
        assert(b.remove(0) =~= b.skip(1));
        lemma_flat_skip(b, 0);
        assert(b.skip(0) =~= b);
        assert(flat(c + d) =~= flat(a) + flat(b));
    }
}
/// a cut that keeps everything, and a cut of text
pub proof fn lemma_cutf_whole(c: MarkdownNode)
    ensures cutf(toks(c), 0, toks(c).len() as int) == toks(c)
{
    let e = Seq::<Head>::empty();
    assert(toks(c).take(0) =~= Seq::empty());
    assert(toks(c).take(toks(c).len() as int) =~= toks(c));
    assert(toks(c).subrange(0, toks(c).len() as int) =~= toks(c));
    lemma_run_toks(e, c);
    assert(opens(e) =~= Seq::empty());
    assert(closes(0) =~= Seq::empty());
    assert(cutf(toks(c), 0, toks(c).len() as int) =~= toks(c));
}
pub proof fn lemma_cutf_text(c: MarkdownNode, f: int, m: int)
    requires is_text(c), 0 <= f < m <= toks(c).len()
    ensures cutf(toks(c), f, m) == toks(c).subrange(f, m)
{
    let e = Seq::<Head>::empty();
    lemma_toks_cont(c);
    lemma_units_nb(text_of(c).text.content@, marks_of(c));
    lemma_nb_take(toks(c), f); lemma_nb_take(toks(c), m);
    lemma_run_flat0(e, toks(c).take(f)); lemma_run_flat0(e, toks(c).take(m));
    assert(opens(e) =~= Seq::empty());
    assert(closes(0) =~= Seq::empty());
    assert(cutf(toks(c), f, m) =~= toks(c).subrange(f, m));
}
/// a boundary of the content is one of the child it is in
pub proof fn lemma_bnd_at(s: Seq<MarkdownNode>, i: int, p: int)
    requires 0 <= i < s.len(), bnd(flat(s), p), flat(s.take(i)).len() <= p <= flat(s.take(i)).len() + toks(s[i]).len()
    ensures bnd(toks(s[i]), p - flat(s.take(i)).len())
{
    let q = p - flat(s.take(i)).len();
    lemma_flat_at(s, i);
    if q < toks(s[i]).len() { assert(toks(s[i])[q] == flat(s)[p]); }
}
pub proof fn lemma_bnd_in(n: MarkdownNode, p: int)
    requires cont(n) is Some, bnd(toks(n), p + 1), 0 <= p
    ensures bnd(flat(kids(n)), p)
{
    lemma_toks_cont(n);
    if p < flat(kids(n)).len() { assert(flat(kids(n))[p] == toks(n)[p + 1]); }
}
/// the ranges that a cut of content asks for in a child
pub open spec fn cc_pos(s: Seq<MarkdownNode>, i: int) -> int { flat(s.take(i)).len() as int }
pub open spec fn cc_end(s: Seq<MarkdownNode>, i: int) -> int { flat(s.take(i)).len() + toks(s[i]).len() as int }
pub open spec fn vmin_s(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn vmax_s(a: int, b: int) -> int { if a >= b { a } else { b } }
/// what a cut asks of a child that is not kept whole, and what it makes of it
pub proof fn lemma_cut_child(s: Seq<MarkdownNode>, i: int, from: int, to: int)
    requires
        wf_all(s), 0 <= i < s.len(), 0 <= from < to <= flat(s).len(),
        bnd(flat(s), from), bnd(flat(s), to),
        cc_pos(s, i) < to, from < cc_end(s, i),
    ensures ({
        let c = s[i];
        let pos = cc_pos(s, i);
        let m = vmin_s(cc_end(s, i), to) - pos;
        let f = vmax_s(from - pos, 0);
        let cs = flat(kids(c)).len() as int;
        let cf = vmax_s(from - (pos + 1), 0);
        let ct = vmin_s(cs, to - (pos + 1));
        &&& 0 <= f < m <= toks(c).len()
        &&& cutf(toks(c), 0, toks(c).len() as int) == toks(c)
        &&& is_text(c) ==> bnd(toks(c), f) && bnd(toks(c), m) && cutf(toks(c), f, m) == toks(c).subrange(f, m)
        &&& !is_text(c) && cont(c) is None ==> from <= pos && cc_end(s, i) <= to
        &&& cont(c) is Some && (pos < from || cc_end(s, i) > to) ==> 0 <= cf <= ct <= cs && bnd(flat(kids(c)), cf) && bnd(flat(kids(c)), ct)
            && cutf(toks(c), f, m) == seq![Tok::Open(head(c))] + cutf(flat(kids(c)), cf, ct) + seq![Tok::Close]
    })
{
    let c = s[i];
    let pos = cc_pos(s, i);
    let m = vmin_s(cc_end(s, i), to) - pos;
    let f = vmax_s(from - pos, 0);
    lemma_wf_all(s);
    lemma_toks_cont(c);
    lemma_wf_nonempty(c);
    lemma_cutf_whole(c);
    if from >= pos { lemma_bnd_at(s, i, from); }
    if to <= cc_end(s, i) { lemma_bnd_at(s, i, to); }
    if is_text(c) {
        lemma_cutf_text(c, f, m);
        lemma_bnd_units0(text_of(c).text.content@, marks_of(c));
    } else if cont(c) is Some && (pos < from || cc_end(s, i) > to) {
        let cs = flat(kids(c)).len() as int;
        lemma_cutf_node(c, f, m);
        lemma_bnd_flat0(kids(c));
        if from > pos + 1 { lemma_bnd_in(c, from - (pos + 1)); }
        if to - (pos + 1) < cs { lemma_bnd_in(c, to - (pos + 1)); }
    }
}
/// `r` is what a cut makes of child `i`
pub open spec fn cut_kid(s: Seq<MarkdownNode>, i: int, from: int, to: int, r: MarkdownNode) -> bool {
    let c = s[i];
    let pos = cc_pos(s, i);
    if pos < from || cc_end(s, i) > to {
        if is_text(c) {
            is_text(r) && wf_node(r) && toks(r) == toks(c).subrange(vmax_s(from - pos, 0), vmin_s(toks(c).len() as int, to - pos))
        } else {
            cont(c) is Some && exists|f: Fragment| wf_frag(f)
                && flat(f.inner@) == cutf(flat(kids(c)), vmax_s(from - (pos + 1), 0), vmin_s(flat(kids(c)).len() as int, to - (pos + 1)))
                && r == #[trigger] with_content(c, f)
        }
    } else { r == c }
}
pub proof fn lemma_cut_push(s: Seq<MarkdownNode>, i: int, from: int, to: int, res: Seq<MarkdownNode>, r: MarkdownNode)
    requires
        wf_all(s), 0 <= i < s.len(), 0 <= from < to <= flat(s).len(),
        bnd(flat(s), from), bnd(flat(s), to),
        cc_pos(s, i) < to, from < cc_end(s, i),
        cut_kid(s, i, from, to, r), wf_all(res),
        flat(res) == (if cc_pos(s, i) <= from { Seq::empty() } else { cutf(flat(s), from, cc_pos(s, i)) }),
    ensures
        wf_node(r), wf_all(res.push(r)), flat(res.push(r)).len() == flat(res).len() + toks(r).len(),
        flat(res.push(r)) == cutf(flat(s), from, vmin_s(cc_end(s, i), to)),
        flat(s.take(i + 1)).len() == cc_end(s, i),
{
    let c = s[i];
    lemma_wf_all(s);
    lemma_wf_nonempty(c);
    lemma_cutf_step(s, i, from, to);
    lemma_cut_child(s, i, from, to);
    lemma_flat_push(res, r);
    lemma_wf_all(res);
    lemma_toks_cont(c);
    if cont(c) is Some && (cc_pos(s, i) < from || cc_end(s, i) > to) {
        let pos = cc_pos(s, i);
        let f = choose|f: Fragment| wf_frag(f)
                && flat(f.inner@) == cutf(flat(kids(c)), vmax_s(from - (pos + 1), 0), vmin_s(flat(kids(c)).len() as int, to - (pos + 1)))
                && r == #[trigger] with_content(c, f);
        lemma_with_content(c, f);
    }
    assert(wf_node(r));
    assert(forall|k: int| 0 <= k < res.len() ==> #[trigger] res.push(r)[k] == res[k]);
    assert(res.push(r).drop_last() =~= res);
}
/// the pieces of a text between two boundaries
pub proof fn lemma_bnd_text(n: MarkdownNode, from: int, to: int)
    requires is_text(n), wf_node(n), 0 <= from <= to <= toks(n).len(), bnd(toks(n), from), bnd(toks(n), to)
    ensures
        cbnd(text_of(n).text.content@, from), cbnd(text_of(n).text.content@, to),
        toks(n).subrange(0, toks(n).len() as int) == toks(n),
        forall|k: int| 0 <= k <= text_of(n).text.content@.len() && u16len(#[trigger] text_of(n).text.content@.take(k)) == from ==> ({
            let r = text_of(n).text.content@.skip(k);
            u16len(r) == toks(n).len() - from && cbnd(r, to - from)
                && forall|j: int| 0 <= j <= r.len() && u16len(#[trigger] r.take(j)) == to - from ==> units(r.take(j), marks_of(n)) == toks(n).subrange(from, to)
        }),
{
    let s = text_of(n).text.content@;
    let m = marks_of(n);
    lemma_toks_cont(n);
    lemma_bnd_units(s, m, from); lemma_bnd_units(s, m, to);
    assert(toks(n).subrange(0, toks(n).len() as int) =~= toks(n));
    assert forall|k: int| 0 <= k <= s.len() && u16len(#[trigger] s.take(k)) == from implies ({
            let r = s.skip(k);
            u16len(r) == toks(n).len() - from && cbnd(r, to - from)
                && forall|j: int| 0 <= j <= r.len() && u16len(#[trigger] r.take(j)) == to - from ==> units(r.take(j), marks_of(n)) == toks(n).subrange(from, to)
        }) by {
        let r = s.skip(k);
        assert(s =~= s.take(k) + r);
        lemma_u16_concat(s.take(k), r);
        lemma_units_concat(s.take(k), r, m);
        lemma_units_len(s.take(k), m);
        assert(units(r, m) =~= toks(n).skip(from));
        assert(bnd(units(r, m), to - from)) by { if to < toks(n).len() { assert(toks(n).skip(from)[to - from] == toks(n)[to]); } lemma_units_len(r, m); }
        lemma_bnd_units(r, m, to - from);
        assert forall|j: int| 0 <= j <= r.len() && u16len(#[trigger] r.take(j)) == to - from implies units(r.take(j), m) == toks(n).subrange(from, to) by {
            lemma_text_front(r, m, j);
            assert(toks(n).skip(from).take(to - from) =~= toks(n).subrange(from, to));
        }
    }
}
/// the front of a piece of text
pub proof fn lemma_text_front(s: Seq<char>, m: Seq<MarkdownMark>, k: int)
    requires 0 <= k <= s.len()
    ensures units(s.take(k), m) == units(s, m).take(u16len(s.take(k)) as int), u16len(s.take(k)) <= u16len(s)
{
    assert(s =~= s.take(k) + s.skip(k));
    lemma_u16_concat(s.take(k), s.skip(k));
    lemma_units_concat(s.take(k), s.skip(k), m);
    lemma_units_len(s.take(k), m);
    assert(units(s.take(k), m) =~= units(s, m).take(u16len(s.take(k)) as int));
}
pub proof fn lemma_empty()
    ensures flat(Seq::<MarkdownNode>::empty()) == Seq::<Tok>::empty(), wf_all(Seq::<MarkdownNode>::empty()),
        forall|t: Seq<Tok>, a: int, b: int| a >= b ==> #[trigger] cutf(t, a, b) == Seq::<Tok>::empty(),
        forall|f: Fragment| #[trigger] wf_frag(f) <==> f.size == flat(f.inner@).len() && wf_all(f.inner@),
        norm(Seq::<MarkdownNode>::empty()),
{ lemma_norm(Seq::<MarkdownNode>::empty()); }
