//@ONLY C16
// ------------------------------------------------------------------ tokens determine the document
/// the same node: the same type and attributes, the same text and marks, the same children
pub open spec fn same_node(a: MarkdownNode, b: MarkdownNode) -> bool decreases a, 0nat {
    &&& head(a) == head(b)
    &&& match a {
        MarkdownNode::Doc(x) => same_all(x.content.inner@, kids(b)),
        MarkdownNode::Heading(x) => same_all(x.content.inner@, kids(b)),
        MarkdownNode::CodeBlock(x) => same_all(x.content.inner@, kids(b)),
        MarkdownNode::Blockquote(x) => same_all(x.content.inner@, kids(b)),
        MarkdownNode::Paragraph(x) => same_all(x.content.inner@, kids(b)),
        MarkdownNode::BulletList(x) => same_all(x.content.inner@, kids(b)),
        MarkdownNode::OrderedList(x) => same_all(x.content.inner@, kids(b)),
        MarkdownNode::ListItem(x) => same_all(x.content.inner@, kids(b)),
        MarkdownNode::Text(x) => is_text(b) && x.text.content@ == text_of(b).text.content@ && x.marks.content@ == marks_of(b),
        _ => true,
    }
}
pub open spec fn same_all(s: Seq<MarkdownNode>, t: Seq<MarkdownNode>) -> bool decreases s, s.len() {
    s.len() == t.len() && (s.len() == 0 || (same_all(s.drop_last(), t.drop_last()) && same_node(s.last(), t.last())))
}
pub proof fn lemma_c16(c: char)
    ensures c16(c) == 1 || c16(c) == 2
{ }
/// texts with the same characters
pub proof fn lemma_unique_units(a: Seq<char>, b: Seq<char>, m: Seq<MarkdownMark>)
    requires units(a, m) == units(b, m)
    ensures a == b
    decreases a.len()
{
    lemma_units_len(a, m); lemma_units_len(b, m);
    if a.len() == 0 {
        if b.len() > 0 { lemma_units_ch(b, m); }
        assert(a =~= b);
    } else if b.len() == 0 {
        lemma_units_ch(a, m);
        assert(a =~= b);
    } else {
        let x = units(a, m);
        let p = units(a.drop_last(), m);
        let q = units(b.drop_last(), m);
        let u = ctoks(a.last(), m);
        let v = ctoks(b.last(), m);
        assert(x == p + u && x == q + v);
        assert(x.last() == u.last() && x.last() == v.last());
        assert(u.last()->Ch_0 == a.last() && v.last()->Ch_0 == b.last());
        assert(a.last() == b.last());
        assert(p =~= x.take(x.len() - u.len()));
        assert(q =~= x.take(x.len() - v.len()));
        lemma_unique_units(a.drop_last(), b.drop_last(), m);
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
    }
}
/// the shorter of two texts at the end of the same tokens cannot follow another text with its marks
pub proof fn lemma_text_end(s: Seq<MarkdownNode>, a: MarkdownNode, p: Seq<Tok>, c: Seq<char>, m: Seq<MarkdownMark>)
    requires wf_all(s), is_text(a), marks_of(a) == m, flat(s) + toks(a) == p + units(c, m), s.len() > 0 ==> !meets(s.last(), a)
    ensures toks(a).len() >= units(c, m).len()
{
    let x = flat(s) + toks(a);
    let y = units(c, m);
    if toks(a).len() < y.len() {
        let i = flat(s).len() - 1;
        lemma_units_all(c, m);
        assert(x[i] == y[i - p.len()]);
        assert(x[i] is Ch && x[i]->Ch_2 == m);
        assert(s.len() > 0);
        let b = s.last();
        lemma_wf_all(s); lemma_wf_cont(b); lemma_wf_nonempty(b); lemma_toks_cont(b);
        let z = toks(b);
        assert(flat(s) =~= flat(s.drop_last()) + z);
        assert(x[i] == z.last());
        if is_text(b) { lemma_units_all(text_of(b).text.content@, marks_of(b)); assert(z[z.len() - 1] is Ch && z[z.len() - 1]->Ch_2 == marks_of(b)); }
        assert(meets(b, a));
    }
}
pub proof fn lemma_units_all(s: Seq<char>, m: Seq<MarkdownMark>)
    ensures forall|i: int| 0 <= i < units(s, m).len() ==> (#[trigger] units(s, m)[i]) is Ch && units(s, m)[i]->Ch_2 == m
    decreases s.len()
{ if s.len() > 0 { lemma_units_all(s.drop_last(), m); } }
/// a node at the end is the shortest balanced end
pub proof fn lemma_node_end(p: Seq<Tok>, n: MarkdownNode, q: Seq<Tok>, k: MarkdownNode)
    requires p + toks(n) == q + toks(k), cont(n) is Some, cont(k) is Some
    ensures toks(n).len() <= toks(k).len()
{
    let t = toks(n);
    let u = toks(k);
    lemma_toks_cont(n); lemma_toks_cont(k);
    if t.len() > u.len() {
        let o = t.len() - u.len();
        assert((p + t).len() == (q + u).len()); assert(p.len() + o == q.len());
        assert(u =~= t.skip(o)) by {
            assert forall|i: int| 0 <= i < u.len() implies u[i] == t.skip(o)[i] by { assert((p + t)[p.len() + (o + i)] == t[o + i]); assert((q + u)[q.len() + i] == u[i]); }
        }
        lemma_bal_toks(n); lemma_bal_toks(k);
        lemma_bal_flat(kids(n));
        lemma_dz_concat(t.take(o), u);
        assert(t =~= t.take(o) + u);
        let e = Seq::<Tok>::empty();
        let b = flat(kids(n));
        lemma_empty_bal();
        lemma_frame(e, head(n), b, e);
        assert(e + seq![Tok::Open(head(n))] + b + seq![Tok::Close] + e =~= t);
        assert(lev(t, o) == 1 + lev(b, o - 1));
        assert(lev(t, o) == 0);
    }
}
pub proof fn lemma_unique(s: Seq<MarkdownNode>, t: Seq<MarkdownNode>)
    requires wf_all(s), wf_all(t), norm(s), norm(t), flat(s) == flat(t)
    ensures same_all(s, t)
    decreases s, s.len()
{
    hide(wf_node);
    lemma_wf_all(s); lemma_wf_all(t); lemma_norm(s); lemma_norm(t);
    if s.len() == 0 {
        if t.len() > 0 { lemma_wf_nonempty(t.last()); }
    } else if t.len() == 0 {
        lemma_wf_nonempty(s.last());
    } else {
        let a = s.last();
        let b = t.last();
        let x = s.drop_last();
        let y = t.drop_last();
        lemma_wf_nonempty(a); lemma_wf_nonempty(b); lemma_wf_cont(a); lemma_wf_cont(b); lemma_toks_cont(a); lemma_toks_cont(b);
        lemma_wf_all(x); lemma_wf_all(y); lemma_norm(x); lemma_norm(y); lemma_norm_node(a); lemma_norm_node(b);
        assert(forall|i: int| 0 <= i < x.len() ==> x[i] == s[i]);
        assert(forall|i: int| 0 <= i < y.len() ==> y[i] == t[i]);
        let f = flat(s);
        assert(f == flat(x) + toks(a) && f == flat(y) + toks(b));
        assert(f.last() == toks(a).last() && f.last() == toks(b).last());
        if is_text(a) { lemma_units_all(text_of(a).text.content@, marks_of(a)); assert(toks(a)[toks(a).len() - 1] is Ch); }
        if is_text(b) { lemma_units_all(text_of(b).text.content@, marks_of(b)); assert(toks(b)[toks(b).len() - 1] is Ch); }
        assert(cont(a) is Some <==> cont(b) is Some);
        assert(is_text(a) <==> is_text(b));
        if is_text(a) {
            assert(marks_of(a) == marks_of(b));
            if x.len() > 0 { assert(s[s.len() - 2] == x.last()); }
            if y.len() > 0 { assert(t[t.len() - 2] == y.last()); }
            lemma_text_end(x, a, flat(y), text_of(b).text.content@, marks_of(b));
            lemma_text_end(y, b, flat(x), text_of(a).text.content@, marks_of(a));
        } else if cont(a) is Some {
            lemma_node_end(flat(x), a, flat(y), b);
            lemma_node_end(flat(y), b, flat(x), a);
        }
        assert(toks(a).len() == toks(b).len());
        assert(flat(x) =~= f.take(f.len() - toks(a).len()));
        assert(flat(y) =~= f.take(f.len() - toks(b).len()));
        assert(toks(a) =~= f.skip(f.len() - toks(a).len()));
        assert(toks(b) =~= f.skip(f.len() - toks(b).len()));
        lemma_unique(x, y);
        if is_text(a) { lemma_unique_units(text_of(a).text.content@, text_of(b).text.content@, marks_of(a)); }
        else if cont(a) is Some {
            let u = toks(a);
            assert(u[0] == Tok::Open(head(a)) && u[0] == Tok::Open(head(b)));
            assert(flat(kids(a)) =~= u.subrange(1, u.len() - 1));
            assert(flat(kids(b)) =~= u.subrange(1, u.len() - 1));
            lemma_unique(kids(a), kids(b));
        } else { assert(toks(a)[0] == Tok::Leaf(head(a)) && toks(a)[0] == Tok::Leaf(head(b))); }
        assert(same_node(a, b));
    }
}
/// two documents with the same tokens are the same
pub proof fn lemma_unique_node(a: MarkdownNode, b: MarkdownNode)
    requires wf_node(a), wf_node(b), norm_node(a), norm_node(b), !is_text(a), head(a) == head(b), flat(kids(a)) == flat(kids(b))
    ensures same_node(a, b)
{
    lemma_wf_cont(a); lemma_wf_cont(b); lemma_norm_node(a); lemma_norm_node(b);
    lemma_empty();
    lemma_unique(kids(a), kids(b));
}
//@END
