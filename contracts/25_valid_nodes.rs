// ------------------------------------------------------------------ valid documents
/// every node has content that the rules of its type allow
pub open spec fn valid_node0(n: MarkdownNode) -> bool decreases n, 0nat {
    valid_content(ty(n), kids(n)) && match n {
        MarkdownNode::Doc(b) => valid_all0(b.content.inner@),
        MarkdownNode::Heading(a) => valid_all0(a.content.inner@),
        MarkdownNode::CodeBlock(a) => valid_all0(a.content.inner@),
        MarkdownNode::Blockquote(b) => valid_all0(b.content.inner@),
        MarkdownNode::Paragraph(b) => valid_all0(b.content.inner@),
        MarkdownNode::BulletList(a) => valid_all0(a.content.inner@),
        MarkdownNode::OrderedList(a) => valid_all0(a.content.inner@),
        MarkdownNode::ListItem(b) => valid_all0(b.content.inner@),
        _ => true,
    }
}
pub open spec fn valid_all0(s: Seq<MarkdownNode>) -> bool decreases s, s.len() {
    s.len() == 0 || (valid_all0(s.drop_last()) && valid_node0(s.last()))
}
/// the same, kept closed to keep queries small
#[verifier::opaque]
pub open spec fn valid_node(n: MarkdownNode) -> bool { valid_node0(n) }
/// the same, on tokens
pub open spec fn vdoc(n: MarkdownNode) -> bool { vtoks(ty(n), flat(kids(n))) && tvalid(flat(kids(n))) }

pub proof fn lemma_tvalid_concat(a: Seq<Tok>, b: Seq<Tok>)
    requires bal(a), bal(b)
    ensures tvalid(a + b) <==> tvalid(a) && tvalid(b)
{
    hide(vtoks); hide(lev); hide(vnode_at);
    let t = a + b;
    let l = a.len() as int;
    lemma_bal_concat(a, b);
    lemma_lev_concat(a, b);
    lemma_lev_ends(b);
    if tvalid(t) {
        assert forall|x: int, y: int| #[trigger] content_at(a, x, y) implies vnode_at(a, x, y) by { lemma_content_shift(a, t, x, y, 0, x - 1); }
        assert forall|x: int, y: int| #[trigger] content_at(b, x, y) implies vnode_at(b, x, y) by {
            assert forall|i: int| x - 1 <= i <= y implies #[trigger] b[i] == t[i + l] by { }
            lemma_content_shift(b, t, x, y, l, x - 1 + l);
            assert(content_at(t, x + l, y + l));
        }
    }
    if tvalid(a) && tvalid(b) {
        assert forall|x: int, y: int| #[trigger] content_at(t, x, y) implies vnode_at(t, x, y) by {
            lemma_lev_step(t, x - 1);
            assert(lev(t, x - 1) >= 0);
            assert(lev(t, l) == dz(a) + lev(b, 0));
            if x <= l <= y { assert(lev(t, l) >= lev(t, x)); assert(false); }
            if y < l { lemma_content_shift(t, a, x, y, 0, x - 1); }
            else {
                assert forall|i: int| x - 1 <= i <= y implies #[trigger] t[i] == b[i + (-l)] by { }
                lemma_content_shift(t, b, x, y, -l, x - 1 - l);
                assert(content_at(b, x + (-l), y + (-l)));
            }
        }
    }
}
pub proof fn lemma_tvalid_framed(h: Head, b: Seq<Tok>)
    requires bal(b)
    ensures tvalid(seq![Tok::Open(h)] + b + seq![Tok::Close]) <==> vtoks(head_ty(h), b) && tvalid(b)
{
    hide(vtoks); hide(lev);
    let e = Seq::<Tok>::empty();
    let t = seq![Tok::Open(h)] + b + seq![Tok::Close];
    lemma_empty_bal();
    assert(e + seq![Tok::Open(h)] + b + seq![Tok::Close] + e =~= t);
    lemma_content_node(e, h, b, e);
    if tvalid(t) {
        assert(content_at(t, 1, 1 + b.len() as int) && vnode_at(t, 1, 1 + b.len() as int));
        assert forall|x: int, y: int| #[trigger] content_at(b, x, y) implies vnode_at(b, x, y) by {
            lemma_content_in(e, h, b, e, x, y);
            assert(content_at(t, x + 1, y + 1));
            assert(vnode_at(t, x + 1, y + 1));
        }
    }
    if vtoks(head_ty(h), b) && tvalid(b) {
        assert forall|x: int, y: int| #[trigger] content_at(t, x, y) implies vnode_at(t, x, y) by {
            lemma_content_of(e, h, b, e, x, y, x);
        }
    }
}
pub proof fn lemma_tvalid_flat(t: Seq<Tok>)
    requires no_brackets(t)
    ensures tvalid(t)
{
    assert forall|x: int, y: int| #[trigger] content_at(t, x, y) implies vnode_at(t, x, y) by { assert(t[x - 1] is Open); }
}
pub proof fn lemma_valid_toks(n: MarkdownNode)
    requires wf_node(n)
    ensures valid_node0(n) <==> tvalid(toks(n)), valid_node0(n) <==> vdoc(n)
    decreases n, 0nat
{
    hide(vtoks); hide(tvalid); hide(valid_content);
    lemma_toks_cont(n); lemma_wf_cont(n);
    lemma_empty();
    lemma_vtoks(ty(n), kids(n));
    if cont(n) is Some {
        lemma_valid_flat(kids(n));
        lemma_bal_flat(kids(n));
        lemma_tvalid_framed(head(n), flat(kids(n)));
    } else {
        lemma_leaf_kids(n);
        lemma_tvalid_flat(Seq::<Tok>::empty());
        if is_text(n) { lemma_units_nb(text_of(n).text.content@, marks_of(n)); }
        lemma_tvalid_flat(toks(n));
    }
}
pub proof fn lemma_leaf_kids(n: MarkdownNode)
    requires cont(n) is None
    ensures valid_content(ty(n), kids(n)), flat(kids(n)) == Seq::<Tok>::empty()
{ assert(tys(kids(n)).len() == 0); lemma_empty(); }
pub proof fn lemma_valid_flat(s: Seq<MarkdownNode>)
    requires wf_all(s)
    ensures valid_all0(s) <==> tvalid(flat(s))
    decreases s, s.len()
{
    hide(vtoks); hide(tvalid); hide(valid_content);
    if s.len() > 0 {
        lemma_valid_flat(s.drop_last());
        lemma_valid_toks(s.last());
        lemma_bal_flat(s.drop_last()); lemma_bal_toks(s.last());
        lemma_tvalid_concat(flat(s.drop_last()), toks(s.last()));
    } else { lemma_tvalid_flat(Seq::<Tok>::empty()); }
}
pub proof fn lemma_valid(n: MarkdownNode)
    requires wf_node(n)
    ensures valid_node(n) <==> vdoc(n)
{ reveal(valid_node); lemma_valid_toks(n); }
