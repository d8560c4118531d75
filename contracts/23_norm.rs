// ------------------------------------------------------------------ texts that meet are joined
/// Trusted: vectors and strings with the same contents are the same
#[verifier::external_body]
pub proof fn axiom_same_marks(a: Vec<MarkdownMark>, b: Vec<MarkdownMark>) requires a@ == b@ ensures a == b { }

//@ONLY C16,C17
/// two texts with the same marks
pub open spec fn meets(a: MarkdownNode, b: MarkdownNode) -> bool { is_text(a) && is_text(b) && marks_of(a) == marks_of(b) }
/// looks the same to its neighbours
pub open spec fn alike(a: MarkdownNode, b: MarkdownNode) -> bool { is_text(a) == is_text(b) && marks_of(a) == marks_of(b) }
/// no two adjacent texts with the same marks, here and below
pub open spec fn norm0(s: Seq<MarkdownNode>) -> bool decreases s, s.len() {
    s.len() == 0 || (norm0(s.drop_last()) && norm_node0(s.last()) && !(s.len() > 1 && meets(s[s.len() - 2], s.last())))
}
pub open spec fn norm_node0(n: MarkdownNode) -> bool decreases n, 0nat {
    match n {
        MarkdownNode::Doc(b) => norm0(b.content.inner@),
        MarkdownNode::Heading(a) => norm0(a.content.inner@),
        MarkdownNode::CodeBlock(a) => norm0(a.content.inner@),
        MarkdownNode::Blockquote(b) => norm0(b.content.inner@),
        MarkdownNode::Paragraph(b) => norm0(b.content.inner@),
        MarkdownNode::BulletList(a) => norm0(a.content.inner@),
        MarkdownNode::OrderedList(a) => norm0(a.content.inner@),
        MarkdownNode::ListItem(b) => norm0(b.content.inner@),
        _ => true,
    }
}
//@END
//@ONLY !C16,C17
// the other properties do not depend on this one
pub open spec fn meets(a: MarkdownNode, b: MarkdownNode) -> bool { false }
pub open spec fn alike(a: MarkdownNode, b: MarkdownNode) -> bool { true }
pub open spec fn norm0(s: Seq<MarkdownNode>) -> bool { true }
pub open spec fn norm_node0(n: MarkdownNode) -> bool { true }
//@END
/// the same, kept closed to keep queries small
#[verifier::opaque]
pub open spec fn norm(s: Seq<MarkdownNode>) -> bool { norm0(s) }
#[verifier::opaque]
pub open spec fn norm_node(n: MarkdownNode) -> bool { norm_node0(n) }
pub proof fn lemma_norm(s: Seq<MarkdownNode>)
    ensures norm(s) <==> (forall|i: int| 0 <= i < s.len() ==> norm_node(#[trigger] s[i])) && (forall|i: int| 0 <= i < s.len() - 1 ==> !meets(#[trigger] s[i], s[i + 1]))
    decreases s.len()
{
    reveal(norm); reveal(norm_node);
    if s.len() > 0 {
        let u = s.drop_last();
        lemma_norm(u);
        if norm(s) {
            assert forall|i: int| 0 <= i < s.len() implies norm_node(#[trigger] s[i]) by { if i < u.len() { assert(u[i] == s[i]); } }
            assert forall|i: int| 0 <= i < s.len() - 1 implies !meets(#[trigger] s[i], s[i + 1]) by { if i < u.len() - 1 { assert(u[i] == s[i] && u[i + 1] == s[i + 1]); } }
        }
        if (forall|i: int| 0 <= i < s.len() ==> norm_node(#[trigger] s[i])) && (forall|i: int| 0 <= i < s.len() - 1 ==> !meets(#[trigger] s[i], s[i + 1])) {
            assert forall|i: int| 0 <= i < u.len() implies norm_node(#[trigger] u[i]) by { assert(u[i] == s[i]); }
            assert forall|i: int| 0 <= i < u.len() - 1 implies !meets(#[trigger] u[i], u[i + 1]) by { assert(u[i] == s[i] && u[i + 1] == s[i + 1]); }
            assert(s.last() == s[s.len() - 1]);
        }
    }
}
pub proof fn lemma_norm_node(n: MarkdownNode)
    ensures norm_node(n) <==> norm(kids(n)), cont(n) is None ==> norm_node(n)
{ reveal(norm); reveal(norm_node); if cont(n) is None { lemma_norm(kids(n)); } }
pub proof fn lemma_norm_with(n: MarkdownNode, c: Fragment)
    requires norm(c.inner@)
    ensures norm_node(with_content(n, c))
{ let m = with_content(n, c); lemma_norm_node(m); assert(cont(m) is None || kids(m) == c.inner@); }
pub proof fn lemma_norm_push(s: Seq<MarkdownNode>, n: MarkdownNode)
    requires norm(s), norm_node(n), s.len() > 0 ==> !meets(s.last(), n)
    ensures norm(s.push(n))
{ reveal(norm); reveal(norm_node); assert(s.push(n).drop_last() =~= s); }
/// a text joined to the last one
pub proof fn lemma_norm_last(s: Seq<MarkdownNode>, x: MarkdownNode)
    requires norm(s), s.len() > 0, norm_node(x), alike(s.last(), x)
    ensures norm(s.update(s.len() - 1, x))
{ reveal(norm); reveal(norm_node); let u = s.update(s.len() - 1, x); assert(u.drop_last() =~= s.drop_last()); }
pub proof fn lemma_norm_sub(s: Seq<MarkdownNode>, i: int, j: int)
    requires norm(s), 0 <= i <= j <= s.len()
    ensures norm(s.subrange(i, j))
{ lemma_norm(s); lemma_norm(s.subrange(i, j)); }
pub proof fn lemma_norm_update(s: Seq<MarkdownNode>, i: int, x: MarkdownNode)
    requires norm(s), 0 <= i < s.len(), norm_node(x), alike(s[i], x)
    ensures norm(s.update(i, x))
{ lemma_norm(s); lemma_norm(s.update(i, x)); }
pub proof fn lemma_norm_concat(a: Seq<MarkdownNode>, b: Seq<MarkdownNode>)
    requires norm(a), norm(b), a.len() > 0 && b.len() > 0 ==> !meets(a.last(), b[0])
    ensures norm(a + b)
{ lemma_norm(a); lemma_norm(b); lemma_norm(a + b); }
/// the nodes of the path of a position
pub proof fn lemma_norm_path(a: ResolvedPos, d: int)
    requires wf_rp(a), 0 <= d <= a.depth, norm_node(rnode(a, 0))
    ensures norm_node(rnode(a, d)), norm(rkids(a, d))
    decreases d
{
    lemma_norm_node(rnode(a, d));
    if d > 0 {
        lemma_norm_path(a, d - 1);
        lemma_rp_level(a, d - 1);
        lemma_norm(rkids(a, d - 1));
    }
}
/// a node with normal content, and leaves
pub proof fn lemma_cut_norm(n: MarkdownNode)
    ensures
        norm_node(n) ==> norm(kids(n)),
        forall|c: Fragment| norm(c.inner@) ==> norm_node(#[trigger] with_content(n, c)),
        forall|c: Fragment| alike(n, #[trigger] with_content(n, c)),
        forall|m: MarkdownNode| cont(m) is None ==> #[trigger] norm_node(m),
{
    lemma_norm_node(n);
    assert forall|c: Fragment| norm(c.inner@) implies norm_node(#[trigger] with_content(n, c)) by { lemma_norm_with(n, c); }
    assert forall|m: MarkdownNode| cont(m) is None implies #[trigger] norm_node(m) by { lemma_norm_node(m); }
}
pub proof fn lemma_norm_append(a: Seq<MarkdownNode>, b: Seq<MarkdownNode>, c: Seq<MarkdownNode>, d: Seq<MarkdownNode>)
    requires
        a.len() > 0, b.len() > 0,
        (c =~= a && d =~= b && !meets(a.last(), b[0])) || (c =~= a.update(a.len() - 1, c.last()) && d =~= b.remove(0) && is_join(a.last(), b[0], c.last()))
    ensures norm(a) && norm(b) ==> norm(c + d)
{
    if norm(a) && norm(b) {
        lemma_norm(a); lemma_norm(b); lemma_norm(c + d); lemma_cut_norm(c.last());
    }
}
