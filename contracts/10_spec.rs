// ------------------------------------------------------------------ UTF-16
pub open spec fn c16(c: char) -> nat { if (c as u32) < 0x10000 { 1 } else { 2 } }
pub open spec fn u16len(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { u16len(s.drop_last()) + c16(s.last()) }
}
/// `p` UTF-16 units into `s` is between two characters
pub open spec fn cbnd(s: Seq<char>, p: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] u16len(s.take(k)) == p }

// ------------------------------------------------------------------ marks
pub open spec fn mark_ty(m: MarkdownMark) -> MarkdownMarkType {
    match m {
        MarkdownMark::Strong => MarkdownMarkType::Strong,
        MarkdownMark::Em => MarkdownMarkType::Em,
        MarkdownMark::Code => MarkdownMarkType::Code,
        MarkdownMark::Link { .. } => MarkdownMarkType::Link,
    }
}
/// strictly increasing mark types: sorted, and at most one mark of each type
pub open spec fn sorted_marks(s: Seq<MarkdownMark>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> mark_ty(#[trigger] s[i]).rank() < mark_ty(#[trigger] s[j]).rank()
}

/// `s` with `m` added: in the place of its type's mark, or inserted in the order of types
pub open spec fn madd(s: Seq<MarkdownMark>, m: MarkdownMark) -> Seq<MarkdownMark> decreases s.len() {
    if s.len() == 0 { seq![m] }
    else if mark_ty(m).rank() > mark_ty(s.last()).rank() { s.push(m) }
    else if mark_ty(m).rank() == mark_ty(s.last()).rank() { s.drop_last().push(m) }
    else { madd(s.drop_last(), m).push(s.last()) }
}
/// `s` without `m`
pub open spec fn mrem(s: Seq<MarkdownMark>, m: MarkdownMark) -> Seq<MarkdownMark> decreases s.len() {
    if s.len() == 0 { s }
    else if s.last() == m { s.drop_last() }
    else { mrem(s.drop_last(), m).push(s.last()) }
}
// ------------------------------------------------------------------ nodes
pub enum Head {
    Doc, Heading(HeadingAttrs), CodeBlock(CodeBlockAttrs), Text, Blockquote, Paragraph,
    BulletList(BulletListAttrs), OrderedList(OrderedListAttrs), ListItem, HorizontalRule, HardBreak, Image(ImageAttrs),
}
pub open spec fn head(n: MarkdownNode) -> Head {
    match n {
        MarkdownNode::Doc(_) => Head::Doc,
        MarkdownNode::Heading(a) => Head::Heading(a.attrs),
        MarkdownNode::CodeBlock(a) => Head::CodeBlock(a.attrs),
        MarkdownNode::Text(_) => Head::Text,
        MarkdownNode::Blockquote(_) => Head::Blockquote,
        MarkdownNode::Paragraph(_) => Head::Paragraph,
        MarkdownNode::BulletList(a) => Head::BulletList(a.attrs),
        MarkdownNode::OrderedList(a) => Head::OrderedList(a.attrs),
        MarkdownNode::ListItem(_) => Head::ListItem,
        MarkdownNode::HorizontalRule => Head::HorizontalRule,
        MarkdownNode::HardBreak => Head::HardBreak,
        MarkdownNode::Image(a) => Head::Image(a.attrs),
    }
}
pub open spec fn head_ty(h: Head) -> MarkdownNodeType {
    match h {
        Head::Doc => MarkdownNodeType::Doc,
        Head::Heading(_) => MarkdownNodeType::Heading,
        Head::CodeBlock(_) => MarkdownNodeType::CodeBlock,
        Head::Text => MarkdownNodeType::Text,
        Head::Blockquote => MarkdownNodeType::Blockquote,
        Head::Paragraph => MarkdownNodeType::Paragraph,
        Head::BulletList(_) => MarkdownNodeType::BulletList,
        Head::OrderedList(_) => MarkdownNodeType::OrderedList,
        Head::ListItem => MarkdownNodeType::ListItem,
        Head::HorizontalRule => MarkdownNodeType::HorizontalRule,
        Head::HardBreak => MarkdownNodeType::HardBreak,
        Head::Image(_) => MarkdownNodeType::Image,
    }
}
pub open spec fn ty(n: MarkdownNode) -> MarkdownNodeType { head_ty(head(n)) }

/// the content of a node that can have any
pub open spec fn cont(n: MarkdownNode) -> Option<Fragment> {
    match n {
        MarkdownNode::Doc(b) => Some(b.content),
        MarkdownNode::Heading(a) => Some(a.content),
        MarkdownNode::CodeBlock(a) => Some(a.content),
        MarkdownNode::Text(_) => None,
        MarkdownNode::Blockquote(b) => Some(b.content),
        MarkdownNode::Paragraph(b) => Some(b.content),
        MarkdownNode::BulletList(a) => Some(a.content),
        MarkdownNode::OrderedList(a) => Some(a.content),
        MarkdownNode::ListItem(b) => Some(b.content),
        MarkdownNode::HorizontalRule => None,
        MarkdownNode::HardBreak => None,
        MarkdownNode::Image(_) => None,
    }
}
pub open spec fn with_content(n: MarkdownNode, c: Fragment) -> MarkdownNode {
    match n {
        MarkdownNode::Doc(b) => MarkdownNode::Doc(Block { content: c }),
        MarkdownNode::Heading(a) => MarkdownNode::Heading(AttrNode { attrs: a.attrs, content: c }),
        MarkdownNode::CodeBlock(a) => MarkdownNode::CodeBlock(AttrNode { attrs: a.attrs, content: c }),
        MarkdownNode::Blockquote(b) => MarkdownNode::Blockquote(Block { content: c }),
        MarkdownNode::Paragraph(b) => MarkdownNode::Paragraph(Block { content: c }),
        MarkdownNode::BulletList(a) => MarkdownNode::BulletList(AttrNode { attrs: a.attrs, content: c }),
        MarkdownNode::OrderedList(a) => MarkdownNode::OrderedList(AttrNode { attrs: a.attrs, content: c }),
        MarkdownNode::ListItem(b) => MarkdownNode::ListItem(Block { content: c }),
        o => o,
    }
}
pub open spec fn kids(n: MarkdownNode) -> Seq<MarkdownNode> {
    match cont(n) { Some(c) => c.inner@, None => Seq::empty() }
}
pub open spec fn is_text(n: MarkdownNode) -> bool { n is Text }
pub open spec fn is_leaf(n: MarkdownNode) -> bool { cont(n) is None }
pub open spec fn text_of(n: MarkdownNode) -> TextNode { n->Text_0 }
pub open spec fn marks_of(n: MarkdownNode) -> Seq<MarkdownMark> { match n { MarkdownNode::Text(t) => t.marks.content@, _ => Seq::empty() } }

pub open spec fn is_inline_ty(t: MarkdownNodeType) -> bool { t is Text || t is Image || t is HardBreak }
/// the positions inside of a node: the characters of a text, or the tokens of the content
pub open spec fn ntoks(n: MarkdownNode) -> Seq<Tok> { if is_text(n) { toks(n) } else { flat(kids(n)) } }
pub open spec fn nsize(n: MarkdownNode) -> nat { ntoks(n).len() }
pub open spec fn csize(n: MarkdownNode) -> usize { match cont(n) { Some(c) => c.size, None => 0 } }
// ------------------------------------------------------------------ the flat view of a document
// Every token takes one position.  A character outside of the Basic Multilingual Plane is two
// tokens, so tokens are exactly the positions of the integer indexing scheme.
pub enum Tok { Open(Head), Close, Leaf(Head), Ch(char, bool, Seq<MarkdownMark>) }

pub open spec fn ctoks(c: char, m: Seq<MarkdownMark>) -> Seq<Tok> {
    if c16(c) == 1 { seq![Tok::Ch(c, false, m)] } else { seq![Tok::Ch(c, false, m), Tok::Ch(c, true, m)] }
}
pub open spec fn units(s: Seq<char>, m: Seq<MarkdownMark>) -> Seq<Tok> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { units(s.drop_last(), m) + ctoks(s.last(), m) }
}
pub open spec fn toks(n: MarkdownNode) -> Seq<Tok> decreases n, 0nat {
    match n {
        MarkdownNode::Doc(b) => seq![Tok::Open(head(n))] + flat(b.content.inner@) + seq![Tok::Close],
        MarkdownNode::Heading(a) => seq![Tok::Open(head(n))] + flat(a.content.inner@) + seq![Tok::Close],
        MarkdownNode::CodeBlock(a) => seq![Tok::Open(head(n))] + flat(a.content.inner@) + seq![Tok::Close],
        MarkdownNode::Text(t) => units(t.text.content@, t.marks.content@),
        MarkdownNode::Blockquote(b) => seq![Tok::Open(head(n))] + flat(b.content.inner@) + seq![Tok::Close],
        MarkdownNode::Paragraph(b) => seq![Tok::Open(head(n))] + flat(b.content.inner@) + seq![Tok::Close],
        MarkdownNode::BulletList(a) => seq![Tok::Open(head(n))] + flat(a.content.inner@) + seq![Tok::Close],
        MarkdownNode::OrderedList(a) => seq![Tok::Open(head(n))] + flat(a.content.inner@) + seq![Tok::Close],
        MarkdownNode::ListItem(b) => seq![Tok::Open(head(n))] + flat(b.content.inner@) + seq![Tok::Close],
        _ => seq![Tok::Leaf(head(n))],
    }
}
pub open spec fn flat(s: Seq<MarkdownNode>) -> Seq<Tok> decreases s, s.len() {
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + toks(s.last()) }
}
/// the tokens inside of a node
pub open spec fn inner_toks(n: MarkdownNode) -> Seq<Tok> { flat(kids(n)) }

/// a position that is not in the middle of a character
pub open spec fn bnd(t: Seq<Tok>, p: int) -> bool { !(0 <= p < t.len() && t[p] is Ch && t[p]->Ch_1) }

// ------------------------------------------------------------------ representation invariant
/// the cached length is exact, the text is not empty, and the marks are a set
pub open spec fn wf_text(t: TextNode) -> bool { t.text.content@.len() > 0 && t.text.len_utf16 == u16len(t.text.content@) && sorted_marks(t.marks.content@) }
pub open spec fn wf_node(n: MarkdownNode) -> bool decreases n, 0nat {
    match n {
        MarkdownNode::Doc(b) => b.content.size == flat(b.content.inner@).len() && wf_all(b.content.inner@),
        MarkdownNode::Heading(a) => a.content.size == flat(a.content.inner@).len() && wf_all(a.content.inner@),
        MarkdownNode::CodeBlock(a) => a.content.size == flat(a.content.inner@).len() && wf_all(a.content.inner@),
        MarkdownNode::Text(t) => wf_text(t),
        MarkdownNode::Blockquote(b) => b.content.size == flat(b.content.inner@).len() && wf_all(b.content.inner@),
        MarkdownNode::Paragraph(b) => b.content.size == flat(b.content.inner@).len() && wf_all(b.content.inner@),
        MarkdownNode::BulletList(a) => a.content.size == flat(a.content.inner@).len() && wf_all(a.content.inner@),
        MarkdownNode::OrderedList(a) => a.content.size == flat(a.content.inner@).len() && wf_all(a.content.inner@),
        MarkdownNode::ListItem(b) => b.content.size == flat(b.content.inner@).len() && wf_all(b.content.inner@),
        _ => true,
    }
}
pub open spec fn wf_all(s: Seq<MarkdownNode>) -> bool decreases s, s.len() {
    s.len() == 0 || (wf_all(s.drop_last()) && wf_node(s.last()))
}
pub open spec fn wf_frag(f: Fragment) -> bool { f.size == flat(f.inner@).len() && wf_all(f.inner@) }

/// Trusted: a document in memory occupies at least one byte per token, so its size fits `isize`.
#[verifier::external_body]
pub proof fn axiom_fits(v: Vec<MarkdownNode>) ensures flat(v@).len() <= isize::MAX - 2 { }
#[verifier::external_body]
pub proof fn axiom_node_fits(n: MarkdownNode) ensures toks(n).len() <= isize::MAX - 2 { }
#[verifier::external_body]
pub proof fn axiom_str_fits(s: String) ensures u16len(s@) <= isize::MAX - 2 { }
