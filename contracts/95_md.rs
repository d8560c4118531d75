//@ONLY C15
use core::num::TryFromIntError;
// ------------------------------------------------------------------ Markdown: the external types
// Mirrors of the types of `pulldown_cmark`: a string type (only its text counts), the tags and events.
#[verifier::external_body]
pub struct CowStr<'a> { x: core::marker::PhantomData<&'a ()> }
impl<'a> View for CowStr<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> CowStr<'a> {
    #[verifier::external_body]
    pub fn Borrowed(s: &'a str) -> (r: CowStr<'a>) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn Inlined(s: InlineStr) -> (r: CowStr<'a>) ensures r@ == seq![s.c] { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
/// a short string; only those of one character are made
pub struct InlineStr { pub c: char }
impl InlineStr { pub fn from(c: char) -> (r: InlineStr) ensures r.c == c { InlineStr { c } } }
pub enum LinkType { Inline, Reference, ReferenceUnknown, Collapsed, CollapsedUnknown, Shortcut, ShortcutUnknown, Autolink, Email }
pub enum Alignment { None, Left, Center, Right }
pub enum CodeBlockKind<'a> { Indented, Fenced(CowStr<'a>) }
pub enum Tag<'a> {
    Paragraph, Heading(u32), BlockQuote, CodeBlock(CodeBlockKind<'a>), List(Option<u64>), Item, FootnoteDefinition(CowStr<'a>),
    Table(Vec<Alignment>), TableHead, TableRow, TableCell, Emphasis, Strong, Strikethrough,
    Link(LinkType, CowStr<'a>, CowStr<'a>), Image(LinkType, CowStr<'a>, CowStr<'a>),
}
pub enum Event<'a> {
    Start(Tag<'a>), End(Tag<'a>), Text(CowStr<'a>), Code(CowStr<'a>), Html(CowStr<'a>), FootnoteReference(CowStr<'a>),
    SoftBreak, HardBreak, Rule, TaskListMarker(bool),
}
/// the parser: an iterator over the events of a text, which come to an end
#[verifier::external_body]
pub struct Parser<'a> { x: core::marker::PhantomData<&'a ()> }
/// the events of a text (what they are is up to the parser)
pub uninterp spec fn md_events(text: Seq<char>) -> Seq<EvS>;
impl<'a> Parser<'a> {
    pub uninterp spec fn events(&self) -> Seq<EvS>;
    #[verifier::external_body]
    pub fn new(text: &'a str) -> (r: Parser<'a>) ensures r.events() == md_events(text@) { unimplemented!() }
}
/// what a `for` takes over
pub trait Owned<T>: Sized { spec fn holds(&self, v: Seq<T>) -> bool; fn owned(self) -> (r: Vec<T>) ensures self.holds(r@); }
impl<T> Owned<T> for Vec<T> { open spec fn holds(&self, v: Seq<T>) -> bool { v == self@ } fn owned(self) -> Vec<T> { self } }
impl<'a> Owned<Event<'a>> for Parser<'a> {
    open spec fn holds(&self, v: Seq<Event<'a>>) -> bool { evs_of(v) == self.events() }
    #[verifier::external_body]
    fn owned(self) -> Vec<Event<'a>> { unimplemented!() }
}
pub fn vowned<T, O: Owned<T>>(o: O) -> (r: Vec<T>) ensures o.holds(r@) { o.owned() }
/// an element moved out of a vector that nobody else looks at any more
#[verifier::external_body]
pub fn vec_move<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn vmem_take(v: &mut Vec<MarkdownNode>) -> (r: Vec<MarkdownNode>) ensures r@ == old(v)@, final(v)@ == Seq::<MarkdownNode>::empty() { std::mem::take(v) }

// ------------------------------------------------------------------ Markdown: events
pub enum TagS {
    Paragraph, Heading(u32), BlockQuote, CodeBlock(Option<Seq<char>>), List(Option<u64>), Item, Emphasis, Strong,
    Link(Seq<char>, Seq<char>), Image(Seq<char>, Seq<char>), Other,
}
pub enum EvS { Start(TagS), End(TagS), Text(Seq<char>), Code(Seq<char>), HardBreak, Rule, Other }
pub open spec fn tag_of(t: Tag) -> TagS {
    match t {
        Tag::Paragraph => TagS::Paragraph,
        Tag::Heading(l) => TagS::Heading(l),
        Tag::BlockQuote => TagS::BlockQuote,
        Tag::CodeBlock(CodeBlockKind::Indented) => TagS::CodeBlock(None),
        Tag::CodeBlock(CodeBlockKind::Fenced(p)) => TagS::CodeBlock(Some(p@)),
        Tag::List(o) => TagS::List(o),
        Tag::Item => TagS::Item,
        Tag::Emphasis => TagS::Emphasis,
        Tag::Strong => TagS::Strong,
        Tag::Link(_, h, t) => TagS::Link(h@, t@),
        Tag::Image(_, s, t) => TagS::Image(s@, t@),
        _ => TagS::Other,
    }
}
pub open spec fn ev_of(e: Event) -> EvS {
    match e {
        Event::Start(t) => EvS::Start(tag_of(t)),
        Event::End(t) => EvS::End(tag_of(t)),
        Event::Text(s) => EvS::Text(s@),
        Event::Code(s) => EvS::Code(s@),
        Event::HardBreak => EvS::HardBreak,
        Event::Rule => EvS::Rule,
        _ => EvS::Other,
    }
}
pub open spec fn evs_of(s: Seq<Event>) -> Seq<EvS> { s.map_values(|e: Event| ev_of(e)) }

// ------------------------------------------------------------------ Markdown: the tree of a document
pub enum T { Node(Head, Seq<T>), Text(Seq<char>, Seq<MarkdownMark>) }
pub open spec fn abs(n: MarkdownNode) -> T decreases n, 0nat {
    match n {
        MarkdownNode::Doc(b) => T::Node(head(n), abs_all(b.content.inner@)),
        MarkdownNode::Heading(a) => T::Node(head(n), abs_all(a.content.inner@)),
        MarkdownNode::CodeBlock(a) => T::Node(head(n), abs_all(a.content.inner@)),
        MarkdownNode::Text(t) => T::Text(t.text.content@, t.marks.content@),
        MarkdownNode::Blockquote(b) => T::Node(head(n), abs_all(b.content.inner@)),
        MarkdownNode::Paragraph(b) => T::Node(head(n), abs_all(b.content.inner@)),
        MarkdownNode::BulletList(a) => T::Node(head(n), abs_all(a.content.inner@)),
        MarkdownNode::OrderedList(a) => T::Node(head(n), abs_all(a.content.inner@)),
        MarkdownNode::ListItem(b) => T::Node(head(n), abs_all(b.content.inner@)),
        _ => T::Node(head(n), Seq::empty()),
    }
}
pub open spec fn abs_all(s: Seq<MarkdownNode>) -> Seq<T> decreases s, s.len() {
    if s.len() == 0 { Seq::empty() } else { abs_all(s.drop_last()).push(abs(s.last())) }
}
pub proof fn lemma_abs_all(s: Seq<MarkdownNode>)
    ensures abs_all(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] abs_all(s)[i] == abs(s[i])
    decreases s.len()
{ if s.len() > 0 { lemma_abs_all(s.drop_last()); } }
pub proof fn lemma_abs_push(s: Seq<MarkdownNode>, n: MarkdownNode)
    ensures abs_all(s.push(n)) == abs_all(s).push(abs(n))
{ assert(s.push(n).drop_last() =~= s); }
/// a text joined to the last one
pub proof fn lemma_abs_join(t0: Seq<MarkdownNode>, n: MarkdownNode, t1: Seq<MarkdownNode>)
    requires
        t0.len() > 0, t1.len() == t0.len(), t1 =~= t0.update(t0.len() - 1, t1.last()),
        is_text(n), is_text(t0.last()), is_text(t1.last()), marks_of(n) == marks_of(t0.last()), marks_of(t1.last()) == marks_of(n),
        text_of(t1.last()).text.content@ == text_of(t0.last()).text.content@ + text_of(n).text.content@,
    ensures abs_all(t1) == addt(abs_all(t0), abs(n))
{
    lemma_abs_all(t0); lemma_abs_all(t1);
    let k = addt(abs_all(t0), abs(n));
    assert(abs_all(t0).last() == abs(t0.last()));
    assert(t_meets(abs(t0.last()), abs(n)));
    assert forall|i: int| 0 <= i < k.len() implies #[trigger] abs_all(t1)[i] == k[i] by { if i < t0.len() - 1 { assert(t1[i] == t0[i]); } else { assert(t1[i] == t1.last()); } }
    assert(abs_all(t1) =~= k);
}
pub open spec fn t_ty(t: T) -> MarkdownNodeType { match t { T::Node(h, _) => head_ty(h), T::Text(..) => MarkdownNodeType::Text } }
pub open spec fn t_kids(t: T) -> Seq<T> { match t { T::Node(_, k) => k, T::Text(..) => Seq::empty() } }
pub open spec fn t_marks(t: T) -> Seq<MarkdownMark> { match t { T::Node(..) => Seq::empty(), T::Text(_, m) => m } }
pub open spec fn t_meets(a: T, b: T) -> bool { a is Text && b is Text && t_marks(a) == t_marks(b) }
/// content that the rules of the type allow, text that is not empty, marks that are a set
pub open spec fn t_valid(t: T) -> bool {
    &&& valid_kids(t_ty(t), t_kids(t).map_values(|k: T| t_ty(k)))
    &&& forall|i: int| 0 <= i < t_kids(t).len() ==> marks_ok(t_ty(t), t_marks(#[trigger] t_kids(t)[i]))
}
pub open spec fn p_node(k: Seq<T>) -> T { T::Node(Head::Paragraph, k) }

// ------------------------------------------------------------------ Markdown: what a sequence of events builds
/// the open nodes with what they contain so far, and the open marks
pub struct St { pub stack: Seq<(Seq<T>, Head)>, pub marks: Seq<MarkdownMark> }
pub open spec fn st_push(st: St, h: Head) -> Option<St> { Some(St { stack: st.stack.push((Seq::empty(), h)), marks: st.marks }) }
pub open spec fn st_top(st: St, k: Seq<T>) -> St { St { stack: st.stack.drop_last().push((k, st.stack.last().1)), marks: st.marks } }
pub open spec fn st_add(st: St, t: T) -> Option<St> {
    if t_valid(t) && st.stack.len() > 0 { Some(st_top(st, st.stack.last().0.push(t))) } else { None }
}
/// a text: joined to one with the same marks, nothing if empty
pub open spec fn addt(k: Seq<T>, t: T) -> Seq<T> {
    if k.len() > 0 && t_meets(k.last(), t) { k.drop_last().push(T::Text(k.last()->Text_0 + t->Text_0, t_marks(t))) } else { k.push(t) }
}
pub open spec fn st_text(st: St, s: Seq<char>, m: Seq<MarkdownMark>) -> Option<St> {
    if st.stack.len() == 0 { None } else if s.len() == 0 { Some(st) } else { Some(st_top(st, addt(st.stack.last().0, T::Text(s, m)))) }
}
pub open spec fn st_mark(st: St, m: MarkdownMark) -> Option<St> { Some(St { marks: madd(st.marks, m), ..st }) }
pub open spec fn st_unmark(st: St, m: MarkdownMark) -> Option<St> { Some(St { marks: mrem(st.marks, m), ..st }) }
pub open spec fn st_pop(st: St) -> St { St { stack: st.stack.drop_last(), marks: st.marks } }
pub open spec fn link_mark(h: Seq<char>, t: Seq<char>) -> MarkdownMark { MarkdownMark::Link { attrs: LinkAttrs { href: str_of(h), title: str_of(t) } } }

/// inline content between the blocks is put into paragraphs, and a list item starts with one
pub open spec fn flush(b: Seq<T>, i: Seq<T>) -> Seq<T> { if i.len() > 0 { b.push(p_node(i)) } else { b } }
pub open spec fn runs(k: Seq<T>) -> (Seq<T>, Seq<T>) decreases k.len() {
    if k.len() == 0 { (Seq::empty(), Seq::empty()) } else {
        let (b, i) = runs(k.drop_last());
        if is_inline_ty(t_ty(k.last())) { (b, i.push(k.last())) } else { (flush(b, i).push(k.last()), Seq::empty()) }
    }
}
pub open spec fn item_kids(k: Seq<T>) -> Seq<T> {
    let b = flush(runs(k).0, runs(k).1);
    if b.len() > 0 && t_ty(b[0]) is Paragraph { b } else { b.insert(0, p_node(Seq::empty())) }
}
/// documents and blockquotes are not empty
pub open spec fn block_kids(k: Seq<T>) -> Seq<T> { if k.len() == 0 { k.push(p_node(Seq::empty())) } else { k } }
/// the line end of the last line of a code block is not part of it
pub open spec fn code_kids(k: Seq<T>) -> Seq<T> {
    match k.last() {
        T::Text(s, m) => if k.len() > 0 && s.len() > 0 && s.last() == '\n' {
            if s.len() == 1 { k.drop_last() } else { k.drop_last().push(T::Text(s.drop_last(), m)) }
        } else { k },
        _ => k,
    }
}
/// the text of an image
pub open spec fn all_text(k: Seq<T>) -> bool { forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i]) is Text }
pub open spec fn alt_text(k: Seq<T>) -> Seq<char> decreases k.len() { if k.len() == 0 { Seq::empty() } else { alt_text(k.drop_last()) + k.last()->Text_0 } }

pub open spec fn feed_start(st: St, t: TagS) -> Option<St> {
    match t {
        TagS::Paragraph => st_push(st, Head::Paragraph),
        TagS::Heading(l) => if l <= u8::MAX { st_push(st, Head::Heading(HeadingAttrs { level: l as u8 })) } else { None },
        TagS::BlockQuote => st_push(st, Head::Blockquote),
        TagS::CodeBlock(p) => st_push(st, Head::CodeBlock(CodeBlockAttrs { params: str_of(match p { Some(s) => s, None => Seq::empty() }) })),
        TagS::List(None) => st_push(st, Head::BulletList(BulletListAttrs { tight: false })),
        TagS::List(Some(o)) => if o <= usize::MAX { st_push(st, Head::OrderedList(OrderedListAttrs { order: o as usize, tight: false })) } else { None },
        TagS::Item => st_push(st, Head::ListItem),
        TagS::Emphasis => st_mark(st, MarkdownMark::Em),
        TagS::Strong => st_mark(st, MarkdownMark::Strong),
        TagS::Link(h, t) => st_mark(st, link_mark(h, t)),
        TagS::Image(s, t) => st_push(st, Head::Image(ImageAttrs { src: str_of(s), alt: str_of(Seq::empty()), title: str_of(t) })),
        TagS::Other => None,
    }
}
pub open spec fn feed_end(st: St, t: TagS) -> Option<St> {
    match t {
        TagS::Emphasis => st_unmark(st, MarkdownMark::Em),
        TagS::Strong => st_unmark(st, MarkdownMark::Strong),
        TagS::Link(h, t) => st_unmark(st, link_mark(h, t)),
        _ => if st.stack.len() == 0 { None } else {
            let (k, h) = st.stack.last();
            match (t, h) {
                (TagS::Paragraph, Head::Paragraph) => st_add(st_pop(st), T::Node(h, k)),
                (TagS::Heading(_), Head::Heading(_)) => st_add(st_pop(st), T::Node(h, k)),
                (TagS::BlockQuote, Head::Blockquote) => st_add(st_pop(st), T::Node(h, block_kids(k))),
                (TagS::CodeBlock(_), Head::CodeBlock(_)) => st_add(st_pop(st), T::Node(h, code_kids(k))),
                (TagS::List(_), Head::BulletList(_)) => st_add(st_pop(st), T::Node(h, k)),
                (TagS::List(_), Head::OrderedList(_)) => st_add(st_pop(st), T::Node(h, k)),
                (TagS::Item, Head::ListItem) => st_add(st_pop(st), T::Node(h, item_kids(k))),
                (TagS::Image(..), Head::Image(a)) => if all_text(k) {
                    st_add(st_pop(st), T::Node(Head::Image(ImageAttrs { src: a.src, alt: str_of(a.alt@ + alt_text(k)), title: a.title }), Seq::empty()))
                } else { None },
                _ => None,
            }
        },
    }
}
pub open spec fn feed(st: St, e: EvS) -> Option<St> {
    match e {
        EvS::Start(t) => feed_start(st, t),
        EvS::End(t) => feed_end(st, t),
        EvS::Text(s) => st_text(st, s, st.marks),
        EvS::Code(s) => st_text(st, s, madd(st.marks, MarkdownMark::Code)),
        EvS::HardBreak => st_add(st, T::Node(Head::HardBreak, Seq::empty())),
        EvS::Rule => st_add(st, T::Node(Head::HorizontalRule, Seq::empty())),
        EvS::Other => None,
    }
}
pub open spec fn feed_all(st: St, es: Seq<EvS>) -> Option<St> decreases es.len() {
    if es.len() == 0 { Some(st) } else { match feed(st, es[0]) { Some(s) => feed_all(s, es.skip(1)), None => None } }
}
pub open spec fn st_init() -> St { St { stack: seq![(Seq::empty(), Head::Doc)], marks: Seq::empty() } }
/// the document
pub open spec fn st_doc(st: St) -> Option<T> {
    if st.stack.len() > 0 && st.stack.last().1 is Doc {
        let t = T::Node(Head::Doc, block_kids(st.stack.last().0));
        if t_valid(t) { Some(t) } else { None }
    } else { None }
}
pub open spec fn built(es: Seq<EvS>) -> Option<T> { match feed_all(st_init(), es) { Some(st) => st_doc(st), None => None } }

// strings with a given text
pub uninterp spec fn str_of(s: Seq<char>) -> String;
/// Trusted: a string is determined by its text
#[verifier::external_body]
pub broadcast proof fn axiom_str_of(s: String) ensures str_of(#[trigger] s@) == s { }

// ------------------------------------------------------------------ Markdown: the state of the importer
pub open spec fn att(a: Attrs) -> Head {
    match a {
        Attrs::Doc => Head::Doc,
        Attrs::Paragraph => Head::Paragraph,
        Attrs::Heading(a) => Head::Heading(a),
        Attrs::Blockquote => Head::Blockquote,
        Attrs::CodeBlock(a) => Head::CodeBlock(a),
        Attrs::OrderedList(a) => Head::OrderedList(a),
        Attrs::BulletList(a) => Head::BulletList(a),
        Attrs::ListItem => Head::ListItem,
        Attrs::Image(a) => Head::Image(a),
    }
}
pub open spec fn abs_frame(p: (Vec<MarkdownNode>, Attrs)) -> (Seq<T>, Head) { (abs_all(p.0@), att(p.1)) }
pub open spec fn abs_stack(s: Seq<(Vec<MarkdownNode>, Attrs)>) -> Seq<(Seq<T>, Head)> { s.map_values(|p: (Vec<MarkdownNode>, Attrs)| abs_frame(p)) }
pub open spec fn abs_st(d: MarkdownDeserializer) -> St { St { stack: abs_stack(d.stack@), marks: d.mark_set.content@ } }
pub open spec fn wf_stack(s: Seq<(Vec<MarkdownNode>, Attrs)>) -> bool { forall|i: int| 0 <= i < s.len() ==> wf_all((#[trigger] s[i]).0@) }
pub open spec fn wf_d(d: MarkdownDeserializer) -> bool { wf_stack(d.stack@) && sorted_marks(d.mark_set.content@) }
pub proof fn lemma_abs_stack(s: Seq<(Vec<MarkdownNode>, Attrs)>)
    ensures
        s.len() > 0 ==> abs_stack(s).drop_last() == abs_stack(s.drop_last()) && abs_stack(s).last() == abs_frame(s.last()) && abs_stack(s).drop_last().push(abs_frame(s.last())) == abs_stack(s),
        s.len() > 0 ==> forall|p: (Vec<MarkdownNode>, Attrs)| abs_stack(#[trigger] s.update(s.len() - 1, p)) == abs_stack(s).drop_last().push(abs_frame(p)),
        forall|p: (Vec<MarkdownNode>, Attrs)| #[trigger] abs_stack(s.push(p)) == abs_stack(s).push(abs_frame(p)),
{
    assert forall|p: (Vec<MarkdownNode>, Attrs)| s.len() > 0 implies abs_stack(#[trigger] s.update(s.len() - 1, p)) == abs_stack(s).drop_last().push(abs_frame(p)) by { assert(abs_stack(s.update(s.len() - 1, p)) =~= abs_stack(s).drop_last().push(abs_frame(p))); }
    if s.len() > 0 { assert(abs_stack(s).drop_last() =~= abs_stack(s.drop_last())); assert(abs_stack(s).drop_last().push(abs_frame(s.last())) =~= abs_stack(s)); }
    assert forall|p: (Vec<MarkdownNode>, Attrs)| #[trigger] abs_stack(s.push(p)) == abs_stack(s).push(abs_frame(p)) by { assert(abs_stack(s.push(p)) =~= abs_stack(s).push(abs_frame(p))); }
}
/// the tree is valid exactly when the content is
pub proof fn lemma_t_valid(n: MarkdownNode)
    ensures
        t_valid(abs(n)) <==> valid_content(ty(n), kids(n)),
        t_ty(abs(n)) == ty(n), is_text(n) ==> t_marks(abs(n)) == marks_of(n), t_kids(abs(n)) == abs_all(kids(n)),
        cont(n) is None ==> t_valid(abs(n)),
{
    lemma_abs_all(kids(n));
    lemma_abs_ty(n);
    let k = t_kids(abs(n));
    assert forall|i: int| 0 <= i < kids(n).len() implies t_ty(#[trigger] k[i]) == ty(kids(n)[i]) && t_marks(k[i]) == marks_of(kids(n)[i]) && (kid_marks_ok(ty(n), kids(n)[i]) <==> marks_ok(ty(n), t_marks(k[i]))) by { lemma_abs_ty(kids(n)[i]); }
    assert(k.map_values(|k: T| t_ty(k)) =~= tys(kids(n)));
    if valid_content(ty(n), kids(n)) {
        assert forall|i: int| 0 <= i < k.len() implies marks_ok(t_ty(abs(n)), t_marks(#[trigger] k[i])) by { assert(kid_marks_ok(ty(n), kids(n)[i])); }
    }
    if t_valid(abs(n)) {
        assert forall|i: int| 0 <= i < kids(n).len() implies kid_marks_ok(ty(n), #[trigger] kids(n)[i]) by { assert(marks_ok(t_ty(abs(n)), t_marks(k[i]))); }
    }
}
pub proof fn lemma_abs_ty(n: MarkdownNode)
    ensures t_ty(abs(n)) == ty(n), t_marks(abs(n)) == marks_of(n), t_kids(abs(n)) == abs_all(kids(n)), abs(n) is Text <==> is_text(n), !is_text(n) ==> abs(n) == T::Node(head(n), abs_all(kids(n))),
{ assert(abs_all(Seq::<MarkdownNode>::empty()) =~= Seq::<T>::empty()); }
pub open spec fn line_cut(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\n' { s.drop_last() } else { s } }
/// the last node of a code block changed, or gone
pub proof fn lemma_code_facts()
    ensures
        forall|s: Seq<MarkdownNode>| #![trigger wf_all(s), s.last()] wf_all(s) && s.len() > 0 ==> wf_node(s.last()),
        forall|s: Seq<MarkdownNode>| #![trigger abs_all(s), s.last()] s.len() > 0 ==> abs_all(s).len() == s.len() && abs_all(s).last() == abs(s.last()),
        forall|s: Seq<MarkdownNode>, x: MarkdownNode| s.len() > 0 ==> {
            let u = #[trigger] s.update(s.len() - 1, x);
            abs_all(u) == abs_all(s).drop_last().push(abs(x)) && (wf_all(s) && wf_node(x) ==> wf_all(u)) && (wf_all(s) ==> wf_all(u.drop_last())) && abs_all(u.drop_last()) == abs_all(s).drop_last() && u.last() == x && (x == s.last() ==> u == s)
        },
        forall|s: Seq<MarkdownNode>| #![trigger code_kids(abs_all(s))] s.len() == 0 || !is_text(s.last()) ==> code_kids(abs_all(s)) == abs_all(s),
        forall|s: Seq<MarkdownNode>, x: MarkdownNode| #![trigger code_kids(abs_all(s)), s.update(s.len() - 1, x)] s.len() > 0 && is_text(s.last()) && is_text(x) && marks_of(x) == marks_of(s.last())
            && wf_node(s.last()) && text_of(x).text.content@ == line_cut(text_of(s.last()).text.content@)
            ==> code_kids(abs_all(s)) == if text_of(x).text.content@.len() == 0 { abs_all(s.update(s.len() - 1, x).drop_last()) } else { abs_all(s.update(s.len() - 1, x)) },
        forall|t: TextNode| #[trigger] abs(MarkdownNode::Text(t)) == T::Text(t.text.content@, t.marks.content@),
        forall|t: TextNode| #[trigger] wf_node(MarkdownNode::Text(t)) == wf_text(t),
        forall|b: Block| #[trigger] abs(MarkdownNode::Doc(b)) == T::Node(Head::Doc, abs_all(b.content.inner@)),
        forall|b: Block| #[trigger] wf_node(MarkdownNode::Doc(b)) == wf_frag(b.content),
        forall|b: AttrNode<HeadingAttrs>| #[trigger] abs(MarkdownNode::Heading(b)) == T::Node(Head::Heading(b.attrs), abs_all(b.content.inner@)),
        forall|b: AttrNode<HeadingAttrs>| #[trigger] wf_node(MarkdownNode::Heading(b)) == wf_frag(b.content),
        forall|b: AttrNode<CodeBlockAttrs>| #[trigger] abs(MarkdownNode::CodeBlock(b)) == T::Node(Head::CodeBlock(b.attrs), abs_all(b.content.inner@)),
        forall|b: AttrNode<CodeBlockAttrs>| #[trigger] wf_node(MarkdownNode::CodeBlock(b)) == wf_frag(b.content),
        forall|b: Block| #[trigger] abs(MarkdownNode::Blockquote(b)) == T::Node(Head::Blockquote, abs_all(b.content.inner@)),
        forall|b: Block| #[trigger] wf_node(MarkdownNode::Blockquote(b)) == wf_frag(b.content),
        forall|b: Block| #[trigger] abs(MarkdownNode::Paragraph(b)) == T::Node(Head::Paragraph, abs_all(b.content.inner@)),
        forall|b: Block| #[trigger] wf_node(MarkdownNode::Paragraph(b)) == wf_frag(b.content),
        forall|b: AttrNode<BulletListAttrs>| #[trigger] abs(MarkdownNode::BulletList(b)) == T::Node(Head::BulletList(b.attrs), abs_all(b.content.inner@)),
        forall|b: AttrNode<BulletListAttrs>| #[trigger] wf_node(MarkdownNode::BulletList(b)) == wf_frag(b.content),
        forall|b: AttrNode<OrderedListAttrs>| #[trigger] abs(MarkdownNode::OrderedList(b)) == T::Node(Head::OrderedList(b.attrs), abs_all(b.content.inner@)),
        forall|b: AttrNode<OrderedListAttrs>| #[trigger] wf_node(MarkdownNode::OrderedList(b)) == wf_frag(b.content),
        forall|b: Block| #[trigger] abs(MarkdownNode::ListItem(b)) == T::Node(Head::ListItem, abs_all(b.content.inner@)),
        forall|b: Block| #[trigger] wf_node(MarkdownNode::ListItem(b)) == wf_frag(b.content),
        forall|b: Leaf<ImageAttrs>| #[trigger] abs(MarkdownNode::Image(b)) == T::Node(Head::Image(b.attrs), Seq::empty()) && wf_node(MarkdownNode::Image(b)),
        abs(MarkdownNode::HardBreak) == T::Node(Head::HardBreak, Seq::empty()), wf_node(MarkdownNode::HardBreak),
        abs(MarkdownNode::HorizontalRule) == T::Node(Head::HorizontalRule, Seq::empty()), wf_node(MarkdownNode::HorizontalRule),
        abs_all(Seq::<MarkdownNode>::empty()) == Seq::<T>::empty(), wf_all(Seq::<MarkdownNode>::empty()),
        forall|s: Seq<char>| #[trigger] u16len(s) == 0 <==> s.len() == 0,
{
    assert forall|s: Seq<char>| #[trigger] u16len(s) == 0 <==> s.len() == 0 by { lemma_u16_zero(s); }
    assert(abs_all(Seq::<MarkdownNode>::empty()) =~= Seq::<T>::empty());
    assert forall|s: Seq<MarkdownNode>, x: MarkdownNode| s.len() > 0 implies {
            let u = #[trigger] s.update(s.len() - 1, x);
            abs_all(u) == abs_all(s).drop_last().push(abs(x)) && (wf_all(s) && wf_node(x) ==> wf_all(u)) && (wf_all(s) ==> wf_all(u.drop_last())) && abs_all(u.drop_last()) == abs_all(s).drop_last() && u.last() == x && (x == s.last() ==> u == s)
        } by {
        let u = s.update(s.len() - 1, x);
        assert(u.drop_last() =~= s.drop_last());
        assert(abs_all(s).drop_last() =~= abs_all(s.drop_last()));
        if x == s.last() { assert(u =~= s); }
    }
    assert forall|s: Seq<MarkdownNode>| #![trigger code_kids(abs_all(s))] s.len() == 0 || !is_text(s.last()) implies code_kids(abs_all(s)) == abs_all(s) by {
        lemma_abs_all(s); if s.len() > 0 { lemma_abs_ty(s.last()); }
    }
    assert forall|s: Seq<MarkdownNode>, x: MarkdownNode| #![trigger code_kids(abs_all(s)), s.update(s.len() - 1, x)] s.len() > 0 && is_text(s.last()) && is_text(x) && marks_of(x) == marks_of(s.last())
            && wf_node(s.last()) && text_of(x).text.content@ == line_cut(text_of(s.last()).text.content@)
            implies code_kids(abs_all(s)) == if text_of(x).text.content@.len() == 0 { abs_all(s.update(s.len() - 1, x).drop_last()) } else { abs_all(s.update(s.len() - 1, x)) } by {
        lemma_abs_all(s);
        assert(s.update(s.len() - 1, x).drop_last() =~= s.drop_last());
        assert(abs_all(s).drop_last() =~= abs_all(s.drop_last()));
        lemma_abs_ty(s.last());
        let k = abs_all(s);
        assert(k.last() == T::Text(text_of(s.last()).text.content@, marks_of(x)));
        if text_of(x).text.content@.len() > 0 { assert(k.drop_last().push(k.last()) =~= k); }
    }
    assert forall|s: Seq<MarkdownNode>| #![trigger abs_all(s), s.last()] s.len() > 0 implies abs_all(s).len() == s.len() && abs_all(s).last() == abs(s.last()) by { lemma_abs_all(s); }
}
pub proof fn lemma_u16_zero(s: Seq<char>) ensures u16len(s) == 0 <==> s.len() == 0 { if s.len() > 0 { assert(c16(s.last()) >= 1); } }
pub proof fn lemma_feed_step(st: St, es: Seq<Event>, i: int)
    requires 0 <= i < es.len()
    ensures feed_all(st, evs_of(es).skip(i)) == match feed(st, ev_of(es[i])) { Some(s) => feed_all(s, evs_of(es).skip(i + 1)), None => None }
{ assert(evs_of(es).skip(i).skip(1) =~= evs_of(es).skip(i + 1)); }
//@END
