// ------------------------------------------------------------------ content rules (the documented expressions)
pub open spec fn is_block_ty(t: MarkdownNodeType) -> bool {
    t is Paragraph || t is Blockquote || t is Heading || t is HorizontalRule || t is CodeBlock || t is OrderedList || t is BulletList
}
/// the content expression of each type, on the types of the children:
/// doc, blockquote `block+`; heading `(text | image)*`; code_block `text*`; paragraph `inline*`;
/// lists `list_item+`; list_item `paragraph block*`; all others have no content
pub open spec fn valid_kids(t: MarkdownNodeType, s: Seq<MarkdownNodeType>) -> bool {
    match t {
        MarkdownNodeType::Doc | MarkdownNodeType::Blockquote => s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> is_block_ty(#[trigger] s[i])),
        MarkdownNodeType::Heading => forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Text || s[i] is Image,
        MarkdownNodeType::CodeBlock => forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Text,
        MarkdownNodeType::Paragraph => forall|i: int| 0 <= i < s.len() ==> is_inline_ty(#[trigger] s[i]),
        MarkdownNodeType::BulletList | MarkdownNodeType::OrderedList => s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is ListItem),
        MarkdownNodeType::ListItem => s.len() > 0 && s[0] is Paragraph && (forall|i: int| 0 <= i < s.len() ==> is_block_ty(#[trigger] s[i])),
        _ => s.len() == 0,
    }
}
/// the types whose text may carry marks
pub open spec fn allows(t: MarkdownNodeType) -> bool {
    !(t is Doc || t is Blockquote || t is BulletList || t is OrderedList || t is ListItem || t is CodeBlock)
}
pub open spec fn marks_ok(t: MarkdownNodeType, m: Seq<MarkdownMark>) -> bool { m.len() == 0 || allows(t) }
pub open spec fn kid_marks_ok(t: MarkdownNodeType, n: MarkdownNode) -> bool { is_text(n) ==> marks_ok(t, marks_of(n)) }
pub open spec fn tys(s: Seq<MarkdownNode>) -> Seq<MarkdownNodeType> { s.map_values(|n: MarkdownNode| ty(n)) }
pub open spec fn valid_content(t: MarkdownNodeType, s: Seq<MarkdownNode>) -> bool {
    valid_kids(t, tys(s)) && forall|i: int| 0 <= i < s.len() ==> kid_marks_ok(t, #[trigger] s[i])
}
/// two types are compatible when a child could start the content of both
pub open spec fn starts(t: MarkdownNodeType, c: MarkdownNodeType) -> bool { exists|s: Seq<MarkdownNodeType>| s.len() > 0 && s[0] == c && #[trigger] valid_kids(t, s) }
pub open spec fn compat(a: MarkdownNodeType, b: MarkdownNodeType) -> bool {
    a == b || exists|c: MarkdownNodeType| starts(a, c) && #[trigger] starts(b, c)
}
pub open spec fn opt_kids(f: Option<&Fragment>) -> Seq<MarkdownNode> { match f { Some(x) => x.inner@, None => Seq::empty() } }

// the content matcher as an automaton
pub open spec fn cm_of(t: MarkdownNodeType) -> MarkdownContentMatch {
    match t {
        MarkdownNodeType::Doc | MarkdownNodeType::Blockquote => MarkdownContentMatch::BlockPlus,
        MarkdownNodeType::Heading => MarkdownContentMatch::OrTextImageStar,
        MarkdownNodeType::CodeBlock => MarkdownContentMatch::TextStar,
        MarkdownNodeType::Paragraph => MarkdownContentMatch::InlineStar,
        MarkdownNodeType::BulletList | MarkdownNodeType::OrderedList => MarkdownContentMatch::ListItemPlus,
        MarkdownNodeType::ListItem => MarkdownContentMatch::ParagraphBlockStar,
        _ => MarkdownContentMatch::Empty,
    }
}
pub open spec fn cm_start(c: MarkdownContentMatch) -> bool { !(c is BlockStar || c is ListItemStar) }
pub open spec fn cm_step(c: MarkdownContentMatch, t: MarkdownNodeType) -> Option<MarkdownContentMatch> {
    match c {
        MarkdownContentMatch::InlineStar => if is_inline_ty(t) { Some(MarkdownContentMatch::InlineStar) } else { None },
        MarkdownContentMatch::BlockPlus | MarkdownContentMatch::BlockStar => if is_block_ty(t) { Some(MarkdownContentMatch::BlockStar) } else { None },
        MarkdownContentMatch::OrTextImageStar => if t is Text || t is Image { Some(MarkdownContentMatch::OrTextImageStar) } else { None },
        MarkdownContentMatch::TextStar => if t is Text { Some(MarkdownContentMatch::TextStar) } else { None },
        MarkdownContentMatch::ListItemPlus | MarkdownContentMatch::ListItemStar => if t is ListItem { Some(MarkdownContentMatch::ListItemStar) } else { None },
        MarkdownContentMatch::ParagraphBlockStar => if t is Paragraph { Some(MarkdownContentMatch::BlockStar) } else { None },
        MarkdownContentMatch::Empty => None,
    }
}
pub open spec fn cm_end(c: MarkdownContentMatch) -> bool { !(c is BlockPlus || c is ListItemPlus || c is ParagraphBlockStar) }
pub open spec fn cm_fold(c: MarkdownContentMatch, s: Seq<MarkdownNodeType>) -> Option<MarkdownContentMatch> decreases s.len() {
    if s.len() == 0 { Some(c) } else { match cm_step(c, s[0]) { Some(d) => cm_fold(d, s.skip(1)), None => None } }
}
/// the language of a matcher state
pub open spec fn cm_lang(c: MarkdownContentMatch, s: Seq<MarkdownNodeType>) -> bool {
    match c {
        MarkdownContentMatch::InlineStar => forall|i: int| 0 <= i < s.len() ==> is_inline_ty(#[trigger] s[i]),
        MarkdownContentMatch::BlockPlus => s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> is_block_ty(#[trigger] s[i])),
        MarkdownContentMatch::BlockStar => forall|i: int| 0 <= i < s.len() ==> is_block_ty(#[trigger] s[i]),
        MarkdownContentMatch::OrTextImageStar => forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Text || s[i] is Image,
        MarkdownContentMatch::TextStar => forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Text,
        MarkdownContentMatch::ListItemPlus => s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is ListItem),
        MarkdownContentMatch::ListItemStar => forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is ListItem,
        MarkdownContentMatch::ParagraphBlockStar => s.len() > 0 && s[0] is Paragraph && (forall|i: int| 0 <= i < s.len() ==> is_block_ty(#[trigger] s[i])),
        MarkdownContentMatch::Empty => s.len() == 0,
    }
}
pub proof fn lemma_cm_fold_lang(c: MarkdownContentMatch, s: Seq<MarkdownNodeType>)
    ensures cm_lang(c, s) <==> (cm_fold(c, s) matches Some(d) && cm_end(d))
    decreases s.len()
{
    if s.len() > 0 {
        let r = s.skip(1);
        assert(forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == s[i + 1]);
        assert(forall|i: int| 1 <= i < s.len() ==> #[trigger] s[i] == r[i - 1]);
        match cm_step(c, s[0]) {
            Some(d) => { lemma_cm_fold_lang(d, r); }
            None => {}
        }
    }
}
pub proof fn lemma_cm_lang(t: MarkdownNodeType, s: Seq<MarkdownNodeType>)
    ensures valid_kids(t, s) <==> (cm_fold(cm_of(t), s) matches Some(d) && cm_end(d))
{ lemma_cm_fold_lang(cm_of(t), s); }
pub proof fn lemma_cm_fold_concat(c: MarkdownContentMatch, a: Seq<MarkdownNodeType>, b: Seq<MarkdownNodeType>)
    ensures cm_fold(c, a + b) == (match cm_fold(c, a) { Some(d) => cm_fold(d, b), None => None })
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); } else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        match cm_step(c, a[0]) { Some(d) => { lemma_cm_fold_concat(d, a.skip(1), b); } None => {} }
    }
}
pub proof fn lemma_common(a: MarkdownContentMatch, b: MarkdownContentMatch, t: MarkdownNodeType)
    ensures cm_step(a, t) is Some && cm_step(b, t) is Some ==> exists|t: MarkdownNodeType| cm_step(a, t) is Some && #[trigger] cm_step(b, t) is Some
{ }
pub proof fn lemma_starts(t: MarkdownNodeType, c: MarkdownNodeType)
    ensures starts(t, c) <==> cm_step(cm_of(t), c) is Some
{
    if cm_step(cm_of(t), c) is Some { assert(valid_kids(t, seq![c])) by { let s = seq![c]; assert(s.len() == 1 && s[0] == c); } assert(seq![c][0] == c); }
    else if starts(t, c) { let s = choose|s: Seq<MarkdownNodeType>| s.len() > 0 && s[0] == c && #[trigger] valid_kids(t, s); assert(s[0] == c); }
}
pub proof fn lemma_compat(a: MarkdownNodeType, b: MarkdownNodeType)
    ensures compat(a, b) <==> a == b || exists|t: MarkdownNodeType| cm_step(cm_of(a), t) is Some && #[trigger] cm_step(cm_of(b), t) is Some
{
    assert forall|c: MarkdownNodeType| true implies (#[trigger] starts(a, c) <==> cm_step(cm_of(a), c) is Some) by { lemma_starts(a, c); }
    assert forall|c: MarkdownNodeType| true implies (#[trigger] starts(b, c) <==> cm_step(cm_of(b), c) is Some) by { lemma_starts(b, c); }
    if exists|t: MarkdownNodeType| cm_step(cm_of(a), t) is Some && #[trigger] cm_step(cm_of(b), t) is Some {
        let t = choose|t: MarkdownNodeType| cm_step(cm_of(a), t) is Some && #[trigger] cm_step(cm_of(b), t) is Some;
        assert(starts(a, t) && starts(b, t));
    }
}
pub proof fn lemma_tys_empty() ensures tys(Seq::<MarkdownNode>::empty()) =~= Seq::<MarkdownNodeType>::empty() { }
pub proof fn lemma_tys_skip(s: Seq<MarkdownNode>, i: int)
    requires 0 <= i < s.len()
    ensures tys(s.skip(i)).len() > 0, tys(s.skip(i))[0] == ty(s[i]), tys(s.skip(i)).skip(1) == tys(s.skip(i + 1))
{ assert(tys(s.skip(i)).skip(1) =~= tys(s.skip(i + 1))); }
