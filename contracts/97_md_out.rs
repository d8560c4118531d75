//@ONLY C15
// ------------------------------------------------------------------ Markdown: the events of a document
pub open spec fn mark_tg(m: MarkdownMark) -> TagS {
    match m { MarkdownMark::Strong => TagS::Strong, MarkdownMark::Em => TagS::Emphasis, MarkdownMark::Code => TagS::Other, MarkdownMark::Link { attrs } => TagS::Link(attrs.href@, attrs.title@) }
}
pub open spec fn head_tg(h: Head) -> TagS {
    match h {
        Head::Heading(a) => TagS::Heading(a.level as u32),
        Head::CodeBlock(a) => TagS::CodeBlock(Some(a.params@)),
        Head::Blockquote => TagS::BlockQuote,
        Head::Paragraph => TagS::Paragraph,
        Head::BulletList(_) => TagS::List(None),
        Head::OrderedList(a) => TagS::List(Some(a.order as u64)),
        Head::ListItem => TagS::Item,
        Head::Image(a) => TagS::Image(a.src@, a.title@),
        _ => TagS::Other,
    }
}
/// nodes that have a beginning and an end
pub open spec fn tagged(h: Head) -> bool { !(h is Doc || h is HardBreak || h is HorizontalRule) }
/// the open marks, last first, down to `n` of them
pub open spec fn mcloses(open: Seq<MarkdownMark>, n: int) -> Seq<EvS> decreases open.len() {
    if open.len() <= n || open.len() == 0 { Seq::empty() } else { seq![EvS::End(mark_tg(open.last()))] + mcloses(open.drop_last(), n) }
}
pub open spec fn all_in(open: Seq<MarkdownMark>, m: Seq<MarkdownMark>) -> bool { forall|i: int| 0 <= i < open.len() ==> m.contains(#[trigger] open[i]) }
/// what stays open for a text with the marks: a mark is only closed after all that were opened inside of it
pub open spec fn kept(open: Seq<MarkdownMark>, m: Seq<MarkdownMark>) -> Seq<MarkdownMark> decreases open.len() {
    if open.len() == 0 || all_in(open, m) { open } else { kept(open.drop_last(), m) }
}
pub open spec fn is_open(m: MarkdownMark, open: Seq<MarkdownMark>) -> bool { m is Code || open.contains(m) }
/// the marks that are not open are opened
pub open spec fn mopens(m: Seq<MarkdownMark>, i: int, open: Seq<MarkdownMark>) -> (Seq<EvS>, Seq<MarkdownMark>) decreases m.len() - i {
    if i < 0 || i >= m.len() { (Seq::empty(), open) }
    else if is_open(m[i], open) { mopens(m, i + 1, open) }
    else { let (e, o) = mopens(m, i + 1, open.push(m[i])); (seq![EvS::Start(mark_tg(m[i]))] + e, o) }
}
pub open spec fn char_ev(s: Seq<char>, m: Seq<MarkdownMark>) -> EvS { if m.contains(MarkdownMark::Code) { EvS::Code(s) } else { EvS::Text(s) } }
pub open spec fn text_evs(s: Seq<char>, m: Seq<MarkdownMark>, open: Seq<MarkdownMark>) -> (Seq<EvS>, Seq<MarkdownMark>) {
    let k = kept(open, m);
    let (e, o) = mopens(m, 0, k);
    (mcloses(open, k.len() as int) + (e + seq![char_ev(s, m)]), o)
}
pub open spec fn alt_evs(h: Head) -> Seq<EvS> { match h { Head::Image(a) => if a.alt@.len() > 0 { seq![EvS::Text(a.alt@)] } else { Seq::empty() }, _ => Seq::empty() } }
pub open spec fn fin(h: Head) -> Seq<EvS> { if h is CodeBlock { seq![EvS::Text(seq!['\n']), EvS::End(head_tg(h))] } else { seq![EvS::End(head_tg(h))] } }
/// the events of a tree, with marks that are open before, and the marks that are open after
pub open spec fn evt(t: T, open: Seq<MarkdownMark>) -> (Seq<EvS>, Seq<MarkdownMark>) decreases t, 0nat {
    match t {
        T::Text(s, m) => text_evs(s, m, open),
        T::Node(Head::HardBreak, _) => (seq![EvS::HardBreak], open),
        T::Node(Head::HorizontalRule, _) => (seq![EvS::Rule], open),
        T::Node(Head::Doc, k) => evk(k, 0, open),
        T::Node(h, k) => {
            let (e, o) = evk(k, 0, Seq::empty());
            (mcloses(open, 0) + (seq![EvS::Start(head_tg(h))] + (alt_evs(h) + (e + (mcloses(o, 0) + fin(h))))), Seq::empty())
        },
    }
}
pub open spec fn evk(k: Seq<T>, i: int, open: Seq<MarkdownMark>) -> (Seq<EvS>, Seq<MarkdownMark>) decreases k, k.len() - i {
    if i < 0 || i >= k.len() { (Seq::empty(), open) } else {
        let (a, o) = evt(k[i], open);
        let (b, p) = evk(k, i + 1, o);
        (a + b, p)
    }
}
/// the events of the document
pub open spec fn doc_evs(t: T) -> Seq<EvS> { evt(t, Seq::empty()).0 }

// what is left to do
pub open spec fn ends(h: Head, k: Seq<T>, i: int, open: Seq<MarkdownMark>) -> Seq<EvS> { let (e, o) = evk(k, i, open); e + (mcloses(o, 0) + fin(h)) }
pub open spec fn evn(t: T, i: int, open: Seq<MarkdownMark>) -> (Seq<EvS>, Seq<MarkdownMark>) {
    match t {
        T::Node(Head::Doc, k) => evk(k, i, open),
        T::Node(h, k) => if i == 0 || !tagged(h) { evt(t, open) } else { ((if i == 1 { alt_evs(h) } else { Seq::empty() }) + ends(h, k, i, open), Seq::empty()) },
        _ => evt(t, open),
    }
}
pub open spec fn rems(s: Seq<(T, int)>, open: Seq<MarkdownMark>) -> Seq<EvS> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let (e, o) = evn(s.last().0, s.last().1, open); e + rems(s.drop_last(), o) }
}
pub open spec fn evs_rev(s: Seq<Event>) -> Seq<EvS> decreases s.len() { if s.len() == 0 { Seq::empty() } else { seq![ev_of(s.last())] + evs_rev(s.drop_last()) } }
pub open spec fn dm(s: Seq<&MarkdownMark>) -> Seq<MarkdownMark> { s.map_values(|m: &MarkdownMark| *m) }
pub open spec fn ain(s: Seq<(&MarkdownNode, usize)>) -> Seq<(T, int)> { s.map_values(|p: (&MarkdownNode, usize)| (abs(*p.0), p.1 as int)) }
// a measure
pub open spec fn wk(k: Seq<T>, i: int) -> nat decreases k, k.len() - i { if i < 0 || i >= k.len() { 0 } else { 1 + wt(k[i]) + wk(k, i + 1) } }
pub open spec fn wt(t: T) -> nat decreases t, 0nat { match t { T::Node(_, k) => 1 + wk(k, 0), _ => 1 } }
pub open spec fn wn(p: (T, int)) -> nat { 1 + wk(t_kids(p.0), p.1) }
pub open spec fn wi(s: Seq<(T, int)>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { wi(s.drop_last()) + wn(s.last()) } }

impl<'a> MarkdownSerializer<'a> {
    pub open spec fn todo(&self) -> Seq<(T, int)> { ain(self.inner@) }
    pub open spec fn open(&self) -> Seq<MarkdownMark> { dm(self.marks@) }
    pub open spec fn rem(&self) -> Seq<EvS> { evs_rev(self.stack@) + rems(self.todo(), self.open()) }
    pub open spec fn ok(&self) -> bool { forall|i: int| 0 <= i < self.marks@.len() ==> !(*(#[trigger] self.marks@[i]) is Code) }
    pub open spec fn work(&self) -> nat { wi(self.todo()) }
}
pub open spec fn stepped(before: Seq<EvS>, r: Option<Event>, after: Seq<EvS>) -> bool {
    match r { Some(e) => before == seq![ev_of(e)] + after, None => before.len() == 0 && after.len() == 0 }
}
pub proof fn lemma_rems_push(s: Seq<(T, int)>, p: (T, int), open: Seq<MarkdownMark>)
    ensures rems(s.push(p), open) == evn(p.0, p.1, open).0 + rems(s, evn(p.0, p.1, open).1), wi(s.push(p)) == wi(s) + wn(p)
{ assert(s.push(p).drop_last() =~= s); }
pub proof fn lemma_evn0(t: T, open: Seq<MarkdownMark>)
    ensures evn(t, 0, open) == evt(t, open), wn((t, 0)) == wt(t)
{ match t { T::Text(..) => { assert(t_kids(t) =~= Seq::<T>::empty()); assert(wk(t_kids(t), 0) == 0); }, _ => {} } }
/// into the next child
pub proof fn lemma_rems_child(s: Seq<(T, int)>, h: Head, k: Seq<T>, i: int, open: Seq<MarkdownMark>)
    requires 0 <= i < k.len(), i > 0 || h is Doc, !(h is Image), h is Doc || tagged(h)
    ensures
        rems(s.push((T::Node(h, k), i)), open) == rems(s.push((T::Node(h, k), i + 1)).push((k[i], 0)), open),
        wi(s.push((T::Node(h, k), i + 1)).push((k[i], 0))) < wi(s.push((T::Node(h, k), i))),
{
    let t = T::Node(h, k);
    lemma_rems_push(s, (t, i), open);
    lemma_rems_push(s.push((t, i + 1)), (k[i], 0), open);
    lemma_evn0(k[i], open);
    let (a, o) = evt(k[i], open);
    lemma_rems_push(s, (t, i + 1), o);
    let l = rems(s.push((t, i)), open);
    let r = rems(s.push((t, i + 1)).push((k[i], 0)), open);
    let (b, p) = evk(k, i + 1, o);
    assert(evk(k, i, open) == (a + b, p));
    if h is Doc { assert(l =~= r); }
    else {
        assert(alt_evs(h) =~= Seq::<EvS>::empty());
        assert(evn(t, i, open).0 =~= a + evn(t, i + 1, o).0);
        assert(evn(t, i, open).1 == evn(t, i + 1, o).1);
        assert(l =~= r);
    }
}
/// the beginning of a node
pub proof fn lemma_rems_start(s: Seq<(T, int)>, h: Head, k: Seq<T>)
    requires tagged(h), h is Image ==> k.len() == 0
    ensures
        k.len() > 0 ==> rems(s.push((T::Node(h, k), 0)), Seq::empty()) == seq![EvS::Start(head_tg(h))] + rems(s.push((T::Node(h, k), 1)).push((k[0], 0)), Seq::empty()),
        k.len() == 0 ==> rems(s.push((T::Node(h, k), 0)), Seq::empty()) == seq![EvS::Start(head_tg(h))] + rems(s.push((T::Node(h, k), 1)), Seq::empty()),
{
    let t = T::Node(h, k);
    let n = Seq::<MarkdownMark>::empty();
    lemma_rems_push(s, (t, 0), n);
    assert(mcloses(n, 0) =~= Seq::<EvS>::empty());
    let st = seq![EvS::Start(head_tg(h))];
    if k.len() == 0 {
        lemma_rems_push(s, (t, 1), n);
        assert(evk(k, 0, n) == evk(k, 1, n));
        assert(evn(t, 0, n).0 =~= st + evn(t, 1, n).0);
        assert(rems(s.push((t, 0)), n) =~= st + rems(s.push((t, 1)), n));
    } else {
        lemma_rems_push(s.push((t, 1)), (k[0], 0), n);
        lemma_evn0(k[0], n);
        let (a, o) = evt(k[0], n);
        lemma_rems_push(s, (t, 1), o);
        assert(alt_evs(h) =~= Seq::<EvS>::empty());
        assert(evn(t, 0, n).0 =~= st + (a + evn(t, 1, o).0));
        assert(rems(s.push((t, 0)), n) =~= st + rems(s.push((t, 1)).push((k[0], 0)), n));
    }
}
/// a mark closed at the beginning or at the end of a node
pub proof fn lemma_rems_close(s: Seq<(T, int)>, h: Head, k: Seq<T>, i: int, open: Seq<MarkdownMark>)
    requires tagged(h), open.len() > 0, i == 0 || (i >= k.len() && (i == 1 ==> alt_evs(h).len() == 0))
    ensures rems(s.push((T::Node(h, k), i)), open) == seq![EvS::End(mark_tg(open.last()))] + rems(s.push((T::Node(h, k), i)), open.drop_last())
{
    let t = T::Node(h, k);
    let u = open.drop_last();
    lemma_rems_push(s, (t, i), open);
    lemma_rems_push(s, (t, i), u);
    let e = seq![EvS::End(mark_tg(open.last()))];
    assert(mcloses(open, 0) == e + mcloses(u, 0));
    if i > 0 { if i == 1 { assert(alt_evs(h) =~= Seq::<EvS>::empty()); } assert(evk(k, i, open) == (Seq::<EvS>::empty(), open)); assert(evk(k, i, u) == (Seq::<EvS>::empty(), u)); }
    assert(evn(t, i, open).0 =~= e + evn(t, i, u).0);
    assert(rems(s.push((t, i)), open) =~= e + rems(s.push((t, i)), u));
}
/// the end of a node
pub proof fn lemma_rems_end(s: Seq<(T, int)>, h: Head, k: Seq<T>, i: int)
    requires tagged(h), i > 0, i >= k.len(), i == 1 ==> alt_evs(h).len() == 0
    ensures rems(s.push((T::Node(h, k), i)), Seq::empty()) == fin(h) + rems(s, Seq::empty())
{
    let n = Seq::<MarkdownMark>::empty();
    lemma_rems_push(s, (T::Node(h, k), i), n);
    assert(mcloses(n, 0) =~= Seq::<EvS>::empty());
    assert(evn(T::Node(h, k), i, n).0 =~= fin(h));
}
pub proof fn lemma_rems_alt(s: Seq<(T, int)>, h: Head, k: Seq<T>, open: Seq<MarkdownMark>)
    requires h is Image, h->Image_0.alt@.len() > 0, k.len() == 0
    ensures rems(s.push((T::Node(h, k), 1)), open) == seq![EvS::Text(h->Image_0.alt@)] + rems(s.push((T::Node(h, k), 2)), open)
{
    let t = T::Node(h, k);
    lemma_rems_push(s, (t, 1), open);
    lemma_rems_push(s, (t, 2), open);
    assert(evk(k, 1, open) == evk(k, 2, open));
    assert(rems(s.push((t, 1)), open) =~= seq![EvS::Text(h->Image_0.alt@)] + rems(s.push((t, 2)), open));
}
pub proof fn lemma_kept_in(open: Seq<MarkdownMark>, m: Seq<MarkdownMark>)
    ensures all_in(kept(open, m), m), kept(open, m).len() <= open.len()
    decreases open.len()
{ if open.len() > 0 && !all_in(open, m) { lemma_kept_in(open.drop_last(), m); } }
pub proof fn lemma_opens_skip(m: Seq<MarkdownMark>, i: int, open: Seq<MarkdownMark>)
    requires 0 <= i <= m.len(), forall|j: int| 0 <= j < i ==> is_open(#[trigger] m[j], open)
    ensures mopens(m, 0, open) == mopens(m, i, open)
    decreases i
{ if i > 0 { lemma_opens_skip(m, i - 1, open); assert(is_open(m[i - 1], open)); } }
/// a text: a mark closed, a mark opened, the text itself
pub proof fn lemma_rems_text(s: Seq<(T, int)>, x: Seq<char>, m: Seq<MarkdownMark>, i: int, open: Seq<MarkdownMark>)
    ensures
        open.len() > 0 && !all_in(open, m) ==> rems(s.push((T::Text(x, m), i)), open) == seq![EvS::End(mark_tg(open.last()))] + rems(s.push((T::Text(x, m), i)), open.drop_last()),
        forall|j: int| 0 <= j < m.len() && all_in(open, m) && !is_open(#[trigger] m[j], open) && (forall|l: int| 0 <= l < j ==> is_open(#[trigger] m[l], open))
            ==> rems(s.push((T::Text(x, m), i)), open) == seq![EvS::Start(mark_tg(m[j]))] + rems(s.push((T::Text(x, m), i)), open.push(m[j])),
        all_in(open, m) && (forall|l: int| 0 <= l < m.len() ==> is_open(#[trigger] m[l], open))
            ==> rems(s.push((T::Text(x, m), i)), open) == seq![char_ev(x, m)] + rems(s, open),
{
    let t = T::Text(x, m);
    lemma_rems_push(s, (t, i), open);
    if open.len() > 0 && !all_in(open, m) {
        let u = open.drop_last();
        lemma_rems_push(s, (t, i), u);
        let e = seq![EvS::End(mark_tg(open.last()))];
        let k = kept(open, m);
        assert(k == kept(u, m));
        lemma_kept_in(u, m);
        assert(mcloses(open, k.len() as int) == e + mcloses(u, k.len() as int));
        assert(evn(t, i, open).0 =~= e + evn(t, i, u).0);
        assert(rems(s.push((t, i)), open) =~= e + rems(s.push((t, i)), u));
    }
    if all_in(open, m) {
        assert(kept(open, m) == open);
        assert(mcloses(open, open.len() as int) =~= Seq::<EvS>::empty());
        assert forall|j: int| 0 <= j < m.len() && !is_open(#[trigger] m[j], open) && (forall|l: int| 0 <= l < j ==> is_open(#[trigger] m[l], open))
            implies rems(s.push((t, i)), open) == seq![EvS::Start(mark_tg(m[j]))] + rems(s.push((t, i)), open.push(m[j])) by {
            let v = open.push(m[j]);
            let e = seq![EvS::Start(mark_tg(m[j]))];
            lemma_opens_skip(m, j, open);
            assert forall|l: int| 0 <= l < j + 1 implies is_open(#[trigger] m[l], v) by {
                if l < j { if !(m[l] is Code) { let w = choose|w: int| 0 <= w < open.len() && open[w] == m[l]; assert(v[w] == m[l]); } } else { assert(v[open.len() as int] == m[j]); }
            }
            lemma_opens_skip(m, j + 1, v);
            assert(all_in(v, m));
            assert(kept(v, m) == v);
            assert(mcloses(v, v.len() as int) =~= Seq::<EvS>::empty());
            lemma_rems_push(s, (t, i), v);
            assert(evn(t, i, open).0 =~= e + evn(t, i, v).0);
            assert(evn(t, i, open).1 == evn(t, i, v).1);
            assert(rems(s.push((t, i)), open) =~= e + rems(s.push((t, i)), v));
        }
        if forall|l: int| 0 <= l < m.len() ==> is_open(#[trigger] m[l], open) {
            lemma_opens_skip(m, m.len() as int, open);
            assert(evn(t, i, open).0 =~= seq![char_ev(x, m)]);
            assert(evn(t, i, open).1 == open);
        }
    }
}
pub proof fn lemma_dm(s: Seq<&MarkdownMark>)
    ensures
        dm(s).len() == s.len(),
        s.len() > 0 ==> dm(s).last() == *s.last() && dm(s).drop_last() == dm(s.drop_last()),
        forall|m: &MarkdownMark| #[trigger] dm(s.push(m)) == dm(s).push(*m),
        forall|m: &MarkdownMark| #[trigger] s.contains(m) <==> dm(s).contains(*m),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] dm(s)[i] == *s[i],
        s.len() == 0 ==> dm(s) == Seq::<MarkdownMark>::empty(),
{
    if s.len() > 0 { assert(dm(s).drop_last() =~= dm(s.drop_last())); } else { assert(dm(s) =~= Seq::<MarkdownMark>::empty()); }
    assert forall|m: &MarkdownMark| #[trigger] dm(s.push(m)) == dm(s).push(*m) by { assert(dm(s.push(m)) =~= dm(s).push(*m)); }
    assert forall|m: &MarkdownMark| #[trigger] s.contains(m) <==> dm(s).contains(*m) by {
        if s.contains(m) { let i = choose|i: int| 0 <= i < s.len() && s[i] == m; assert(dm(s)[i] == *m); }
        if dm(s).contains(*m) { let i = choose|i: int| 0 <= i < dm(s).len() && dm(s)[i] == *m; assert(s[i] == m); }
    }
}
pub proof fn lemma_ain(s: Seq<(&MarkdownNode, usize)>)
    ensures
        ain(s).len() == s.len(),
        s.len() > 0 ==> ain(s).drop_last() == ain(s.drop_last()) && ain(s).last() == (abs(*s.last().0), s.last().1 as int) && ain(s) == ain(s.drop_last()).push((abs(*s.last().0), s.last().1 as int)),
        forall|p: (&MarkdownNode, usize)| #[trigger] ain(s.push(p)) == ain(s).push((abs(*p.0), p.1 as int)),
        s.len() == 0 ==> ain(s) == Seq::<(T, int)>::empty(),
{
    if s.len() > 0 { assert(ain(s).drop_last() =~= ain(s.drop_last())); assert(ain(s) =~= ain(s.drop_last()).push((abs(*s.last().0), s.last().1 as int))); } else { assert(ain(s) =~= Seq::<(T, int)>::empty()); }
    assert forall|p: (&MarkdownNode, usize)| #[trigger] ain(s.push(p)) == ain(s).push((abs(*p.0), p.1 as int)) by { assert(ain(s.push(p)) =~= ain(s).push((abs(*p.0), p.1 as int))); }
}
pub proof fn lemma_out_facts()
    ensures
        forall|s: Seq<(&MarkdownNode, usize)>, p: (&MarkdownNode, usize)| #[trigger] ain(s.push(p)) == ain(s).push((abs(*p.0), p.1 as int)),
        forall|s: Seq<&MarkdownMark>, m: &MarkdownMark| #[trigger] dm(s.push(m)) == dm(s).push(*m),
        forall|x: Seq<EvS>| #[trigger] (Seq::<EvS>::empty() + x) == x,
        forall|x: Seq<EvS>| #[trigger] (x + Seq::<EvS>::empty()) == x,
        forall|a: Seq<EvS>, b: Seq<EvS>, c: Seq<EvS>| #[trigger] ((a + b) + c) == a + (b + c),
        forall|s: Seq<Event>| s.len() == 0 ==> #[trigger] evs_rev(s) == Seq::<EvS>::empty(),
        forall|s: Seq<Event>, e: Event| #[trigger] evs_rev(s.push(e)) == seq![ev_of(e)] + evs_rev(s),
        forall|s: Seq<Event>| s.len() > 0 ==> #[trigger] evs_rev(s) == seq![ev_of(s.last())] + evs_rev(s.drop_last()),
{
    assert forall|s: Seq<(&MarkdownNode, usize)>, p: (&MarkdownNode, usize)| #[trigger] ain(s.push(p)) == ain(s).push((abs(*p.0), p.1 as int)) by { lemma_ain(s); }
    assert forall|s: Seq<&MarkdownMark>, m: &MarkdownMark| #[trigger] dm(s.push(m)) == dm(s).push(*m) by { lemma_dm(s); }
    assert forall|x: Seq<EvS>| #[trigger] (Seq::<EvS>::empty() + x) == x by { assert(Seq::<EvS>::empty() + x =~= x); }
    assert forall|x: Seq<EvS>| #[trigger] (x + Seq::<EvS>::empty()) == x by { assert(x + Seq::<EvS>::empty() =~= x); }
    assert forall|a: Seq<EvS>, b: Seq<EvS>, c: Seq<EvS>| #[trigger] ((a + b) + c) == a + (b + c) by { assert((a + b) + c =~= a + (b + c)); }
    assert forall|s: Seq<Event>, e: Event| #[trigger] evs_rev(s.push(e)) == seq![ev_of(e)] + evs_rev(s) by { assert(s.push(e).drop_last() =~= s); }
}
/// all that can be next at a node inside of the tree
pub proof fn lemma_at(s: Seq<(T, int)>, t: T, i: int, open: Seq<MarkdownMark>)
    requires i >= 0, t matches T::Node(h, k) ==> ((h is Image || h is HardBreak || h is HorizontalRule) ==> k.len() == 0)
    ensures
        wi(s.push((t, i))) == wi(s) + wn((t, i)),
        match t {
            T::Text(x, m) => true,
            T::Node(h, k) => {
                &&& h is Doc && i < k.len() ==> rems(s.push((t, i)), open) == rems(s.push((t, i + 1)).push((k[i], 0)), open)
                &&& h is Doc && i >= k.len() ==> rems(s.push((t, i)), open) == rems(s, open)
                &&& h is HardBreak ==> rems(s.push((t, i)), open) == seq![EvS::HardBreak] + rems(s, open)
                &&& h is HorizontalRule ==> rems(s.push((t, i)), open) == seq![EvS::Rule] + rems(s, open)
                &&& h is Image && i == 1 && alt_evs(h).len() > 0 ==> rems(s.push((t, i)), open) == seq![EvS::Text(h->Image_0.alt@)] + rems(s.push((t, 2)), open)
                &&& (h is Doc || (tagged(h) && i > 0)) && i < k.len() ==> rems(s.push((t, i)), open) == rems(s.push((t, i + 1)).push((k[i], 0)), open) && wi(s.push((t, i + 1)).push((k[i], 0))) < wi(s) + wn((t, i))
                &&& tagged(h) && open.len() > 0 && (i == 0 || (i >= k.len() && (i == 1 ==> alt_evs(h).len() == 0))) ==> rems(s.push((t, i)), open) == seq![EvS::End(mark_tg(open.last()))] + rems(s.push((t, i)), open.drop_last())
                &&& tagged(h) && open.len() == 0 && i == 0 && k.len() > 0 ==> rems(s.push((t, i)), open) == seq![EvS::Start(head_tg(h))] + rems(s.push((t, 1)).push((k[0], 0)), open)
                &&& tagged(h) && open.len() == 0 && i == 0 && k.len() == 0 ==> rems(s.push((t, i)), open) == seq![EvS::Start(head_tg(h))] + rems(s.push((t, 1)), open)
                &&& tagged(h) && open.len() == 0 && i > 0 && i >= k.len() && (i == 1 ==> alt_evs(h).len() == 0) ==> rems(s.push((t, i)), open) == (if h is CodeBlock { seq![EvS::Text(seq!['\n'])] + (seq![EvS::End(head_tg(h))] + rems(s, open)) } else { seq![EvS::End(head_tg(h))] + rems(s, open) })
            },
        },
{
    lemma_rems_push(s, (t, i), open);
    if let T::Node(h, k) = t {
        if open.len() == 0 { assert(open =~= Seq::<MarkdownMark>::empty()); }
        if h is Doc && i >= k.len() { assert(evk(k, i, open) == (Seq::<EvS>::empty(), open)); assert(rems(s.push((t, i)), open) =~= rems(s, open)); }
        if h is HardBreak || h is HorizontalRule { assert(evn(t, i, open) == evt(t, open)); }
        if h is Image && i == 1 && alt_evs(h).len() > 0 { lemma_rems_alt(s, h, k, open); }
        if (h is Doc || (tagged(h) && i > 0)) && i < k.len() { lemma_rems_child(s, h, k, i, open); }
        if tagged(h) && open.len() > 0 && (i == 0 || (i >= k.len() && (i == 1 ==> alt_evs(h).len() == 0))) { lemma_rems_close(s, h, k, i, open); }
        if tagged(h) && open.len() == 0 && i == 0 { lemma_rems_start(s, h, k); }
        if tagged(h) && open.len() == 0 && i > 0 && i >= k.len() && (i == 1 ==> alt_evs(h).len() == 0) {
            lemma_rems_end(s, h, k, i);
            if h is CodeBlock { assert(fin(h) + rems(s, open) =~= seq![EvS::Text(seq!['\n'])] + (seq![EvS::End(head_tg(h))] + rems(s, open))); }
        }
    }
}
/// a text that is written next
pub open spec fn text_ready(before: Seq<EvS>, s: Seq<(T, int)>, x: Seq<char>, m: Seq<MarkdownMark>, i: int, open: Seq<MarkdownMark>) -> bool {
    all_in(open, m) && before == rems(s.push((T::Text(x, m), i)), open)
}
pub proof fn lemma_next_facts(st: Seq<Event>, x: Seq<EvS>)
    ensures
        forall|s: Seq<(&MarkdownNode, usize)>, p: (&MarkdownNode, usize)| #[trigger] ain(s.push(p)) == ain(s).push((abs(*p.0), p.1 as int)),
        forall|s: Seq<&MarkdownMark>, m: &MarkdownMark| #[trigger] dm(s.push(m)) == dm(s).push(*m),
        forall|s: Seq<Event>, x: Seq<EvS>| s.len() == 0 ==> #[trigger] (evs_rev(s) + x) == x,
        st.len() > 0 ==> evs_rev(st) + x == seq![ev_of(st.last())] + (evs_rev(st.drop_last()) + x),
{
    lemma_out_facts();
}
pub proof fn lemma_text_close(s: Seq<(T, int)>, x: Seq<char>, m: Seq<MarkdownMark>, i: int, open: Seq<MarkdownMark>)
    ensures
        open.len() == 0 ==> all_in(open, m),
        open.len() > 0 && !all_in(open, m) ==> rems(s.push((T::Text(x, m), i)), open) == seq![EvS::End(mark_tg(open.last()))] + rems(s.push((T::Text(x, m), i)), open.drop_last()),
{ lemma_rems_text(s, x, m, i, open); }
pub proof fn lemma_text_open(before: Seq<EvS>, s: Seq<(T, int)>, x: Seq<char>, m: Seq<MarkdownMark>, i: int, open: Seq<MarkdownMark>, j: int)
    requires text_ready(before, s, x, m, i, open), 0 <= j < m.len(), forall|l: int| 0 <= l < j ==> is_open(#[trigger] m[l], open)
    ensures !is_open(m[j], open) ==> before == seq![EvS::Start(mark_tg(m[j]))] + rems(s.push((T::Text(x, m), i)), open.push(m[j]))
{ lemma_rems_text(s, x, m, i, open); }
pub proof fn lemma_text_done(before: Seq<EvS>, s: Seq<(T, int)>, x: Seq<char>, m: Seq<MarkdownMark>, i: int, open: Seq<MarkdownMark>)
    requires text_ready(before, s, x, m, i, open), forall|l: int| 0 <= l < m.len() ==> is_open(#[trigger] m[l], open)
    ensures
        m.contains(MarkdownMark::Code) ==> before == seq![EvS::Code(x)] + rems(s, open),
        !m.contains(MarkdownMark::Code) ==> before == seq![EvS::Text(x)] + rems(s, open),
{ lemma_rems_text(s, x, m, i, open); }
pub proof fn lemma_all_in(ms: Seq<&MarkdownMark>, m: Seq<MarkdownMark>)
    ensures
        all_in(dm(ms), m) <==> forall|j: int| 0 <= j < ms.len() ==> m.contains(*#[trigger] ms[j]),
{
    lemma_dm(ms);
    if all_in(dm(ms), m) { assert forall|j: int| 0 <= j < ms.len() implies m.contains(*#[trigger] ms[j]) by { assert(dm(ms)[j] == *ms[j]); } }
}
// ------------------------------------------------------------------ Markdown: the writer
pub struct State { x: u8 }
/// what the writer makes of events (up to the writer)
pub uninterp spec fn md_text(es: Seq<EvS>) -> Seq<char>;
#[verifier::external_body]
pub fn cmark<'a>(events: MarkdownSerializer<'a>, buf: &mut String, options: Option<State>) -> (r: Result<State, core::fmt::Error>)
    ensures r is Ok ==> final(buf)@ == old(buf)@ + md_text(events.rem())
{ unimplemented!() }
//@END
