//@ONLY C15
// ------------------------------------------------------------------ Markdown: there and back
/// the tightness of lists is not written
pub open spec fn loose_head(h: Head) -> Head {
    match h {
        Head::BulletList(_) => Head::BulletList(BulletListAttrs { tight: false }),
        Head::OrderedList(a) => Head::OrderedList(OrderedListAttrs { order: a.order, tight: false }),
        _ => h,
    }
}
pub open spec fn loose(t: T) -> T decreases t, 0nat {
    match t { T::Node(h, k) => T::Node(loose_head(h), loose_all(k)), T::Text(..) => t }
}
pub open spec fn loose_all(k: Seq<T>) -> Seq<T> decreases k, k.len() {
    if k.len() == 0 { Seq::empty() } else { loose_all(k.drop_last()).push(loose(k.last())) }
}
pub proof fn lemma_loose_all(k: Seq<T>)
    ensures loose_all(k).len() == k.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] loose_all(k)[i] == loose(k[i])
    decreases k.len()
{ if k.len() > 0 { lemma_loose_all(k.drop_last()); } }
pub proof fn lemma_loose(t: T)
    ensures t_ty(loose(t)) == t_ty(t), t_marks(loose(t)) == t_marks(t), t_valid(loose(t)) == t_valid(t), loose(t) is Text <==> t is Text, t is Text ==> loose(t) == t,
{
    if let T::Node(h, k) = t {
        lemma_loose_all(k);
        let u = loose_all(k);
        assert forall|i: int| 0 <= i < k.len() implies t_ty(#[trigger] u[i]) == t_ty(k[i]) && t_marks(u[i]) == t_marks(k[i]) by { }
        assert(u.map_values(|k: T| t_ty(k)) =~= k.map_values(|k: T| t_ty(k)));
        if t_valid(t) { assert forall|i: int| 0 <= i < u.len() implies marks_ok(t_ty(t), t_marks(#[trigger] u[i])) by { assert(marks_ok(t_ty(t), t_marks(k[i]))); } }
        if t_valid(loose(t)) { assert forall|i: int| 0 <= i < k.len() implies marks_ok(t_ty(t), t_marks(#[trigger] k[i])) by { assert(marks_ok(t_ty(t), t_marks(u[i]))); } }
    }
}
pub proof fn lemma_feed_cat(st: St, a: Seq<EvS>, b: Seq<EvS>)
    ensures feed_all(st, a + b) == match feed_all(st, a) { Some(s) => feed_all(s, b), None => None }
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); } else {
        assert((a + b)[0] == a[0]);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        match feed(st, a[0]) { Some(s) => lemma_feed_cat(s, a.skip(1), b), None => {} }
    }
}
pub proof fn lemma_feed_one(st: St, e: EvS)
    ensures feed_all(st, seq![e]) == feed(st, e), feed_all(st, Seq::<EvS>::empty()) == Some(st)
{ 
    assert(seq![e].skip(1) =~= Seq::<EvS>::empty());
    match feed(st, e) { Some(s) => { assert(feed_all(s, seq![e].skip(1)) == Some(s)); }, None => {} }
}
// the open marks as a set
pub open spec fn mrank(m: MarkdownMark) -> int { mark_ty(m).rank() as int }
pub open spec fn uniq(o: Seq<MarkdownMark>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < o.len() ==> mrank(#[trigger] o[i]) != mrank(#[trigger] o[j])) && (forall|i: int| 0 <= i < o.len() ==> !(#[trigger] o[i] is Code))
}
pub open spec fn ms(o: Seq<MarkdownMark>) -> Seq<MarkdownMark> decreases o.len() { if o.len() == 0 { Seq::empty() } else { madd(ms(o.drop_last()), o.last()) } }
pub proof fn lemma_madd_has(s: Seq<MarkdownMark>, m: MarkdownMark)
    requires sorted_marks(s), forall|i: int| 0 <= i < s.len() ==> mrank(#[trigger] s[i]) != mrank(m)
    ensures forall|x: MarkdownMark| #[trigger] madd(s, m).contains(x) <==> s.contains(x) || x == m
    decreases s.len()
{
    if s.len() == 0 {
        assert(madd(s, m)[0] == m);
    } else {
        let d = s.drop_last();
        assert(mrank(s[s.len() - 1]) != mrank(m));
        if mrank(m) > mrank(s.last()) {
            let u = s.push(m);
            assert forall|x: MarkdownMark| #[trigger] madd(s, m).contains(x) <==> s.contains(x) || x == m by {
                if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(u[i] == x); }
                assert(u[s.len() as int] == m);
                if u.contains(x) { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; if i < s.len() { assert(s[i] == x); } }
            }
        } else {
            lemma_sorted_drop(s);
            assert forall|i: int| 0 <= i < d.len() implies mrank(#[trigger] d[i]) != mrank(m) by { assert(d[i] == s[i]); }
            lemma_madd_has(d, m);
            let w = madd(d, m);
            let u = w.push(s.last());
            assert forall|x: MarkdownMark| #[trigger] madd(s, m).contains(x) <==> s.contains(x) || x == m by {
                if s.contains(x) || x == m {
                    if x == s.last() { assert(u[w.len() as int] == x); } else {
                        if x != m { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(d[i] == x); }
                        assert(w.contains(x));
                        let i = choose|i: int| 0 <= i < w.len() && w[i] == x; assert(u[i] == x);
                    }
                }
                if u.contains(x) {
                    let i = choose|i: int| 0 <= i < u.len() && u[i] == x;
                    if i < w.len() { assert(w[i] == x); assert(w.contains(x)); if x != m { let j = choose|j: int| 0 <= j < d.len() && d[j] == x; assert(s[j] == x); } } else { assert(s[s.len() - 1] == x); }
                }
            }
        }
    }
}
pub proof fn lemma_mrem_has(s: Seq<MarkdownMark>, m: MarkdownMark)
    requires sorted_marks(s)
    ensures forall|x: MarkdownMark| #[trigger] mrem(s, m).contains(x) <==> s.contains(x) && x != m
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_sorted_drop(s);
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != s.last() by { assert(d[i] == s[i]); assert(mark_ty(s[i]).rank() < mark_ty(s[s.len() - 1]).rank()); }
        lemma_mrem_has(d, m);
        let w = mrem(d, m);
        let u = w.push(s.last());
        assert forall|x: MarkdownMark| #[trigger] mrem(s, m).contains(x) <==> s.contains(x) && x != m by {
            if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < d.len() { assert(d[i] == x); assert(d.contains(x)); } else { assert(x == s.last()); } }
            if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); assert(x != s.last()); }
            if s.last() != m {
                if x == s.last() { assert(u[w.len() as int] == x); assert(s[s.len() - 1] == x); }
                if w.contains(x) { let i = choose|i: int| 0 <= i < w.len() && w[i] == x; assert(u[i] == x); }
                if u.contains(x) { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; if i < w.len() { assert(w[i] == x); assert(w.contains(x)); } }
            }
        }
    }
}
pub proof fn lemma_ms(o: Seq<MarkdownMark>)
    requires uniq(o)
    ensures sorted_marks(ms(o)), forall|x: MarkdownMark| #[trigger] ms(o).contains(x) <==> o.contains(x)
    decreases o.len()
{
    if o.len() > 0 {
        let d = o.drop_last();
        assert(uniq(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies mrank(#[trigger] d[i]) != mrank(#[trigger] d[j]) by { assert(d[i] == o[i] && d[j] == o[j]); } assert forall|i: int| 0 <= i < d.len() implies !(#[trigger] d[i] is Code) by { assert(d[i] == o[i]); } }
        lemma_ms(d);
        let s = ms(d);
        assert forall|i: int| 0 <= i < s.len() implies mrank(#[trigger] s[i]) != mrank(o.last()) by {
            assert(s.contains(s[i])); assert(d.contains(s[i]));
            let j = choose|j: int| 0 <= j < d.len() && d[j] == s[i];
            assert(o[j] == s[i] && o[o.len() - 1] == o.last());
        }
        lemma_madd_at(s, o.last());
        lemma_madd_has(s, o.last());
        assert forall|x: MarkdownMark| #[trigger] ms(o).contains(x) <==> o.contains(x) by {
            if d.contains(x) { let j = choose|j: int| 0 <= j < d.len() && d[j] == x; assert(o[j] == x); }
            if o.contains(x) { let j = choose|j: int| 0 <= j < o.len() && o[j] == x; if j < d.len() { assert(d[j] == x); } }
            assert(o[o.len() - 1] == o.last());
        }
    }
}
pub proof fn lemma_uniq_drop(o: Seq<MarkdownMark>)
    requires uniq(o), o.len() > 0
    ensures uniq(o.drop_last()), mrem(ms(o), o.last()) == ms(o.drop_last())
{
    let d = o.drop_last();
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies mrank(#[trigger] d[i]) != mrank(#[trigger] d[j]) by { assert(d[i] == o[i] && d[j] == o[j]); }
    assert forall|i: int| 0 <= i < d.len() implies !(#[trigger] d[i] is Code) by { assert(d[i] == o[i]); }
    lemma_ms(o); lemma_ms(d);
    lemma_mrem_has(ms(o), o.last());
    lemma_mrem_at(ms(o), o.last());
    let r = mrem(ms(o), o.last());
    assert forall|x: MarkdownMark| #[trigger] r.contains(x) <==> ms(d).contains(x) by {
        assert(ms(o).contains(x) <==> o.contains(x));
        if o.contains(x) { let j = choose|j: int| 0 <= j < o.len() && o[j] == x; if j < d.len() { assert(d[j] == x); } else { assert(x == o.last()); } }
        if d.contains(x) { let j = choose|j: int| 0 <= j < d.len() && d[j] == x; assert(o[j] == x); assert(mrank(o[j]) != mrank(o[o.len() - 1])); }
    }
    lemma_sorted_ext(r, ms(d));
}
pub open spec fn st_at(s: Seq<(Seq<T>, Head)>, o: Seq<MarkdownMark>) -> St { St { stack: s, marks: ms(o) } }
pub proof fn lemma_feed_mark(st: St, m: MarkdownMark)
    requires !(m is Code)
    ensures feed(st, EvS::Start(mark_tg(m))) == st_mark(st, m), feed(st, EvS::End(mark_tg(m))) == st_unmark(st, m)
{ broadcast use axiom_str_of; }
pub proof fn lemma_trip_closes(s: Seq<(Seq<T>, Head)>, o: Seq<MarkdownMark>, n: int)
    requires uniq(o), 0 <= n <= o.len()
    ensures feed_all(st_at(s, o), mcloses(o, n)) == Some(st_at(s, o.take(n))), uniq(o.take(n))
    decreases o.len()
{
    if o.len() <= n { assert(o.take(n) =~= o); } else {
        let d = o.drop_last();
        lemma_uniq_drop(o);
        assert(!(o[o.len() - 1] is Code));
        lemma_feed_mark(st_at(s, o), o.last());
        let e = EvS::End(mark_tg(o.last()));
        lemma_feed_one(st_at(s, o), e);
        lemma_feed_cat(st_at(s, o), seq![e], mcloses(d, n));
        lemma_trip_closes(s, d, n);
        assert(d.take(n) =~= o.take(n));
    }
}
pub proof fn lemma_kept_take(o: Seq<MarkdownMark>, m: Seq<MarkdownMark>)
    ensures kept(o, m).len() <= o.len(), kept(o, m) == o.take(kept(o, m).len() as int), all_in(kept(o, m), m)
    decreases o.len()
{
    if o.len() == 0 || all_in(o, m) { assert(o.take(o.len() as int) =~= o); } else {
        lemma_kept_take(o.drop_last(), m);
        assert(o.drop_last().take(kept(o, m).len() as int) =~= o.take(kept(o, m).len() as int));
    }
}
pub proof fn lemma_trip_opens(s: Seq<(Seq<T>, Head)>, m: Seq<MarkdownMark>, i: int, o: Seq<MarkdownMark>)
    requires uniq(o), all_in(o, m), sorted_marks(m), 0 <= i <= m.len(), forall|j: int| 0 <= j < i ==> is_open(#[trigger] m[j], o)
    ensures
        feed_all(st_at(s, o), mopens(m, i, o).0) == Some(st_at(s, mopens(m, i, o).1)),
        uniq(mopens(m, i, o).1), all_in(mopens(m, i, o).1, m),
        forall|j: int| 0 <= j < m.len() ==> is_open(#[trigger] m[j], mopens(m, i, o).1),
    decreases m.len() - i
{
    if i < m.len() {
        if is_open(m[i], o) { lemma_trip_opens(s, m, i + 1, o); }
        else {
            let p = o.push(m[i]);
            assert forall|a: int, b: int| 0 <= a < b < p.len() implies mrank(#[trigger] p[a]) != mrank(#[trigger] p[b]) by {
                assert(p[a] == o[a]);
                if b < o.len() { assert(p[b] == o[b]); } else {
                    assert(m.contains(o[a]));
                    let c = choose|c: int| 0 <= c < m.len() && m[c] == o[a];
                    if c == i { assert(o.contains(m[i])); }
                    if c < i { assert(mark_ty(m[c]).rank() < mark_ty(m[i]).rank()); }
                    if c > i { assert(mark_ty(m[i]).rank() < mark_ty(m[c]).rank()); }
                }
            }
            assert forall|a: int| 0 <= a < p.len() implies !(#[trigger] p[a] is Code) by { if a < o.len() { assert(p[a] == o[a]); } }
            assert(uniq(p));
            assert forall|a: int| 0 <= a < p.len() implies m.contains(#[trigger] p[a]) by { if a < o.len() { assert(p[a] == o[a]); } }
            assert forall|j: int| 0 <= j < i + 1 implies is_open(#[trigger] m[j], p) by {
                if j < i { if !(m[j] is Code) { let w = choose|w: int| 0 <= w < o.len() && o[w] == m[j]; assert(p[w] == m[j]); } } else { assert(p[o.len() as int] == m[j]); }
            }
            lemma_trip_opens(s, m, i + 1, p);
            assert(p.drop_last() =~= o);
            lemma_feed_mark(st_at(s, o), m[i]);
            let e = EvS::Start(mark_tg(m[i]));
            lemma_feed_one(st_at(s, o), e);
            lemma_feed_cat(st_at(s, o), seq![e], mopens(m, i + 1, p).0);
        }
    } else { lemma_feed_one(st_at(s, o), EvS::Rule); }
}
pub open spec fn st_put(s: Seq<(Seq<T>, Head)>, t: T) -> Seq<(Seq<T>, Head)> { s.drop_last().push((s.last().0.push(t), s.last().1)) }
/// the marks of the text are the open ones
pub proof fn lemma_ms_text(m: Seq<MarkdownMark>, o: Seq<MarkdownMark>)
    requires uniq(o), all_in(o, m), sorted_marks(m), forall|j: int| 0 <= j < m.len() ==> is_open(#[trigger] m[j], o)
    ensures m == if m.contains(MarkdownMark::Code) { madd(ms(o), MarkdownMark::Code) } else { ms(o) }
{
    let c = MarkdownMark::Code;
    lemma_ms(o);
    if m.contains(c) {
        let s = ms(o);
        let ci = choose|i: int| 0 <= i < m.len() && m[i] == c;
        assert forall|i: int| 0 <= i < s.len() implies mrank(#[trigger] s[i]) != mrank(c) by {
            assert(s.contains(s[i])); assert(o.contains(s[i]));
            let j = choose|j: int| 0 <= j < o.len() && o[j] == s[i];
            assert(m.contains(o[j])); assert(!(o[j] is Code));
            let l = choose|l: int| 0 <= l < m.len() && m[l] == o[j];
            if l < ci { assert(mark_ty(m[l]).rank() < mark_ty(m[ci]).rank()); }
            if l > ci { assert(mark_ty(m[ci]).rank() < mark_ty(m[l]).rank()); }
        }
        lemma_madd_has(s, c); lemma_madd_at(s, c);
        let r = madd(s, c);
        assert forall|x: MarkdownMark| #[trigger] m.contains(x) <==> r.contains(x) by {
            if m.contains(x) { let j = choose|j: int| 0 <= j < m.len() && m[j] == x; assert(is_open(m[j], o)); if !(x is Code) { assert(s.contains(x)); } }
            if s.contains(x) { assert(o.contains(x)); let j = choose|j: int| 0 <= j < o.len() && o[j] == x; assert(m.contains(o[j])); }
        }
        lemma_sorted_ext(m, r);
    } else {
        let r = ms(o);
        assert forall|x: MarkdownMark| #[trigger] m.contains(x) <==> r.contains(x) by {
            if m.contains(x) { let j = choose|j: int| 0 <= j < m.len() && m[j] == x; assert(is_open(m[j], o)); assert(r.contains(x)); }
            if r.contains(x) { assert(o.contains(x)); let j = choose|j: int| 0 <= j < o.len() && o[j] == x; assert(m.contains(o[j])); }
        }
        lemma_sorted_ext(m, r);
    }
}
pub proof fn lemma_trip_text(s: Seq<(Seq<T>, Head)>, x: Seq<char>, m: Seq<MarkdownMark>, o: Seq<MarkdownMark>)
    requires uniq(o), sorted_marks(m), x.len() > 0, s.len() > 0, s.last().0.len() > 0 ==> !t_meets(s.last().0.last(), T::Text(x, m))
    ensures
        feed_all(st_at(s, o), text_evs(x, m, o).0) == Some(st_at(st_put(s, T::Text(x, m)), text_evs(x, m, o).1)),
        uniq(text_evs(x, m, o).1),
{
    let k = kept(o, m);
    lemma_kept_take(o, m);
    lemma_trip_closes(s, o, k.len() as int);
    lemma_trip_opens(s, m, 0, k);
    let (e, p) = mopens(m, 0, k);
    let c = char_ev(x, m);
    lemma_ms_text(m, p);
    lemma_feed_one(st_at(s, p), c);
    lemma_feed_cat(st_at(s, k), e, seq![c]);
    lemma_feed_cat(st_at(s, o), mcloses(o, k.len() as int), e + seq![c]);
    assert(feed(st_at(s, p), c) == Some(st_at(st_put(s, T::Text(x, m)), p)));
}

/// every node has a type of its own (trees of documents do, see lemma_proper)
pub open spec fn proper(t: T) -> bool decreases t {
    match t { T::Node(h, k) => !(h is Text) && forall|i: int| 0 <= i < k.len() ==> proper(#[trigger] k[i]), T::Text(..) => true }
}
pub proof fn lemma_proper(n: MarkdownNode)
    ensures proper(abs(n))
    decreases n, 0nat
{
    lemma_abs_ty(n);
    match n {
        MarkdownNode::Doc(b) => lemma_proper_all(b.content.inner@),
        MarkdownNode::Heading(a) => lemma_proper_all(a.content.inner@),
        MarkdownNode::CodeBlock(a) => lemma_proper_all(a.content.inner@),
        MarkdownNode::Blockquote(b) => lemma_proper_all(b.content.inner@),
        MarkdownNode::Paragraph(b) => lemma_proper_all(b.content.inner@),
        MarkdownNode::BulletList(a) => lemma_proper_all(a.content.inner@),
        MarkdownNode::OrderedList(a) => lemma_proper_all(a.content.inner@),
        MarkdownNode::ListItem(b) => lemma_proper_all(b.content.inner@),
        _ => {},
    }
}
pub proof fn lemma_proper_all(s: Seq<MarkdownNode>)
    ensures forall|i: int| 0 <= i < abs_all(s).len() ==> proper(#[trigger] abs_all(s)[i])
    decreases s, s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_proper_all(d); lemma_proper(s.last());
        assert forall|i: int| 0 <= i < abs_all(s).len() implies proper(#[trigger] abs_all(s)[i]) by { if i < abs_all(d).len() { assert(abs_all(s)[i] == abs_all(d)[i]); } }
    }
}
pub open spec fn open_head(h: Head, e: String) -> Head { match h { Head::Image(a) => Head::Image(ImageAttrs { src: a.src, alt: e, title: a.title }), _ => loose_head(h) } }
pub proof fn lemma_trip_start(st: St, h: Head, e: String)
    requires tagged(h), !(h is Text), e@ == Seq::<char>::empty()
    ensures feed(st, EvS::Start(head_tg(h))) == Some(St { stack: st.stack.push((Seq::empty(), open_head(h, e))), marks: st.marks })
{
    broadcast use axiom_str_of;
    axiom_str_of(e);
    match h { Head::Heading(a) => { assert((a.level as u32) as u8 == a.level); }, Head::OrderedList(a) => { assert((a.order as u64) as usize == a.order); }, _ => {} }
}
pub proof fn lemma_runs_blocks(k: Seq<T>)
    requires no_inline(k)
    ensures runs(k) == (k, Seq::<T>::empty())
    decreases k.len()
{
    if k.len() == 0 { assert(k =~= Seq::<T>::empty()); } else {
        let d = k.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies !is_inline_ty(t_ty(#[trigger] d[i])) by { assert(d[i] == k[i]); }
        lemma_runs_blocks(d);
        assert(k[k.len() - 1] == k.last());
        assert(d.push(k.last()) =~= k);
    }
}
pub proof fn lemma_trip_end(s: Seq<(Seq<T>, Head)>, o: Seq<MarkdownMark>, h: Head, k: Seq<T>)
    requires tagged(h), !(h is Text || h is Image || h is CodeBlock), t_valid(T::Node(loose_head(h), k)), s.len() > 0
    ensures feed(st_at(s.push((k, loose_head(h))), o), EvS::End(head_tg(h))) == Some(st_at(st_put(s, T::Node(loose_head(h), k)), o))
{
    let st = st_at(s.push((k, loose_head(h))), o);
    let y = k.map_values(|k: T| t_ty(k));
    assert(st.stack.drop_last() =~= s);
    if h is ListItem {
        assert forall|i: int| 0 <= i < k.len() implies !is_inline_ty(t_ty(#[trigger] k[i])) by { assert(y[i] == t_ty(k[i])); }
        lemma_runs_blocks(k);
        assert(y[0] == t_ty(k[0]));
        assert(item_kids(k) == k);
    }
}
pub proof fn lemma_trip_code(s: Seq<(Seq<T>, Head)>, h: Head, k: Seq<T>)
    requires h is CodeBlock, t_valid(T::Node(h, k)), ts_ok(k), forall|i: int| 0 <= i < k.len() ==> proper(#[trigger] k[i]), s.len() > 0
    ensures feed_all(st_at(s.push((k, h)), Seq::empty()), fin(h)) == Some(st_at(st_put(s, T::Node(h, k)), Seq::empty()))
{
    let n = Seq::<MarkdownMark>::empty();
    let nl = seq!['\n'];
    let st = st_at(s.push((k, h)), n);
    let y = k.map_values(|k: T| t_ty(k));
    assert forall|i: int| 0 <= i < k.len() implies (#[trigger] k[i]) is Text && t_marks(k[i]) == n by {
        assert(y[i] == t_ty(k[i]));
        assert(marks_ok(head_ty(h), t_marks(t_kids(T::Node(h, k))[i])));
        assert(t_ok(k[i]) && proper(k[i]));
        match k[i] { T::Node(g, _) => { assert(head_ty(g) is Text); assert(false); }, T::Text(..) => {} }
        assert(t_marks(k[i]) =~= n);
    }
    if k.len() > 1 { assert(!t_meets(k[0], k[1])); assert(k[1] is Text && t_marks(k[1]) == n); assert(k[0] is Text && t_marks(k[0]) == n); assert(false); }
    let t = T::Text(nl, n);
    let k2 = addt(k, t);
    let s2 = s.push((k2, h));
    assert(s.push((k, h)).drop_last() =~= s);
    assert(s2.drop_last() =~= s);
    assert(feed(st, EvS::Text(nl)) == Some(st_at(s2, n)));
    if k.len() == 0 {
        assert(k2 =~= seq![t]);
        assert(k2.drop_last() =~= k);
        assert(code_kids(k2) == k);
    } else {
        assert(k.last() == k[0]);
        let x = k[0]->Text_0;
        assert(k2.last() == T::Text(x + nl, n));
        assert((x + nl).drop_last() =~= x);
        assert(k2.drop_last().push(T::Text(x, n)) =~= k);
        assert(t_ok(k[0]));
        assert(code_kids(k2) == k);
    }
    assert(feed(st_at(s2, n), EvS::End(head_tg(h))) == Some(st_at(st_put(s, T::Node(h, k)), n)));
    lemma_feed_one(st, EvS::Text(nl));
    lemma_feed_one(st_at(s2, n), EvS::End(head_tg(h)));
    lemma_feed_cat(st, seq![EvS::Text(nl)], seq![EvS::End(head_tg(h))]);
    assert(fin(h) =~= seq![EvS::Text(nl)] + seq![EvS::End(head_tg(h))]);
}
pub proof fn lemma_trip_image(s: Seq<(Seq<T>, Head)>, h: Head, e: String)
    requires h is Image, e@ == Seq::<char>::empty(), s.len() > 0
    ensures feed_all(st_at(s.push((Seq::empty(), open_head(h, e))), Seq::empty()), alt_evs(h) + fin(h)) == Some(st_at(st_put(s, T::Node(h, Seq::empty())), Seq::empty()))
{
    broadcast use axiom_str_of;
    let n = Seq::<MarkdownMark>::empty();
    let g = open_head(h, e);
    let a = h->Image_0;
    let z = Seq::<T>::empty();
    let st = st_at(s.push((z, g)), n);
    let t = T::Text(a.alt@, n);
    let k2 = if a.alt@.len() > 0 { seq![t] } else { z };
    let st2 = st_at(s.push((k2, g)), n);
    assert(s.push((z, g)).drop_last() =~= s);
    assert(s.push((k2, g)).drop_last() =~= s);
    lemma_feed_one(st, EvS::Text(a.alt@));
    if a.alt@.len() > 0 { assert(addt(z, t) =~= k2); assert(k2.drop_last() =~= z); assert(alt_text(z) =~= Seq::<char>::empty()); assert(alt_text(k2) =~= a.alt@); }
    else { assert(alt_text(k2) =~= a.alt@); }
    assert(feed_all(st, alt_evs(h)) == Some(st2));
    assert(e@ + alt_text(k2) =~= a.alt@);
    assert(all_text(k2));
    axiom_str_of(a.alt);
    assert(z.map_values(|k: T| t_ty(k)) =~= Seq::<MarkdownNodeType>::empty());
    assert(t_valid(T::Node(h, z)));
    assert(feed(st2, EvS::End(head_tg(h))) == Some(st_at(st_put(s, T::Node(h, z)), n)));
    lemma_feed_one(st2, EvS::End(head_tg(h)));
    lemma_feed_cat(st, alt_evs(h), fin(h));
}
/// the events of a node build the node
pub proof fn lemma_trip(t: T, s: Seq<(Seq<T>, Head)>, o: Seq<MarkdownMark>, e: String)
    requires
        t_ok(t), proper(t), !(t_ty(t) is Doc), uniq(o), s.len() > 0, e@ == Seq::<char>::empty(),
        s.last().0.len() > 0 ==> !t_meets(s.last().0.last(), t)
    ensures
        feed_all(st_at(s, o), evt(t, o).0) == Some(st_at(st_put(s, loose(t)), evt(t, o).1)),
        uniq(evt(t, o).1),
    decreases t, 0nat
{
    match t {
        T::Text(x, m) => { lemma_trip_text(s, x, m, o); },
        T::Node(h, k) => {
            let n = Seq::<MarkdownMark>::empty();
            lemma_loose(t); lemma_loose_all(k);
            let y = k.map_values(|k: T| t_ty(k));
            if !tagged(h) {
                assert(k =~= Seq::<T>::empty());
                assert(loose_all(k) =~= Seq::<T>::empty());
                lemma_feed_one(st_at(s, o), evt(t, o).0[0]);
            } else {
                let g = open_head(h, e);
                let s1 = s.push((Seq::<T>::empty(), g));
                lemma_trip_closes(s, o, 0);
                assert(o.take(0) =~= n);
                lemma_trip_start(st_at(s, n), h, e);
                lemma_feed_one(st_at(s, n), EvS::Start(head_tg(h)));
                let (es, p) = evk(k, 0, n);
                let r3 = mcloses(p, 0) + fin(h);
                let r2 = es + r3;
                let r1 = alt_evs(h) + r2;
                let s3 = st_put(s, loose(t));
                if h is Image {
                    assert(y.len() == k.len());
                    assert(k =~= Seq::<T>::empty());
                    assert(loose_all(k) =~= Seq::<T>::empty());
                    lemma_trip_image(s, h, e);
                    assert(r2 =~= fin(h));
                } else {
                    let u = loose_all(k);
                    assert forall|i: int| 0 <= i < k.len() implies !(t_ty(#[trigger] k[i]) is Doc) by { assert(y[i] == t_ty(k[i])); }
                    assert(u.take(0) =~= Seq::<T>::empty());
                    lemma_trip_kids(k, 0, s1, n, e);
                    let s2 = s.push((u, g));
                    assert(s1.drop_last().push((u, g)) =~= s2);
                    lemma_trip_closes(s2, p, 0);
                    assert(p.take(0) =~= n);
                    if h is CodeBlock {
                        assert forall|i: int| 0 <= i < k.len() implies (#[trigger] k[i]) is Text by { assert(y[i] == t_ty(k[i])); assert(proper(k[i])); match k[i] { T::Node(g, _) => { assert(head_ty(g) is Text); assert(false); }, T::Text(..) => {} } }
                        assert forall|i: int| 0 <= i < k.len() implies u[i] == #[trigger] k[i] by { lemma_loose(k[i]); }
                        assert(u =~= k);
                        lemma_trip_code(s, h, k);
                    } else {
                        lemma_trip_end(s, n, h, u);
                        lemma_feed_one(st_at(s2, n), EvS::End(head_tg(h)));
                    }
                    assert(feed_all(st_at(s2, n), fin(h)) == Some(st_at(s3, n)));
                    lemma_feed_cat(st_at(s2, p), mcloses(p, 0), fin(h));
                    lemma_feed_cat(st_at(s1, n), es, r3);
                    assert(r1 =~= r2);
                }
                assert(feed_all(st_at(s1, n), r1) == Some(st_at(s3, n)));
                lemma_feed_cat(st_at(s, n), seq![EvS::Start(head_tg(h))], r1);
                lemma_feed_cat(st_at(s, o), mcloses(o, 0), seq![EvS::Start(head_tg(h))] + r1);
                assert(evt(t, o) == (mcloses(o, 0) + (seq![EvS::Start(head_tg(h))] + r1), n));
            }
        },
    }
}
pub proof fn lemma_trip_kids(k: Seq<T>, i: int, s: Seq<(Seq<T>, Head)>, o: Seq<MarkdownMark>, e: String)
    requires
        0 <= i <= k.len(), ts_ok(k), forall|j: int| 0 <= j < k.len() ==> proper(#[trigger] k[j]) && !(t_ty(k[j]) is Doc),
        uniq(o), s.len() > 0, e@ == Seq::<char>::empty(), s.last().0 == loose_all(k).take(i)
    ensures
        feed_all(st_at(s, o), evk(k, i, o).0) == Some(st_at(s.drop_last().push((loose_all(k), s.last().1)), evk(k, i, o).1)),
        uniq(evk(k, i, o).1),
    decreases k, k.len() - i
{
    let u = loose_all(k);
    lemma_loose_all(k);
    if i >= k.len() {
        assert(u.take(i) =~= u);
        assert(s.drop_last().push(s.last()) =~= s);
        lemma_feed_one(st_at(s, o), EvS::Rule);
    } else {
        assert(t_ok(k[i]) && proper(k[i]));
        if i > 0 { lemma_loose(k[i - 1]); assert(!t_meets(k[i - 1], k[i - 1 + 1])); assert(u.take(i).last() == loose(k[i - 1])); }
        lemma_trip(k[i], s, o, e);
        let (a, p) = evt(k[i], o);
        let s2 = st_put(s, loose(k[i]));
        assert(u.take(i).push(loose(k[i])) =~= u.take(i + 1));
        lemma_trip_kids(k, i + 1, s2, p, e);
        assert(s2.drop_last() =~= s.drop_last());
        lemma_feed_cat(st_at(s, o), a, evk(k, i + 1, p).0);
    }
}
/// the events of a document build the document
pub proof fn lemma_round_trip(t: T, e: String)
    requires t_ok(t), proper(t), t_ty(t) is Doc, e@ == Seq::<char>::empty()
    ensures built(doc_evs(t)) == Some(loose(t))
{
    match t {
        T::Text(..) => {},
        T::Node(h, k) => {
            let n = Seq::<MarkdownMark>::empty();
            let z = Seq::<T>::empty();
            let s = seq![(z, Head::Doc)];
            let y = k.map_values(|k: T| t_ty(k));
            lemma_loose(t); lemma_loose_all(k);
            assert forall|i: int| 0 <= i < k.len() implies !(t_ty(#[trigger] k[i]) is Doc) by { assert(y[i] == t_ty(k[i])); }
            assert(loose_all(k).take(0) =~= z);
            lemma_trip_kids(k, 0, s, n, e);
            assert(st_init() == st_at(s, n));
            assert(y.len() == k.len());
        },
    }
}
/// what a user gets, from the contracts alone: what is exported can be imported, which gives the document back, if the
/// parser finds in the text the events that were written
pub fn client_md_round_trip(doc: &MarkdownNode) -> (r: Result<MarkdownNode, bool>)
    requires wf_node(*doc), t_ok(abs(*doc)), ty(*doc) is Doc, toks(*doc).len() + 128 <= isize::MAX
    ensures
        built(doc_evs(abs(*doc))) == Some(loose(abs(*doc))),
        md_events(md_text(doc_evs(abs(*doc)))) == doc_evs(abs(*doc)) ==> match r { Ok(d) => abs(d) == loose(abs(*doc)), Err(b) => b },
{
    let e = String::new();
    proof {
        lemma_proper(*doc);
        lemma_abs_ty(*doc);
        assert(e@ =~= Seq::<char>::empty());
        lemma_round_trip(abs(*doc), e);
    }
    match to_markdown(doc) {
        Ok(s) => match from_markdown(s.as_str()) { Ok(d) => Ok(d), Err(_) => Err(false) },
        Err(_) => Err(true),
    }
}
//@END
