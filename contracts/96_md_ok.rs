//@ONLY C15
// ------------------------------------------------------------------ Markdown: what is imported is valid
/// a valid tree: content that the rules of each type allow, no empty text, no two texts that should be one, marks in order
pub open spec fn t_ok(t: T) -> bool decreases t {
    t_valid(t) && match t {
        T::Node(h, k) => (forall|i: int| 0 <= i < k.len() ==> t_ok(#[trigger] k[i])) && (forall|i: int| 0 <= i < k.len() - 1 ==> !t_meets(#[trigger] k[i], k[i + 1])),
        T::Text(s, m) => s.len() > 0 && sorted_marks(m),
    }
}
pub open spec fn ts_ok(k: Seq<T>) -> bool { (forall|i: int| 0 <= i < k.len() ==> t_ok(#[trigger] k[i])) && (forall|i: int| 0 <= i < k.len() - 1 ==> !t_meets(#[trigger] k[i], k[i + 1])) }
pub open spec fn st_ok(st: St) -> bool { sorted_marks(st.marks) && forall|i: int| 0 <= i < st.stack.len() ==> ts_ok((#[trigger] st.stack[i]).0) }

pub proof fn lemma_ts_push(k: Seq<T>, t: T)
    requires ts_ok(k), t_ok(t), k.len() > 0 ==> !t_meets(k.last(), t)
    ensures ts_ok(k.push(t))
{
    let u = k.push(t);
    assert forall|i: int| 0 <= i < u.len() implies t_ok(#[trigger] u[i]) by { if i < k.len() { assert(u[i] == k[i]); } }
    assert forall|i: int| 0 <= i < u.len() - 1 implies !t_meets(#[trigger] u[i], u[i + 1]) by { if i < k.len() - 1 { assert(u[i] == k[i] && u[i + 1] == k[i + 1]); } }
}
pub proof fn lemma_ts_drop(k: Seq<T>)
    requires ts_ok(k), k.len() > 0
    ensures ts_ok(k.drop_last()), t_ok(k.last()), k.len() > 1 ==> !t_meets(k.drop_last().last(), k.last())
{
    let u = k.drop_last();
    assert forall|i: int| 0 <= i < u.len() implies t_ok(#[trigger] u[i]) by { assert(u[i] == k[i]); }
    assert forall|i: int| 0 <= i < u.len() - 1 implies !t_meets(#[trigger] u[i], u[i + 1]) by { assert(u[i] == k[i] && u[i + 1] == k[i + 1]); }
    assert(k.last() == k[k.len() - 1]);
    if k.len() > 1 { assert(!t_meets(k[k.len() - 2], k[k.len() - 2 + 1])); }
}
pub proof fn lemma_t_text(s: Seq<char>, m: Seq<MarkdownMark>)
    requires s.len() > 0, sorted_marks(m)
    ensures t_ok(T::Text(s, m))
{ }
pub proof fn lemma_addt_ok(k: Seq<T>, s: Seq<char>, m: Seq<MarkdownMark>)
    requires ts_ok(k), s.len() > 0, sorted_marks(m)
    ensures ts_ok(addt(k, T::Text(s, m)))
{
    let t = T::Text(s, m);
    lemma_t_text(s, m);
    if k.len() > 0 && t_meets(k.last(), t) {
        lemma_ts_drop(k);
        let x = T::Text(k.last()->Text_0 + s, m);
        lemma_t_text(k.last()->Text_0 + s, m);
        lemma_ts_push(k.drop_last(), x);
    } else { lemma_ts_push(k, t); }
}
pub open spec fn all_inline(k: Seq<T>) -> bool { forall|i: int| 0 <= i < k.len() ==> is_inline_ty(t_ty(#[trigger] k[i])) }
pub open spec fn no_inline(k: Seq<T>) -> bool { forall|i: int| 0 <= i < k.len() ==> !is_inline_ty(t_ty(#[trigger] k[i])) }
pub proof fn lemma_p_ok(i: Seq<T>)
    requires ts_ok(i), all_inline(i)
    ensures t_ok(p_node(i)), t_ty(p_node(i)) is Paragraph
{
    let t = p_node(i);
    let y = i.map_values(|k: T| t_ty(k));
    assert forall|j: int| 0 <= j < y.len() implies is_inline_ty(#[trigger] y[j]) by { assert(is_inline_ty(t_ty(i[j]))); }
}
pub proof fn lemma_flush_ok(b: Seq<T>, i: Seq<T>)
    requires ts_ok(b), no_inline(b), ts_ok(i), all_inline(i)
    ensures ts_ok(flush(b, i)), no_inline(flush(b, i)), i.len() > 0 ==> flush(b, i).len() > 0,
{ if i.len() > 0 { lemma_p_ok(i); lemma_ts_push(b, p_node(i)); } }
pub proof fn lemma_runs_ok(k: Seq<T>)
    requires ts_ok(k)
    ensures
        ts_ok(runs(k).0), no_inline(runs(k).0), ts_ok(runs(k).1), all_inline(runs(k).1),
        runs(k).1.len() > 0 ==> k.len() > 0 && runs(k).1.last() == k.last(),
    decreases k.len()
{
    if k.len() > 0 {
        let u = k.drop_last();
        lemma_ts_drop(k); lemma_runs_ok(u);
        let (b, i) = runs(u);
        if is_inline_ty(t_ty(k.last())) { lemma_ts_push(i, k.last()); }
        else { lemma_flush_ok(b, i); lemma_ts_push(flush(b, i), k.last()); }
    }
}
pub proof fn lemma_item_ok(k: Seq<T>)
    requires ts_ok(k)
    ensures ts_ok(item_kids(k))
{
    lemma_runs_ok(k);
    let b = flush(runs(k).0, runs(k).1);
    lemma_flush_ok(runs(k).0, runs(k).1);
    let e = p_node(Seq::empty());
    lemma_p_ok(Seq::empty());
    let u = b.insert(0, e);
    assert forall|i: int| 0 <= i < u.len() implies t_ok(#[trigger] u[i]) by { if i > 0 { assert(u[i] == b[i - 1]); } }
    assert forall|i: int| 0 <= i < u.len() - 1 implies !t_meets(#[trigger] u[i], u[i + 1]) by { if i > 0 { assert(u[i] == b[i - 1] && u[i + 1] == b[i]); assert(!t_meets(b[i - 1], b[i - 1 + 1])); } }
}
pub proof fn lemma_block_ok(k: Seq<T>)
    requires ts_ok(k)
    ensures ts_ok(block_kids(k))
{ if k.len() == 0 { lemma_p_ok(Seq::empty()); lemma_ts_push(k, p_node(Seq::empty())); } }
pub proof fn lemma_code_ok(k: Seq<T>)
    requires ts_ok(k)
    ensures ts_ok(code_kids(k))
{
    if k.len() > 0 {
        lemma_ts_drop(k);
        match k.last() {
            T::Text(s, m) => if s.len() > 1 && s.last() == '\n' { lemma_t_text(s.drop_last(), m); lemma_ts_push(k.drop_last(), T::Text(s.drop_last(), m)); },
            _ => {},
        }
    }
}
/// one more node in the innermost open node
pub proof fn lemma_st_add_ok(st: St, h: Head, k: Seq<T>)
    requires st_ok(st), ts_ok(k), st_add(st, T::Node(h, k)) is Some
    ensures st_ok(st_add(st, T::Node(h, k))->Some_0)
{
    let t = T::Node(h, k);
    let s2 = st_add(st, t)->Some_0;
    assert(t_ok(t));
    let top = st.stack.last().0;
    assert(st.stack.last() == st.stack[st.stack.len() - 1]);
    lemma_ts_push(top, t);
    assert forall|i: int| 0 <= i < s2.stack.len() implies ts_ok((#[trigger] s2.stack[i]).0) by { if i < st.stack.len() - 1 { assert(s2.stack[i] == st.stack[i]); } }
}
pub proof fn lemma_st_push_ok(st: St, h: Head)
    requires st_ok(st)
    ensures st_ok(st_push(st, h)->Some_0)
{
    let s2 = st_push(st, h)->Some_0;
    assert forall|i: int| 0 <= i < s2.stack.len() implies ts_ok((#[trigger] s2.stack[i]).0) by { if i < st.stack.len() { assert(s2.stack[i] == st.stack[i]); } }
}
pub proof fn lemma_feed_ok(st: St, e: EvS)
    requires st_ok(st), feed(st, e) is Some
    ensures st_ok(feed(st, e)->Some_0)
{
    hide(t_valid); hide(runs); hide(item_kids); hide(code_kids); hide(block_kids); hide(alt_text); hide(madd); hide(mrem); hide(sorted_marks); hide(ts_ok); hide(t_ok);
    assert forall|m: MarkdownMark| sorted_marks(st.marks) implies #[trigger] sorted_marks(madd(st.marks, m)) by { lemma_madd_at(st.marks, m); }
    assert forall|m: MarkdownMark| sorted_marks(st.marks) implies #[trigger] sorted_marks(mrem(st.marks, m)) by { lemma_mrem_at(st.marks, m); }
    assert forall|h: Head| #[trigger] st_push(st, h) is Some && st_ok(st_push(st, h)->Some_0) by { lemma_st_push_ok(st, h); }
    assert forall|s: Seq<char>, m: Seq<MarkdownMark>| sorted_marks(m) && #[trigger] st_text(st, s, m) is Some implies st_ok(st_text(st, s, m)->Some_0) by {
        if s.len() > 0 {
            let s2 = st_text(st, s, m)->Some_0;
            assert(st.stack.last() == st.stack[st.stack.len() - 1]);
            lemma_addt_ok(st.stack.last().0, s, m);
            assert forall|i: int| 0 <= i < s2.stack.len() implies ts_ok((#[trigger] s2.stack[i]).0) by { if i < st.stack.len() - 1 { assert(s2.stack[i] == st.stack[i]); } }
        }
    }
    lemma_ts_empty();
    assert forall|h: Head| #[trigger] st_add(st, T::Node(h, Seq::empty())) is Some implies st_ok(st_add(st, T::Node(h, Seq::empty()))->Some_0) by { lemma_st_add_ok(st, h, Seq::empty()); }
    if st.stack.len() > 0 {
        let (k, h) = st.stack.last();
        assert(st.stack.last() == st.stack[st.stack.len() - 1]);
        let p = st_pop(st);
        assert forall|i: int| 0 <= i < p.stack.len() implies ts_ok((#[trigger] p.stack[i]).0) by { assert(p.stack[i] == st.stack[i]); }
        lemma_item_ok(k); lemma_block_ok(k); lemma_code_ok(k);
        assert forall|g: Head, j: Seq<T>| ts_ok(j) && #[trigger] st_add(p, T::Node(g, j)) is Some implies st_ok(st_add(p, T::Node(g, j))->Some_0) by { lemma_st_add_ok(p, g, j); }
    }
}
pub proof fn lemma_ts_empty() ensures ts_ok(Seq::<T>::empty()) { }
pub proof fn lemma_feed_all_ok(st: St, es: Seq<EvS>)
    requires st_ok(st), feed_all(st, es) is Some
    ensures st_ok(feed_all(st, es)->Some_0)
    decreases es.len()
{ if es.len() > 0 { lemma_feed_ok(st, es[0]); lemma_feed_all_ok(feed(st, es[0])->Some_0, es.skip(1)); } }
/// what is imported is a valid document
pub proof fn lemma_import_valid(es: Seq<EvS>)
    requires built(es) is Some
    ensures t_ok(built(es)->Some_0), t_ty(built(es)->Some_0) is Doc
{
    let i = st_init();
    assert forall|j: int| 0 <= j < i.stack.len() implies ts_ok((#[trigger] i.stack[j]).0) by { }
    lemma_feed_all_ok(i, es);
    let st = feed_all(i, es)->Some_0;
    assert(st.stack.last() == st.stack[st.stack.len() - 1]);
    lemma_block_ok(st.stack.last().0);
}
//@END
