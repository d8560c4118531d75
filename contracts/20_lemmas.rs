// ------------------------------------------------------------------ basic lemmas
pub proof fn lemma_u16_concat(a: Seq<char>, b: Seq<char>)
    ensures u16len(a + b) == u16len(a) + u16len(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_u16_concat(a, b.drop_last());
    }
}
pub proof fn lemma_units_concat(a: Seq<char>, b: Seq<char>, m: Seq<MarkdownMark>)
    ensures units(a + b, m) == units(a, m) + units(b, m)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(units(a, m) + units(b, m) =~= units(a, m)); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_units_concat(a, b.drop_last(), m);
        assert(units(a + b, m) =~= units(a, m) + units(b, m));
    }
}
pub proof fn lemma_units_len(s: Seq<char>, m: Seq<MarkdownMark>)
    ensures units(s, m).len() == u16len(s)
    decreases s.len()
{ if s.len() > 0 { lemma_units_len(s.drop_last(), m); } }

pub proof fn lemma_flat_concat(a: Seq<MarkdownNode>, b: Seq<MarkdownNode>)
    ensures flat(a + b) == flat(a) + flat(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(flat(a) + flat(b) =~= flat(a)); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_flat_concat(a, b.drop_last());
        assert(flat(a + b) =~= flat(a) + flat(b));
    }
}
pub proof fn lemma_flat_one(n: MarkdownNode)
    ensures flat(seq![n]) == toks(n)
{
    assert(seq![n].drop_last() =~= Seq::<MarkdownNode>::empty());
    assert(flat(seq![n].drop_last()) =~= Seq::<Tok>::empty());
    assert(flat(seq![n]) =~= toks(n));
}
pub proof fn lemma_flat_push(s: Seq<MarkdownNode>, n: MarkdownNode)
    ensures flat(s.push(n)) == flat(s) + toks(n)
{ assert(s.push(n).drop_last() =~= s); }
/// flat(s[..i+1]) = flat(s[..i]) + toks(s[i])
pub proof fn lemma_flat_take(s: Seq<MarkdownNode>, i: int)
    requires 0 <= i < s.len()
    ensures flat(s.take(i + 1)) == flat(s.take(i)) + toks(s[i])
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
pub proof fn lemma_flat_split(s: Seq<MarkdownNode>, i: int)
    requires 0 <= i <= s.len()
    ensures flat(s) == flat(s.take(i)) + flat(s.skip(i))
{ assert(s =~= s.take(i) + s.skip(i)); lemma_flat_concat(s.take(i), s.skip(i)); }
pub proof fn lemma_flat_skip(s: Seq<MarkdownNode>, i: int)
    requires 0 <= i < s.len()
    ensures flat(s.skip(i)) == toks(s[i]) + flat(s.skip(i + 1))
{
    assert(s.skip(i) =~= seq![s[i]] + s.skip(i + 1));
    lemma_flat_concat(seq![s[i]], s.skip(i + 1));
    lemma_flat_one(s[i]);
}
/// flat(s) = flat(s[..i]) + toks(s[i]) + flat(s[i+1..])
pub proof fn lemma_flat_at(s: Seq<MarkdownNode>, i: int)
    requires 0 <= i < s.len()
    ensures flat(s) == flat(s.take(i)) + toks(s[i]) + flat(s.skip(i + 1)),
        flat(s).len() == flat(s.take(i)).len() + toks(s[i]).len() + flat(s.skip(i + 1)).len()
{
    lemma_flat_split(s, i); lemma_flat_skip(s, i);
    assert(flat(s.take(i)) + (toks(s[i]) + flat(s.skip(i + 1))) =~= flat(s.take(i)) + toks(s[i]) + flat(s.skip(i + 1)));
}
pub proof fn lemma_toks_cont(n: MarkdownNode)
    ensures
        cont(n) is Some ==> toks(n) == seq![Tok::Open(head(n))] + flat(kids(n)) + seq![Tok::Close] && toks(n).len() == flat(kids(n)).len() + 2,
        cont(n) is None && !is_text(n) ==> toks(n) == seq![Tok::Leaf(head(n))],
        is_text(n) ==> toks(n) == units(text_of(n).text.content@, marks_of(n)) && toks(n).len() == u16len(text_of(n).text.content@),
{ if n is Text { lemma_units_len(text_of(n).text.content@, marks_of(n)); } }

pub proof fn lemma_wf_cont(n: MarkdownNode)
    ensures
        cont(n) matches Some(c) ==> (wf_node(n) <==> wf_frag(c)),
        is_text(n) ==> (wf_node(n) <==> wf_text(text_of(n))),
        cont(n) is None && !is_text(n) ==> wf_node(n),
{ }
pub proof fn lemma_wf_all(s: Seq<MarkdownNode>)
    ensures wf_all(s) <==> (forall|i: int| 0 <= i < s.len() ==> wf_node(#[trigger] s[i]))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_wf_all(s.drop_last());
        let d = s.drop_last();
        if wf_all(s) {
            assert forall|i: int| 0 <= i < s.len() implies wf_node(#[trigger] s[i]) by { if i < d.len() { assert(d[i] == s[i]); } }
        } else {
            if forall|i: int| 0 <= i < s.len() ==> wf_node(#[trigger] s[i]) {
                assert forall|i: int| 0 <= i < d.len() implies wf_node(#[trigger] d[i]) by { assert(d[i] == s[i]); }
            }
        }
    }
}
pub proof fn lemma_u16_take(s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures u16len(s.take(k + 1)) == u16len(s.take(k)) + c16(s[k])
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn lemma_u16_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures u16len(s.take(i)) + (j - i) <= u16len(s.take(j))
    decreases j - i
{ if i < j { lemma_u16_take(s, j - 1); lemma_u16_mono(s, i, j - 1); } }
pub proof fn lemma_u8_concat(a: Seq<char>, b: Seq<char>)
    ensures u8len(a + b) == u8len(a) + u8len(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_u8_concat(a, b.drop_last());
    }
}
pub proof fn lemma_u8_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures u8len(s.take(i)) + (j - i) <= u8len(s.take(j))
    decreases j - i
{ if i < j { assert(s.take(j).drop_last() =~= s.take(j - 1)); lemma_u8_mono(s, i, j - 1); } }

proof fn lemma_sorted_drop(s: Seq<MarkdownMark>)
    requires sorted_marks(s), s.len() > 0
    ensures sorted_marks(s.drop_last())
{
    let d = s.drop_last();
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies mark_ty(#[trigger] d[i]).rank() < mark_ty(#[trigger] d[j]).rank() by { assert(d[i] == s[i] && d[j] == s[j]); }
}
pub open spec fn found(s: Seq<MarkdownMark>, m: MarkdownMark, i: int) -> bool { 0 <= i < s.len() && mark_ty(s[i]).rank() == mark_ty(m).rank() }
pub open spec fn absent(s: Seq<MarkdownMark>, m: MarkdownMark, i: int) -> bool {
    0 <= i <= s.len()
        && (forall|j: int| 0 <= j < i ==> mark_ty(#[trigger] s[j]).rank() < mark_ty(m).rank())
        && (forall|j: int| i <= j < s.len() ==> mark_ty(#[trigger] s[j]).rank() > mark_ty(m).rank())
}
proof fn lemma_madd_found(s: Seq<MarkdownMark>, m: MarkdownMark, i: int)
    requires sorted_marks(s), found(s, m, i)
    ensures madd(s, m) == s.update(i, m)
    decreases s.len()
{
    lemma_sorted_drop(s);
    if i == s.len() - 1 { assert(madd(s, m) =~= s.update(i, m)); }
    else {
        assert(s.drop_last()[i] == s[i]);
        assert(mark_ty(s[i]).rank() < mark_ty(s[s.len() - 1]).rank());
        lemma_madd_found(s.drop_last(), m, i);
        assert(madd(s, m) =~= s.update(i, m));
    }
}
proof fn lemma_madd_absent(s: Seq<MarkdownMark>, m: MarkdownMark, i: int)
    requires absent(s, m, i)
    ensures madd(s, m) == s.insert(i, m)
    decreases s.len()
{
    if s.len() == 0 { assert(madd(s, m) =~= s.insert(i, m)); }
    else if i == s.len() { assert(mark_ty(s[i - 1]).rank() < mark_ty(m).rank()); assert(madd(s, m) =~= s.insert(i, m)); }
    else {
        let d = s.drop_last();
        assert(mark_ty(s[s.len() - 1]).rank() > mark_ty(m).rank());
        assert forall|j: int| 0 <= j < i implies mark_ty(#[trigger] d[j]).rank() < mark_ty(m).rank() by { assert(d[j] == s[j]); }
        assert forall|j: int| i <= j < d.len() implies mark_ty(#[trigger] d[j]).rank() > mark_ty(m).rank() by { assert(d[j] == s[j]); }
        lemma_madd_absent(d, m, i);
        assert(madd(s, m) =~= s.insert(i, m));
    }
}
proof fn lemma_find(s: Seq<MarkdownMark>, m: MarkdownMark) -> (i: int)
    requires sorted_marks(s)
    ensures found(s, m, i) || absent(s, m, i)
    decreases s.len()
{
    if s.len() == 0 { 0 } else {
        let d = s.drop_last();
        lemma_sorted_drop(s);
        let i = lemma_find(d, m);
        assert(forall|j: int| 0 <= j < d.len() ==> #[trigger] s[j] == d[j]);
        if found(d, m, i) { assert(d[i] == s[i]); i }
        else if i < d.len() { assert(mark_ty(d[i]).rank() > mark_ty(m).rank()); assert(mark_ty(s[i]).rank() < mark_ty(s[s.len() - 1]).rank()); i }
        else if mark_ty(s.last()).rank() == mark_ty(m).rank() { i }
        else if mark_ty(s.last()).rank() > mark_ty(m).rank() { i }
        else { i + 1 }
    }
}
pub proof fn lemma_madd_at(s: Seq<MarkdownMark>, m: MarkdownMark)
    requires sorted_marks(s)
    ensures
        sorted_marks(madd(s, m)),
        forall|i: int| 0 <= i < s.len() && mark_ty(#[trigger] s[i]).rank() == mark_ty(m).rank() ==> madd(s, m) == s.update(i, m),
        forall|i: int| 0 <= i <= s.len()
            && (forall|j: int| 0 <= j < i ==> mark_ty(#[trigger] s[j]).rank() < mark_ty(m).rank())
            && (forall|j: int| i <= j < s.len() ==> mark_ty(#[trigger] s[j]).rank() > mark_ty(m).rank())
            ==> madd(s, m) == #[trigger] s.insert(i, m),
{
    assert forall|i: int| 0 <= i < s.len() && mark_ty(#[trigger] s[i]).rank() == mark_ty(m).rank() implies madd(s, m) == s.update(i, m) by { lemma_madd_found(s, m, i); }
    assert forall|i: int| 0 <= i <= s.len()
            && (forall|j: int| 0 <= j < i ==> mark_ty(#[trigger] s[j]).rank() < mark_ty(m).rank())
            && (forall|j: int| i <= j < s.len() ==> mark_ty(#[trigger] s[j]).rank() > mark_ty(m).rank())
            implies madd(s, m) == #[trigger] s.insert(i, m) by { lemma_madd_absent(s, m, i); }
    let k = lemma_find(s, m);
    let r = madd(s, m);
    if found(s, m, k) {
        lemma_madd_found(s, m, k);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies mark_ty(#[trigger] r[i]).rank() < mark_ty(#[trigger] r[j]).rank() by {
            assert(mark_ty(s[i]).rank() < mark_ty(s[j]).rank());
        }
    } else {
        lemma_madd_absent(s, m, k);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies mark_ty(#[trigger] r[i]).rank() < mark_ty(#[trigger] r[j]).rank() by {
            let i0 = if i < k { i } else { i - 1 };
            let j0 = if j < k { j } else { j - 1 };
            if i != k { assert(r[i] == s[i0]); }
            if j != k { assert(r[j] == s[j0]); }
            if i != k && j != k { assert(mark_ty(s[i0]).rank() < mark_ty(s[j0]).rank()); }
        }
    }
}
proof fn lemma_mrem_absent(s: Seq<MarkdownMark>, m: MarkdownMark)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != m
    ensures mrem(s, m) == s
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != m by { assert(d[i] == s[i]); }
        lemma_mrem_absent(d, m);
        assert(s[s.len() - 1] != m);
        assert(mrem(s, m) =~= s);
    }
}
proof fn lemma_mrem_found(s: Seq<MarkdownMark>, m: MarkdownMark, i: int)
    requires sorted_marks(s), 0 <= i < s.len(), s[i] == m
    ensures mrem(s, m) == s.remove(i)
    decreases s.len()
{
    if i == s.len() - 1 { assert(mrem(s, m) =~= s.remove(i)); } else {
        let d = s.drop_last();
        lemma_sorted_drop(s);
        assert(d[i] == s[i]);
        assert(mark_ty(s[i]).rank() < mark_ty(s[s.len() - 1]).rank());
        lemma_mrem_found(d, m, i);
        assert(mrem(s, m) =~= s.remove(i));
    }
}
pub proof fn lemma_mrem_at(s: Seq<MarkdownMark>, m: MarkdownMark)
    requires sorted_marks(s)
    ensures
        sorted_marks(mrem(s, m)),
        forall|i: int| 0 <= i < s.len() && mark_ty(#[trigger] s[i]).rank() == mark_ty(m).rank() ==> mrem(s, m) == if s[i] == m { s.remove(i) } else { s },
        (forall|i: int| 0 <= i < s.len() ==> mark_ty(#[trigger] s[i]).rank() != mark_ty(m).rank()) ==> mrem(s, m) == s,
{
    assert forall|i: int| 0 <= i < s.len() && mark_ty(#[trigger] s[i]).rank() == mark_ty(m).rank() implies mrem(s, m) == if s[i] == m { s.remove(i) } else { s } by {
        if s[i] == m { lemma_mrem_found(s, m, i); } else {
            assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] != m by {
                if s[j] == m { if j < i { assert(mark_ty(s[j]).rank() < mark_ty(s[i]).rank()); } else { assert(mark_ty(s[i]).rank() < mark_ty(s[j]).rank()); } }
            }
            lemma_mrem_absent(s, m);
        }
    }
    if forall|i: int| 0 <= i < s.len() ==> mark_ty(#[trigger] s[i]).rank() != mark_ty(m).rank() { lemma_mrem_absent(s, m); }
    if exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == m {
        let k = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == m;
        lemma_mrem_found(s, m, k);
        let r = s.remove(k);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies mark_ty(#[trigger] r[i]).rank() < mark_ty(#[trigger] r[j]).rank() by {
            let i0 = if i < k { i } else { i + 1 };
            let j0 = if j < k { j } else { j + 1 };
            assert(r[i] == s[i0] && r[j] == s[j0]);
            assert(mark_ty(s[i0]).rank() < mark_ty(s[j0]).rank());
        }
    } else { lemma_mrem_absent(s, m); }
}

/// no position strictly inside of character `k` is a boundary
pub proof fn lemma_inside(s: Seq<char>, k: int, p: int)
    requires 0 <= k < s.len(), u16len(s.take(k)) < p < u16len(s.take(k)) + c16(s[k])
    ensures !cbnd(s, p), p < u16len(s)
{
    lemma_u16_take(s, k);
    lemma_u16_mono(s, k + 1, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    if cbnd(s, p) {
        let j = choose|j: int| 0 <= j <= s.len() && #[trigger] u16len(s.take(j)) == p;
        if j <= k { lemma_u16_mono(s, j, k); } else { lemma_u16_mono(s, k + 1, j); }
    }
}
pub proof fn lemma_split_mid(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures
        u8len(s.skip(k)) <= u8len(s),
        u8len(s.take(k)) == u8len(s) - u8len(s.skip(k)),
        forall|j: int| 0 <= j <= s.len() && #[trigger] u8len(s.take(j)) == u8len(s.take(k)) ==> j == k,
{
    lemma_u8_concat(s.take(k), s.skip(k));
    assert(s.take(k) + s.skip(k) =~= s);
    assert forall|j: int| 0 <= j <= s.len() && #[trigger] u8len(s.take(j)) == u8len(s.take(k)) implies j == k by {
        if j < k { lemma_u8_mono(s, j, k); } else { lemma_u8_mono(s, k, j); }
    }
}
