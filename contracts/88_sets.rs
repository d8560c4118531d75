//@ONLY C08,C14
// ------------------------------------------------------------------ sets from lists of marks
/// `sort_by_key` with the type as the key: stable
#[verifier::external_body]
pub fn marks_sort_by_key(v: &mut Vec<MarkdownMark>)
    ensures weakly_sorted(final(v)@), rearranged(old(v)@, final(v)@), rearranged(final(v)@, old(v)@), weakly_sorted(old(v)@) ==> final(v)@ == old(v)@
{ unimplemented!() }
#[verifier::external_body]
pub fn marks_sort_unstable_by_key(v: &mut Vec<MarkdownMark>)
    ensures weakly_sorted(final(v)@), rearranged(old(v)@, final(v)@), rearranged(final(v)@, old(v)@), sorted_marks(old(v)@) ==> final(v)@ == old(v)@
{ unimplemented!() }
/// `dedup_by_key` with the type as the key: of neighbours with the same type the first stays
#[verifier::external_body]
pub fn marks_dedup_by_key(v: &mut Vec<MarkdownMark>)
    ensures final(v)@.len() <= old(v)@.len(),
        final(v)@.len() == old(v)@.len() <==> apart(old(v)@), apart(old(v)@) ==> final(v)@ == old(v)@,
        weakly_sorted(old(v)@) ==> sorted_marks(final(v)@)
{ unimplemented!() }
/// the same marks, in another order
pub open spec fn rearranged(a: Seq<MarkdownMark>, b: Seq<MarkdownMark>) -> bool {
    a.len() == b.len() && exists|p: Seq<int>| #[trigger] places(p, a.len()) && forall|i: int| 0 <= i < a.len() ==> b[#[trigger] p[i]] == a[i]
}
/// where each of `n` things goes
pub open spec fn places(p: Seq<int>, n: nat) -> bool {
    &&& p.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]
}
/// no two marks of a type
pub open spec fn distinct_types(s: Seq<MarkdownMark>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> mark_ty(#[trigger] s[i]).rank() != mark_ty(#[trigger] s[j]).rank()
}
pub proof fn lemma_rearranged_distinct(a: Seq<MarkdownMark>, b: Seq<MarkdownMark>)
    requires rearranged(a, b), sorted_marks(b)
    ensures distinct_types(a)
{
    let p = choose|p: Seq<int>| #[trigger] places(p, a.len()) && forall|i: int| 0 <= i < a.len() ==> b[#[trigger] p[i]] == a[i];
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies mark_ty(#[trigger] a[i]).rank() != mark_ty(#[trigger] a[j]).rank() by {
        let (x, y) = (p[i], p[j]);
        assert(b[x] == a[i] && b[y] == a[j]);
        assert(x != y);
        if x < y { assert(mark_ty(b[x]).rank() < mark_ty(b[y]).rank()); } else { assert(mark_ty(b[y]).rank() < mark_ty(b[x]).rank()); }
    }
}
pub open spec fn weakly_sorted(s: Seq<MarkdownMark>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> mark_ty(#[trigger] s[i]).rank() <= mark_ty(#[trigger] s[j]).rank()
}
/// no neighbours with the same type
pub open spec fn apart(s: Seq<MarkdownMark>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() && j == i + 1 ==> mark_ty(#[trigger] s[i]).rank() != mark_ty(#[trigger] s[j]).rank()
}
pub proof fn lemma_rearranged_back(a: Seq<MarkdownMark>, b: Seq<MarkdownMark>)
    requires rearranged(b, a), distinct_types(a)
    ensures distinct_types(b)
{
    let p = choose|p: Seq<int>| #[trigger] places(p, b.len()) && forall|i: int| 0 <= i < b.len() ==> a[#[trigger] p[i]] == b[i];
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies mark_ty(#[trigger] b[i]).rank() != mark_ty(#[trigger] b[j]).rank() by {
        let (x, y) = (p[i], p[j]);
        assert(a[x] == b[i] && a[y] == b[j]);
        assert(x != y);
        if x < y { assert(mark_ty(a[x]).rank() != mark_ty(a[y]).rank()); } else { assert(mark_ty(a[y]).rank() != mark_ty(a[x]).rank()); }
    }
}
/// what a list of marks is made into: the same marks in order, or nothing where two have one type
pub open spec fn set_of(v: Seq<MarkdownMark>, r: Option<Seq<MarkdownMark>>) -> bool {
    match r {
        Some(s) => sorted_marks(s) && rearranged(v, s) && rearranged(s, v) && distinct_types(v),
        None => !distinct_types(v),
    }
}
//@END
//@ONLY C08,C15
/// marks in order are determined by which they are
pub proof fn lemma_sorted_ext(a: Seq<MarkdownMark>, b: Seq<MarkdownMark>)
    requires sorted_marks(a), sorted_marks(b), forall|x: MarkdownMark| #[trigger] a.contains(x) <==> b.contains(x)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); }
        assert(a =~= b);
    } else {
        let (la, lb) = (a.last(), b.last());
        assert(a[a.len() - 1] == la); assert(a.contains(la)); assert(b.contains(la));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == la;
        assert(b[b.len() - 1] == lb); assert(b.contains(lb)); assert(a.contains(lb));
        let j = choose|j: int| 0 <= j < a.len() && a[j] == lb;
        if i < b.len() - 1 { assert(mark_ty(b[i]).rank() < mark_ty(b[b.len() - 1]).rank()); }
        if j < a.len() - 1 { assert(mark_ty(a[j]).rank() < mark_ty(a[a.len() - 1]).rank()); }
        assert(la == lb);
        lemma_sorted_drop(a); lemma_sorted_drop(b);
        let (da, db) = (a.drop_last(), b.drop_last());
        assert forall|x: MarkdownMark| #[trigger] da.contains(x) <==> db.contains(x) by {
            if da.contains(x) { let i = choose|i: int| 0 <= i < da.len() && da[i] == x; assert(a[i] == x); assert(a.contains(x)); assert(mark_ty(a[i]).rank() < mark_ty(a[a.len() - 1]).rank()); let j = choose|j: int| 0 <= j < b.len() && b[j] == x; assert(db[j] == x); }
            if db.contains(x) { let i = choose|i: int| 0 <= i < db.len() && db[i] == x; assert(b[i] == x); assert(b.contains(x)); assert(a.contains(x)); assert(mark_ty(b[i]).rank() < mark_ty(b[b.len() - 1]).rank()); let j = choose|j: int| 0 <= j < a.len() && a[j] == x; assert(da[j] == x); }
        }
        lemma_sorted_ext(da, db);
        assert(a =~= da.push(la)); assert(b =~= db.push(lb));
    }
}
//@END
//@ONLY C08
pub proof fn lemma_rearranged_has(a: Seq<MarkdownMark>, b: Seq<MarkdownMark>)
    requires rearranged(a, b)
    ensures forall|x: MarkdownMark| a.contains(x) ==> #[trigger] b.contains(x)
{
    let p = choose|p: Seq<int>| #[trigger] places(p, a.len()) && forall|i: int| 0 <= i < a.len() ==> b[#[trigger] p[i]] == a[i];
    assert forall|x: MarkdownMark| a.contains(x) implies #[trigger] b.contains(x) by {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
        assert(b[p[i]] == x);
    }
}
/// lists with the same marks make the same set, in whatever order they come
pub proof fn client_sets_by_members(v: Seq<MarkdownMark>, w: Seq<MarkdownMark>, s: Seq<MarkdownMark>, t: Seq<MarkdownMark>)
    requires set_of(v, Some(s)), set_of(w, Some(t)), forall|x: MarkdownMark| #[trigger] v.contains(x) <==> w.contains(x)
    ensures s == t
{
    lemma_rearranged_has(v, s); lemma_rearranged_has(s, v); lemma_rearranged_has(w, t); lemma_rearranged_has(t, w);
    assert forall|x: MarkdownMark| #[trigger] s.contains(x) <==> t.contains(x) by { assert(v.contains(x) <==> w.contains(x)); }
    lemma_sorted_ext(s, t);
}
/// two sets with the same members are equal
pub proof fn client_equal_by_members(s: Seq<MarkdownMark>, t: Seq<MarkdownMark>)
    requires sorted_marks(s), sorted_marks(t), forall|x: MarkdownMark| #[trigger] s.contains(x) <==> t.contains(x)
    ensures s == t
{
    lemma_sorted_ext(s, t);
}
//@END
