// `?` on a Result
#[allow(unused_macros)]
macro_rules! vtry { ($e:expr) => { match $e { Ok(v) => v, Err(e) => return Err(From::from(e)) } } }
// ------------------------------------------------------------------ shims for std
pub struct VRange { pub start: Bound<usize>, pub end: Bound<usize> }
impl VRange {
    pub fn new(start: Bound<usize>, end: Bound<usize>) -> (r: VRange) ensures r.start == start, r.end == end { VRange { start, end } }
    pub fn start_bound(&self) -> (r: Bound<&usize>)
        ensures r == bound_ref(&self.start)
    { match &self.start { Bound::Included(x) => Bound::Included(x), Bound::Excluded(x) => Bound::Excluded(x), Bound::Unbounded => Bound::Unbounded } }
    pub fn end_bound(&self) -> (r: Bound<&usize>)
        ensures r == bound_ref(&self.end)
    { match &self.end { Bound::Included(x) => Bound::Included(x), Bound::Excluded(x) => Bound::Excluded(x), Bound::Unbounded => Bound::Unbounded } }
}
pub open spec fn bound_ref(b: &Bound<usize>) -> Bound<&usize> { match b { Bound::Included(x) => Bound::Included(x), Bound::Excluded(x) => Bound::Excluded(x), Bound::Unbounded => Bound::Unbounded } }
pub fn vbound_incl(x: usize) -> (r: Bound<usize>) ensures r == Bound::Included(x) { Bound::Included(x) }
pub fn vbound_excl(x: usize) -> (r: Bound<usize>) ensures r == Bound::Excluded(x) { Bound::Excluded(x) }
pub fn vbound_none() -> (r: Bound<usize>) ensures r == Bound::<usize>::Unbounded { Bound::Unbounded }
pub open spec fn rfrom(r: VRange) -> int { match r.start { Bound::Included(x) => x as int, Bound::Excluded(x) => if x < usize::MAX { x + 1 } else { x as int }, Bound::Unbounded => 0 } }
pub open spec fn rto(r: VRange, max: int) -> int { match r.end { Bound::Included(x) => if x < usize::MAX { x + 1 } else { x as int }, Bound::Excluded(x) => x as int, Bound::Unbounded => max } }

pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn vmax(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }

pub open spec fn cow_val<'a, T: Clone>(c: Cow<'a, T>) -> T { match c { Cow::Borrowed(b) => *b, Cow::Owned(o) => o } }
#[verifier::external_body]
pub fn cow_into_owned<'a, T: Clone>(c: Cow<'a, T>) -> (r: T) ensures r == cow_val(c) { c.into_owned() }
#[verifier::external_body]
pub fn cow_ref<'a, 'b, T: Clone>(c: &'b Cow<'a, T>) -> (r: &'b T) ensures *r == cow_val(*c) { &**c }
pub fn cow_default_markset<'a>() -> (r: Cow<'a, MarkSet>) ensures cow_val(r).content@ =~= Seq::<MarkdownMark>::empty() { Cow::Owned(MarkSet::default()) }

pub assume_specification[ char::len_utf16 ](c: char) -> (r: usize) ensures r == c16(c);
pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::capacity ](v: &Vec<T, A>) -> (r: usize);
pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == u8len(s@), r <= isize::MAX;
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();

#[verifier::external_body]
pub fn str_utf16_count(s: &str) -> (r: usize) ensures r == u16len(s@) { s.encode_utf16().count() }

pub assume_specification<'a> [core::str::Chars::<'a>::as_str] (s: &core::str::Chars<'a>) -> (r: &'a str) ensures r@ == vstd::std_specs::iter::IteratorSpec::remaining(s);
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x);
pub open spec fn c8(c: char) -> nat { let u = c as u32; if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 } }
pub open spec fn u8len(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { u8len(s.drop_last()) + c8(s.last()) } }
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize) ensures r == u8len(s@), r <= isize::MAX { s.len() }
#[verifier::external_body]
pub fn str_split_at<'a>(s: &'a str, mid: usize) -> (r: (&'a str, &'a str))
    requires exists|k: int| 0 <= k <= s@.len() && #[trigger] u8len(s@.take(k)) == mid
    ensures exists|k: int| 0 <= k <= s@.len() && #[trigger] u8len(s@.take(k)) == mid && r.0@ == s@.take(k) && r.1@ == s@.skip(k)
{ s.split_at(mid) }
#[verifier::external_body]
pub fn str_concat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { a + b }

/// `Vec::binary_search_by_key` with the key function `Mark::type`; the guarantee of the standard
/// library, which holds when the vector is sorted by that key.
#[verifier::external_body]
pub fn marks_binary_search(v: &Vec<MarkdownMark>, k: MarkdownMarkType) -> (r: Result<usize, usize>)
    ensures sorted_marks(v@) ==> match r {
        Ok(i) => i < v@.len() && mark_ty(v@[i as int]).rank() == k.rank(),
        Err(i) => i <= v@.len()
            && (forall|j: int| 0 <= j < i ==> mark_ty(#[trigger] v@[j]).rank() < k.rank())
            && (forall|j: int| i <= j < v@.len() ==> mark_ty(#[trigger] v@[j]).rank() > k.rank()),
    }
{ unimplemented!() }

/// a promoted constant
#[verifier::external_body]
pub fn vstatic<T>(t: T) -> (r: &'static T) ensures *r == t { Box::leak(Box::new(t)) }
