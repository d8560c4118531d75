//@ONLY C13
// ------------------------------------------------------------------ the text of a range
/// the characters of a sequence of tokens
pub open spec fn chars_in(t: Seq<Tok>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { Seq::empty() }
    else { chars_in(t.drop_last()) + (match t.last() { Tok::Ch(c, false, _) => seq![c], _ => Seq::empty() }) }
}
pub open spec fn ostr(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn sval(o: Option<Seq<char>>) -> Seq<char> { match o { Some(s) => s, None => Seq::empty() } }
/// The text so far and whether it is separated from a block that begins here.  `sep` goes in front of
/// a block that follows on some text, `leaf` in the place of a leaf.
pub open spec fn tb_tok(st: (Seq<char>, bool), t: Tok, sep: Option<Seq<char>>, leaf: Option<Seq<char>>) -> (Seq<char>, bool) {
    match t {
        Tok::Open(h) => if !st.1 && !is_inline_ty(head_ty(h)) { (st.0 + sval(sep), true) } else { st },
        Tok::Leaf(h) => (st.0 + sval(leaf), sep is None),
        Tok::Ch(c, second, m) => (if second { st.0 } else { st.0.push(c) }, sep is None),
        Tok::Close => st,
    }
}
pub open spec fn tb_fold(st: (Seq<char>, bool), t: Seq<Tok>, sep: Option<Seq<char>>, leaf: Option<Seq<char>>) -> (Seq<char>, bool) decreases t.len() {
    if t.len() == 0 { st } else { tb_tok(tb_fold(st, t.drop_last(), sep, leaf), t.last(), sep, leaf) }
}
/// position `x` is inside of one of the nodes (and not in a text)
pub open spec fn deep(ks: Seq<MarkdownNode>, x: int) -> bool decreases ks.len() {
    ks.len() > 0 && (deep(ks.drop_last(), x) || (cont(ks.last()) is Some && flat(ks.drop_last()).len() < x < flat(ks).len()))
}
/// the blocks that `x` is in have begun before
pub open spec fn tb_enter(ks: Seq<MarkdownNode>, x: int, st: (Seq<char>, bool), sep: Option<Seq<char>>) -> (Seq<char>, bool) {
    if deep(ks, x) && !st.1 { (st.0 + sval(sep), true) } else { st }
}
/// the part of `t`, which begins at `p`, that is in [a, b)
pub open spec fn clip(t: Seq<Tok>, p: int, a: int, b: int) -> Seq<Tok> { t.subrange(clip_lo(t, p, a), clip_hi(t, p, a, b)) }
pub open spec fn clip_lo(t: Seq<Tok>, p: int, a: int) -> int { if a <= p { 0 } else if a - p <= t.len() { a - p } else { t.len() as int } }
pub open spec fn clip_hi(t: Seq<Tok>, p: int, a: int, b: int) -> int {
    let lo = clip_lo(t, p, a);
    if b - p <= lo { lo } else if b - p <= t.len() { b - p } else { t.len() as int }
}
/// what a node gives by itself
pub open spec fn tb_piece(n: MarkdownNode, p: int, a: int, b: int, st: (Seq<char>, bool), sep: Option<Seq<char>>, leaf: Option<Seq<char>>) -> (Seq<char>, bool) {
    if is_text(n) { (st.0 + chars_in(clip(toks(n), p, a, b)), sep is None) } else { tb_tok(st, toks(n)[0], sep, leaf) }
}
pub open spec fn tb_visits(v: Seq<(MarkdownNode, int)>, a: int, b: int, st: (Seq<char>, bool), sep: Option<Seq<char>>, leaf: Option<Seq<char>>) -> (Seq<char>, bool) decreases v.len() {
    if v.len() == 0 { st } else { tb_piece(v.last().0, v.last().1, a, b, tb_visits(v.drop_last(), a, b, st, sep, leaf), sep, leaf) }
}
/// the visitor of `text_between`
pub open spec fn tb_st(c: VClo_text_between_1) -> (Seq<char>, bool) { ((*c.text)@, c.separated) }
#[verifier::prophetic]
pub open spec fn tb_same(c: VClo_text_between_1, d: VClo_text_between_1) -> bool {
    *final(d.text) == *final(c.text) && d.from == c.from && d.to == c.to && d.block_separator == c.block_separator && d.leaf_text == c.leaf_text
}
impl<'a> VisitFn for VClo_text_between_1<'a> {
    #[verifier::prophetic]
    open spec fn rel(self, n: MarkdownNode, pos: int, r: bool, after: Self) -> bool {
        r && tb_st(after) == tb_piece(n, pos, self.from as int, self.to as int, tb_st(self), ostr(self.block_separator), ostr(self.leaf_text)) && tb_same(self, after)
    }
    open spec fn pre(self, n: MarkdownNode, pos: int) -> bool {
        &&& self.from <= self.to
        &&& hits(n, pos, self.from as int, self.to as int)
        &&& is_text(n) ==> bnd(toks(n), self.from - pos) && bnd(toks(n), self.to - pos)
    }
    fn call(&mut self, n: &MarkdownNode, pos: usize) -> (r: bool) { self.visit1(n, pos) }
}
pub proof fn lemma_chars_concat(a: Seq<Tok>, b: Seq<Tok>) ensures chars_in(a + b) == chars_in(a) + chars_in(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(chars_in(a) + chars_in(b) =~= chars_in(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_chars_concat(a, b.drop_last()); assert(chars_in(a + b) =~= chars_in(a) + chars_in(b)); }
}
pub proof fn lemma_chars_units(s: Seq<char>, m: Seq<MarkdownMark>) ensures chars_in(units(s, m)) == s decreases s.len()
{
    if s.len() > 0 {
        lemma_chars_units(s.drop_last(), m);
        let c = s.last();
        lemma_chars_concat(units(s.drop_last(), m), ctoks(c, m));
        let t = ctoks(c, m);
        let e = Seq::<Tok>::empty();
        let t1 = seq![Tok::Ch(c, false, m)];
        assert(t1.drop_last() =~= e);
        assert(chars_in(e) =~= Seq::<char>::empty());
        assert(chars_in(t1) == chars_in(t1.drop_last()) + seq![c]);
        assert(chars_in(t1) =~= seq![c]);
        if c16(c) != 1 { assert(t.drop_last() =~= t1); assert(chars_in(t) == chars_in(t1) + Seq::<char>::empty()); }
        assert(chars_in(t) =~= seq![c]);
        assert(s.drop_last() + seq![c] =~= s);
    }
}
/// the piece of a text in the range, from the two cuts
pub proof fn lemma_tb_text(n: MarkdownNode, pos: int, a: int, b: int)
    requires is_text(n), wf_node(n), a <= b, hits(n, pos, a, b), bnd(toks(n), a - pos), bnd(toks(n), b - pos)
    ensures ({
        let s = text_of(n).text.content@;
        let lo = if a > pos { a - pos } else { 0 };
        &&& cbnd(s, lo)
        &&& b - pos - lo >= 0
        &&& u16len(s) == toks(n).len()
        &&& s.skip(0) == s && u16len(s.take(0)) == 0
        &&& forall|k: int| #![trigger s.skip(k)] 0 <= k <= s.len() && u16len(s.take(k)) == lo ==>
            (b - pos - lo <= u16len(s.skip(k)) ==> cbnd(s.skip(k), b - pos - lo))
            && u16len(s.skip(k)) <= u16len(s)
            && (forall|j: int| #![trigger s.skip(k).take(j)] 0 <= j <= s.skip(k).len() && u16len(s.skip(k).take(j)) == (if b - pos - lo <= u16len(s.skip(k)) { (b - pos - lo) as nat } else { u16len(s.skip(k)) })
                ==> s.skip(k).take(j) == chars_in(clip(toks(n), pos, a, b)))
    })
{
    let s = text_of(n).text.content@;
    let m = marks_of(n);
    let t = toks(n);
    let lo = if a > pos { a - pos } else { 0 };
    let hi = if b - pos <= t.len() { b - pos } else { t.len() as int };
    lemma_toks_cont(n); lemma_wf_cont(n);
    lemma_bnd_units0(s, m);
    lemma_bnd_units(s, m, 0);
    assert(bnd(t, t.len() as int));
    assert(s.skip(0) =~= s);
    assert(s.take(0).len() == 0);
    assert(bnd(t, lo) && bnd(t, hi));
    lemma_bnd_text(n, lo, hi);
    assert(clip(t, pos, a, b) == t.subrange(lo, hi));
    assert forall|k: int| #![trigger s.skip(k)] 0 <= k <= s.len() && u16len(s.take(k)) == lo implies
            (b - pos - lo <= u16len(s.skip(k)) ==> cbnd(s.skip(k), b - pos - lo))
            && u16len(s.skip(k)) <= u16len(s)
            && (forall|j: int| #![trigger s.skip(k).take(j)] 0 <= j <= s.skip(k).len() && u16len(s.skip(k).take(j)) == (if b - pos - lo <= u16len(s.skip(k)) { (b - pos - lo) as nat } else { u16len(s.skip(k)) })
                ==> s.skip(k).take(j) == chars_in(clip(t, pos, a, b))) by {
        let r = s.skip(k);
        assert(s.take(k) == s.take(k));
        assert(u16len(r) == t.len() - lo);
        assert forall|j: int| #![trigger s.skip(k).take(j)] 0 <= j <= r.len() && u16len(r.take(j)) == (if b - pos - lo <= u16len(r) { (b - pos - lo) as nat } else { u16len(r) }) implies r.take(j) == chars_in(clip(t, pos, a, b)) by {
            assert(u16len(r.take(j)) == hi - lo);
            assert(units(r.take(j), m) == t.subrange(lo, hi));
            lemma_chars_units(r.take(j), m);
        }
    }
}
pub proof fn lemma_tb_concat(st: (Seq<char>, bool), a: Seq<Tok>, b: Seq<Tok>, sep: Option<Seq<char>>, leaf: Option<Seq<char>>)
    ensures tb_fold(st, a + b, sep, leaf) == tb_fold(tb_fold(st, a, sep, leaf), b, sep, leaf)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_tb_concat(st, a, b.drop_last(), sep, leaf); }
}
pub proof fn lemma_tb_one(st: (Seq<char>, bool), t: Tok, sep: Option<Seq<char>>, leaf: Option<Seq<char>>)
    ensures tb_fold(st, seq![t], sep, leaf) == tb_tok(st, t, sep, leaf)
{ assert(seq![t].drop_last().len() == 0); assert(tb_fold(st, seq![t].drop_last(), sep, leaf) == st); }
/// without separators, the characters
pub proof fn lemma_tb_plain(st: (Seq<char>, bool), t: Seq<Tok>, sep: Option<Seq<char>>, leaf: Option<Seq<char>>)
    requires sval(sep).len() == 0, sval(leaf).len() == 0
    ensures tb_fold(st, t, sep, leaf).0 == st.0 + chars_in(t)
    decreases t.len()
{
    if t.len() > 0 {
        lemma_tb_plain(st, t.drop_last(), sep, leaf);
        let u = tb_fold(st, t.drop_last(), sep, leaf).0;
        assert(u + sval(sep) =~= u);
        assert(u + sval(leaf) =~= u);
        assert(tb_fold(st, t, sep, leaf).0 =~= st.0 + chars_in(t));
    } else { assert(st.0 + chars_in(t) =~= st.0); }
}
pub open spec fn all_ch(t: Seq<Tok>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]) is Ch }
pub proof fn lemma_tb_ch(st: (Seq<char>, bool), t: Seq<Tok>, sep: Option<Seq<char>>, leaf: Option<Seq<char>>)
    requires all_ch(t)
    ensures tb_fold(st, t, sep, leaf) == (st.0 + chars_in(t), if t.len() > 0 { sep is None } else { st.1 })
    decreases t.len()
{
    if t.len() > 0 {
        lemma_tb_ch(st, t.drop_last(), sep, leaf);
        assert(t.last() is Ch);
        assert(tb_fold(st, t, sep, leaf).0 =~= st.0 + chars_in(t));
    } else { assert(st.0 + chars_in(t) =~= st.0); }
}
pub proof fn lemma_tbv_concat(u: Seq<(MarkdownNode, int)>, v: Seq<(MarkdownNode, int)>, a: int, b: int, st: (Seq<char>, bool), sep: Option<Seq<char>>, leaf: Option<Seq<char>>)
    ensures tb_visits(u + v, a, b, st, sep, leaf) == tb_visits(v, a, b, tb_visits(u, a, b, st, sep, leaf), sep, leaf)
    decreases v.len()
{
    if v.len() == 0 { assert(u + v =~= u); }
    else { assert((u + v).drop_last() =~= u + v.drop_last()); lemma_tbv_concat(u, v.drop_last(), a, b, st, sep, leaf); }
}
pub proof fn lemma_tbv_one(n: MarkdownNode, p: int, a: int, b: int, st: (Seq<char>, bool), sep: Option<Seq<char>>, leaf: Option<Seq<char>>)
    ensures tb_visits(seq![(n, p)], a, b, st, sep, leaf) == tb_piece(n, p, a, b, st, sep, leaf)
{
    let one = seq![(n, p)];
    assert(one.drop_last().len() == 0);
    assert(tb_visits(one.drop_last(), a, b, st, sep, leaf) == st);
    assert(one.last() == (n, p));
}
/// a walk of the visitor of `text_between` puts the pieces together
pub proof fn lemma_walk_text(ks: Seq<MarkdownNode>, p: int, s: VClo_text_between_1, e: VClo_text_between_1)
    requires walk(ks, p, s.from as int, s.to as int, s, e)
    ensures tb_st(e) == tb_visits(visits(ks, p, s.from as int, s.to as int), s.from as int, s.to as int, tb_st(s), ostr(s.block_separator), ostr(s.leaf_text)), tb_same(s, e)
    decreases flat(ks).len(), 1 + ks.len()
{
    let (a, b) = (s.from as int, s.to as int);
    if ks.len() > 0 {
        dec_walk(ks);
        let pre = ks.drop_last();
        let q = p + flat(pre).len();
        let m = choose|m: VClo_text_between_1| #[trigger] between(m) && walk(pre, p, a, b, s, m) && walk_node(ks.last(), q, a, b, m, e);
        lemma_walk_text(pre, p, s, m);
        lemma_walk_text_node(ks.last(), q, m, e);
        lemma_tbv_concat(visits(pre, p, a, b), visits_node(ks.last(), q, a, b), a, b, tb_st(s), ostr(s.block_separator), ostr(s.leaf_text));
    }
}
pub proof fn lemma_walk_text_node(n: MarkdownNode, p: int, s: VClo_text_between_1, e: VClo_text_between_1)
    requires walk_node(n, p, s.from as int, s.to as int, s, e)
    ensures tb_st(e) == tb_visits(visits_node(n, p, s.from as int, s.to as int), s.from as int, s.to as int, tb_st(s), ostr(s.block_separator), ostr(s.leaf_text)), tb_same(s, e)
    decreases toks(n).len(), 0nat
{
    let (a, b) = (s.from as int, s.to as int);
    let (sep, leaf) = (ostr(s.block_separator), ostr(s.leaf_text));
    if hits(n, p, a, b) {
        dec_step(n);
        let (r, m) = choose|r: bool, m: VClo_text_between_1| #[trigger] s.rel(n, p, r, m) && (if r && kids(n).len() > 0 { walk(kids(n), p + 1, a, b, m, e) } else { m == e });
        let one = seq![(n, p)];
        let rest = if kids(n).len() > 0 { visits(kids(n), p + 1, a, b) } else { Seq::empty() };
        assert(visits_node(n, p, a, b) == one + rest);
        lemma_tbv_concat(one, rest, a, b, tb_st(s), sep, leaf);
        assert(one.drop_last().len() == 0);
        lemma_tbv_one(n, p, a, b, tb_st(s), sep, leaf);
        if kids(n).len() > 0 { lemma_walk_text(kids(n), p + 1, m, e); }
    }
}
proof fn lemma_clip_concat(x: Seq<Tok>, y: Seq<Tok>, p: int, a: int, b: int)
    requires a <= b
    ensures clip(x + y, p, a, b) == clip(x, p, a, b) + clip(y, p + x.len(), a, b)
{ assert(clip(x + y, p, a, b) =~= clip(x, p, a, b) + clip(y, p + x.len(), a, b)); }
/// the pieces are what the tokens of the range give
pub proof fn lemma_tb_flat(ks: Seq<MarkdownNode>, p: int, a: int, b: int, st: (Seq<char>, bool), sep: Option<Seq<char>>, leaf: Option<Seq<char>>)
    requires wf_all(ks), a <= b, bnd(flat(ks), a - p), bnd(flat(ks), b - p), st.1 || !deep(ks, a - p)
    ensures ({
        let r = tb_visits(visits(ks, p, a, b), a, b, st, sep, leaf);
        let w = tb_fold(st, clip(flat(ks), p, a, b), sep, leaf);
        r.0 == w.0 && (r.1 == w.1 || (a == b && p + flat(ks).len() > b))
    })
    decreases flat(ks).len(), 1 + ks.len()
{
    if ks.len() > 0 {
        dec_walk(ks);
        let pre = ks.drop_last();
        let n = ks.last();
        let q = p + flat(pre).len();
        assert(flat(ks) == flat(pre) + toks(n));
        assert(bnd(flat(pre), a - p)) by { if 0 <= a - p < flat(pre).len() { assert(flat(ks)[a - p] == flat(pre)[a - p]); } }
        assert(bnd(flat(pre), b - p)) by { if 0 <= b - p < flat(pre).len() { assert(flat(ks)[b - p] == flat(pre)[b - p]); } }
        assert(bnd(toks(n), a - q)) by { if 0 <= a - q < toks(n).len() { assert(flat(ks)[a - p] == toks(n)[a - q]); } }
        assert(bnd(toks(n), b - q)) by { if 0 <= b - q < toks(n).len() { assert(flat(ks)[b - p] == toks(n)[b - q]); } }
        lemma_tb_flat(pre, p, a, b, st, sep, leaf);
        let r1 = tb_visits(visits(pre, p, a, b), a, b, st, sep, leaf);
        let w1 = tb_fold(st, clip(flat(pre), p, a, b), sep, leaf);
        lemma_clip_concat(flat(pre), toks(n), p, a, b);
        lemma_tb_concat(st, clip(flat(pre), p, a, b), clip(toks(n), q, a, b), sep, leaf);
        lemma_tbv_concat(visits(pre, p, a, b), visits_node(n, q, a, b), a, b, st, sep, leaf);
        if a > q { assert(clip(flat(pre), p, a, b).len() == 0); assert(w1 == st); }
        if hits(n, q, a, b) {
            assert(r1 == w1);
            lemma_tb_node(n, q, a, b, r1, sep, leaf);
        } else {
            assert(clip(toks(n), q, a, b).len() == 0);
        }
    } else { assert(clip(flat(ks), p, a, b).len() == 0); }
}
pub proof fn lemma_tb_node(n: MarkdownNode, p: int, a: int, b: int, st: (Seq<char>, bool), sep: Option<Seq<char>>, leaf: Option<Seq<char>>)
    requires wf_node(n), a <= b, bnd(toks(n), a - p), bnd(toks(n), b - p), hits(n, p, a, b), st.1 || a <= p || cont(n) is None
    ensures ({
        let r = tb_visits(visits_node(n, p, a, b), a, b, st, sep, leaf);
        let w = tb_fold(st, clip(toks(n), p, a, b), sep, leaf);
        r.0 == w.0 && (r.1 == w.1 || (a == b && p + toks(n).len() > b))
    })
    decreases toks(n).len(), 0nat
{
    let one = seq![(n, p)];
    let rest = if kids(n).len() > 0 { visits(kids(n), p + 1, a, b) } else { Seq::empty() };
    lemma_toks_cont(n); lemma_wf_cont(n); lemma_wf_kids(n); lemma_wf_nonempty(n);
    assert(visits_node(n, p, a, b) == one + rest);
    lemma_tbv_concat(one, rest, a, b, st, sep, leaf);
    assert(one.drop_last().len() == 0);
    let s1 = tb_piece(n, p, a, b, st, sep, leaf);
    lemma_tbv_one(n, p, a, b, st, sep, leaf);
    let c = clip(toks(n), p, a, b);
    if is_text(n) {
        assert(kids(n).len() == 0);
        lemma_units_ch(text_of(n).text.content@, marks_of(n));
        assert(all_ch(c));
        lemma_tb_ch(st, c, sep, leaf);
    } else if cont(n) is None {
        assert(c =~= seq![Tok::Leaf(head(n))]);
        lemma_tb_one(st, Tok::Leaf(head(n)), sep, leaf);
    } else {
        let k = flat(kids(n));
        let o = seq![Tok::Open(head(n))];
        let z = seq![Tok::Close];
        assert(toks(n) == o + k + z);
        assert(toks(n)[0] == Tok::Open(head(n)));
        lemma_clip_concat(o + k, z, p, a, b);
        lemma_clip_concat(o, k, p, a, b);
        let co = clip(o, p, a, b);
        let ck = clip(k, p + 1, a, b);
        let cz = clip(z, p + 1 + k.len(), a, b);
        assert(c == co + ck + cz);
        lemma_tb_concat(st, co + ck, cz, sep, leaf);
        lemma_tb_concat(st, co, ck, sep, leaf);
        assert(tb_fold(st, co, sep, leaf) == s1) by {
            if a <= p { assert(co =~= o); lemma_tb_one(st, Tok::Open(head(n)), sep, leaf); }
            else { assert(co.len() == 0); }
        }
        let w = tb_fold(s1, ck, sep, leaf);
        assert(tb_fold(w, cz, sep, leaf) == w) by { if cz.len() > 0 { assert(cz =~= z); lemma_tb_one(w, Tok::Close, sep, leaf); } }
        assert(bnd(k, a - p - 1)) by { if 0 <= a - p - 1 < k.len() { assert(toks(n)[a - p] == k[a - p - 1]); } }
        assert(bnd(k, b - p - 1)) by { if 0 <= b - p - 1 < k.len() { assert(toks(n)[b - p] == k[b - p - 1]); } }
        assert(s1.1 || !deep(kids(n), a - p - 1)) by { if a <= p + 1 { lemma_deep_pos(kids(n), a - p - 1); } }
        if kids(n).len() > 0 { lemma_tb_flat(kids(n), p + 1, a, b, s1, sep, leaf); }
        else { assert(k.len() == 0); assert(ck.len() == 0); }
    }
}
pub proof fn lemma_deep_pos(ks: Seq<MarkdownNode>, x: int) requires x <= 0 ensures !deep(ks, x) decreases ks.len() { if ks.len() > 0 { lemma_deep_pos(ks.drop_last(), x); } }
/// inside of a block, the block comes first
pub proof fn lemma_deep_first(ks: Seq<MarkdownNode>, p: int, a: int, b: int)
    requires wf_all(ks), a <= b, deep(ks, a - p)
    ensures ({ let v = visits(ks, p, a, b); v.len() > 0 && cont(v[0].0) is Some }), p < a < p + flat(ks).len()
    decreases ks.len()
{
    let pre = ks.drop_last();
    let n = ks.last();
    let q = p + flat(pre).len();
    if deep(pre, a - p) {
        lemma_deep_first(pre, p, a, b);
        assert(visits(ks, p, a, b)[0] == visits(pre, p, a, b)[0]);
    } else {
        lemma_no_visits(pre, p, a, b);
        assert(visits(ks, p, a, b) =~= visits_node(n, q, a, b));
        assert(visits_node(n, q, a, b)[0] == (n, q));
    }
}
pub proof fn lemma_no_visits(ks: Seq<MarkdownNode>, p: int, a: int, b: int)
    requires p + flat(ks).len() <= a ensures visits(ks, p, a, b).len() == 0 decreases ks.len()
{
    if ks.len() > 0 { lemma_no_visits(ks.drop_last(), p, a, b); assert(visits_node(ks.last(), p + flat(ks.drop_last()).len(), a, b).len() == 0); }
}
/// the text of a range, for any state at the beginning
pub proof fn lemma_tb(ks: Seq<MarkdownNode>, a: int, b: int, st: (Seq<char>, bool), sep: Option<Seq<char>>, leaf: Option<Seq<char>>)
    requires wf_all(ks), a <= b, bnd(flat(ks), a), bnd(flat(ks), b)
    ensures tb_visits(visits(ks, 0, a, b), a, b, st, sep, leaf).0 == tb_fold(tb_enter(ks, a, st, sep), clip(flat(ks), 0, a, b), sep, leaf).0
{
    let s2 = tb_enter(ks, a, st, sep);
    lemma_tb_flat(ks, 0, a, b, s2, sep, leaf);
    if deep(ks, a) && !st.1 {
        lemma_deep_first(ks, 0, a, b);
        let v = visits(ks, 0, a, b);
        let one = seq![v[0]];
        assert(one + v.skip(1) =~= v);
        lemma_tbv_concat(one, v.skip(1), a, b, st, sep, leaf);
        lemma_tbv_concat(one, v.skip(1), a, b, s2, sep, leaf);
        assert(one.drop_last().len() == 0);
        assert(tb_visits(one.drop_last(), a, b, st, sep, leaf) == st);
        assert(tb_visits(one.drop_last(), a, b, s2, sep, leaf) == s2);
        lemma_toks_cont(v[0].0);
    }
}
/// every node that is visited can be
pub proof fn lemma_visits_pre(ks: Seq<MarkdownNode>, p: int, a: int, b: int, x: (MarkdownNode, int))
    requires wf_all(ks), bnd(flat(ks), a - p), bnd(flat(ks), b - p), visits(ks, p, a, b).contains(x)
    ensures hits(x.0, x.1, a, b), bnd(toks(x.0), a - x.1), bnd(toks(x.0), b - x.1)
    decreases flat(ks).len(), 1 + ks.len()
{
    if ks.len() > 0 {
        dec_walk(ks);
        let pre = ks.drop_last();
        let n = ks.last();
        let q = p + flat(pre).len();
        let (u, v) = (visits(pre, p, a, b), visits_node(n, q, a, b));
        let j = choose|j: int| 0 <= j < (u + v).len() && (u + v)[j] == x;
        assert(flat(ks) == flat(pre) + toks(n));
        if j < u.len() {
            assert(u[j] == x);
            assert(bnd(flat(pre), a - p)) by { if 0 <= a - p < flat(pre).len() { assert(flat(ks)[a - p] == flat(pre)[a - p]); } }
            assert(bnd(flat(pre), b - p)) by { if 0 <= b - p < flat(pre).len() { assert(flat(ks)[b - p] == flat(pre)[b - p]); } }
            lemma_visits_pre(pre, p, a, b, x);
        } else {
            assert(v[j - u.len()] == x);
            assert(bnd(toks(n), a - q)) by { if 0 <= a - q < toks(n).len() { assert(flat(ks)[a - p] == toks(n)[a - q]); } }
            assert(bnd(toks(n), b - q)) by { if 0 <= b - q < toks(n).len() { assert(flat(ks)[b - p] == toks(n)[b - q]); } }
            lemma_visits_node_pre(n, q, a, b, x);
        }
    }
}
pub proof fn lemma_visits_node_pre(n: MarkdownNode, p: int, a: int, b: int, x: (MarkdownNode, int))
    requires wf_node(n), bnd(toks(n), a - p), bnd(toks(n), b - p), visits_node(n, p, a, b).contains(x)
    ensures hits(x.0, x.1, a, b), bnd(toks(x.0), a - x.1), bnd(toks(x.0), b - x.1)
    decreases toks(n).len(), 0nat
{
    let v = visits_node(n, p, a, b);
    let j = choose|j: int| 0 <= j < v.len() && v[j] == x;
    assert(hits(n, p, a, b));
    if j > 0 {
        let k = flat(kids(n));
        lemma_toks_cont(n); lemma_wf_kids(n);
        assert(kids(n).len() > 0);
        assert(visits(kids(n), p + 1, a, b)[j - 1] == x);
        assert(bnd(k, a - p - 1)) by { if 0 <= a - p - 1 < k.len() { assert(toks(n)[a - p] == k[a - p - 1]); } }
        assert(bnd(k, b - p - 1)) by { if 0 <= b - p - 1 < k.len() { assert(toks(n)[b - p] == k[b - p - 1]); } }
        lemma_visits_pre(kids(n), p + 1, a, b, x);
    } else { assert(x == (n, p)); }
}
pub proof fn lemma_chars_node(n: MarkdownNode)
    requires wf_node(n)
    ensures
        is_text(n) ==> chars_in(toks(n)) == text_of(n).text.content@,
        cont(n) is None && !is_text(n) ==> chars_in(toks(n)) == Seq::<char>::empty(),
        !deep(kids(n), 0), bnd(flat(kids(n)), 0), bnd(flat(kids(n)), flat(kids(n)).len() as int),
        forall|st: (Seq<char>, bool), sep: Option<Seq<char>>| cont(n) is Some && sval(sep).len() == 0 ==> (#[trigger] tb_fold(st, clip(flat(kids(n)), 0, 0, flat(kids(n)).len() as int), sep, None)).0 == st.0 + chars_in(toks(n)),
{
    let k = flat(kids(n));
    lemma_toks_cont(n); lemma_wf_kids(n);
    lemma_deep_pos(kids(n), 0);
    lemma_bnd_flat0(kids(n));
    if is_text(n) { lemma_chars_units(text_of(n).text.content@, marks_of(n)); }
    else if cont(n) is None { assert(chars_in(toks(n).drop_last()) =~= Seq::<char>::empty()); assert(chars_in(toks(n)) =~= Seq::<char>::empty()); }
    else {
        let e = Seq::<char>::empty();
        lemma_chars_concat(seq![Tok::Open(head(n))] + k, seq![Tok::Close]);
        lemma_chars_concat(seq![Tok::Open(head(n))], k);
        assert(chars_in(seq![Tok::Open(head(n))].drop_last()) =~= e); assert(chars_in(seq![Tok::Open(head(n))]) =~= e);
        assert(chars_in(seq![Tok::Close].drop_last()) =~= e); assert(chars_in(seq![Tok::Close]) =~= e);
        assert(chars_in(toks(n)) =~= chars_in(k));
        assert(clip(k, 0, 0, k.len() as int) =~= k);
        assert forall|st: (Seq<char>, bool), sep: Option<Seq<char>>| sval(sep).len() == 0 implies (#[trigger] tb_fold(st, clip(k, 0, 0, k.len() as int), sep, None)).0 == st.0 + chars_in(toks(n)) by { lemma_tb_plain(st, k, sep, None); }
    }
}
//@END
