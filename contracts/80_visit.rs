//@ONLY C13
// ------------------------------------------------------------------ traversal
/// `FnMut(&Node, usize) -> bool` with its state: `rel` is what a call does to the state, `pre` what
/// it asks for (which no call changes)
pub trait VisitFn: Sized {
    #[verifier::prophetic]
    spec fn rel(self, n: MarkdownNode, pos: int, r: bool, after: Self) -> bool;
    spec fn pre(self, n: MarkdownNode, pos: int) -> bool;
    fn call(&mut self, n: &MarkdownNode, pos: usize) -> (r: bool)
        requires wf_node(*n), old(self).pre(*n, pos as int),
        ensures old(self).rel(*n, pos as int, r, *final(self)), forall|m: MarkdownNode, q: int| #[trigger] final(self).pre(m, q) == old(self).pre(m, q);
}
/// the node at `p` overlaps the range
pub open spec fn hits(n: MarkdownNode, p: int, a: int, b: int) -> bool { p < b && p + toks(n).len() > a }
proof fn dec_walk(ks: Seq<MarkdownNode>)
    ensures ks.len() > 0 ==> flat(ks.drop_last()).len() <= flat(ks).len() && toks(ks.last()).len() <= flat(ks).len()
{ }
proof fn dec_step(n: MarkdownNode) ensures flat(kids(n)).len() < toks(n).len() || kids(n).len() == 0 { lemma_toks_cont(n); }
/// a state between two nodes
pub open spec fn between<F>(m: F) -> bool { true }
/// The calls of a traversal of the nodes `ks`, the first of them at `p`: each node that overlaps
/// [a, b) in turn, and its content right after it if the answer was yes; `s` is the visitor before
/// and `e` after.
#[verifier::prophetic]
pub open spec fn walk<F: VisitFn>(ks: Seq<MarkdownNode>, p: int, a: int, b: int, s: F, e: F) -> bool
    decreases flat(ks).len(), 1 + ks.len() via walk_dec::<F>
{
    if ks.len() == 0 { s == e }
    else { exists|m: F| #[trigger] between(m) && walk(ks.drop_last(), p, a, b, s, m) && walk_node(ks.last(), p + flat(ks.drop_last()).len(), a, b, m, e) }
}
#[via_fn]
proof fn walk_dec<F: VisitFn>(ks: Seq<MarkdownNode>, p: int, a: int, b: int, s: F, e: F) { dec_walk(ks); }
#[verifier::prophetic]
pub open spec fn walk_node<F: VisitFn>(n: MarkdownNode, p: int, a: int, b: int, s: F, e: F) -> bool
    decreases toks(n).len(), 0nat via walk_node_dec::<F>
{
    if hits(n, p, a, b) {
        exists|r: bool, m: F| #[trigger] s.rel(n, p, r, m) && (if r && kids(n).len() > 0 { walk(kids(n), p + 1, a, b, m, e) } else { m == e })
    } else { s == e }
}
#[via_fn]
proof fn walk_node_dec<F: VisitFn>(n: MarkdownNode, p: int, a: int, b: int, s: F, e: F) { dec_step(n); }

/// the nodes that overlap the range with their positions, in document order
pub open spec fn visits(ks: Seq<MarkdownNode>, p: int, a: int, b: int) -> Seq<(MarkdownNode, int)>
    decreases flat(ks).len(), 1 + ks.len() via visits_dec
{
    if ks.len() == 0 { Seq::empty() } else { visits(ks.drop_last(), p, a, b) + visits_node(ks.last(), p + flat(ks.drop_last()).len(), a, b) }
}
#[via_fn]
proof fn visits_dec(ks: Seq<MarkdownNode>, p: int, a: int, b: int) { dec_walk(ks); }
pub open spec fn visits_node(n: MarkdownNode, p: int, a: int, b: int) -> Seq<(MarkdownNode, int)>
    decreases toks(n).len(), 0nat via visits_node_dec
{
    if hits(n, p, a, b) { seq![(n, p)] + (if kids(n).len() > 0 { visits(kids(n), p + 1, a, b) } else { Seq::empty() }) } else { Seq::empty() }
}
#[via_fn]
proof fn visits_node_dec(n: MarkdownNode, p: int, a: int, b: int) { dec_step(n); }

/// the range can be cut off at the ends of the nodes
pub proof fn lemma_walk_clip<F: VisitFn>(ks: Seq<MarkdownNode>, p: int, a: int, b: int, a2: int, b2: int, s: F, e: F)
    requires wf_all(ks), a == a2 || (a <= p && a2 <= p), b == b2 || (b >= p + flat(ks).len() && b2 >= p + flat(ks).len())
    ensures walk(ks, p, a, b, s, e) == walk(ks, p, a2, b2, s, e)
    decreases flat(ks).len(), 1 + ks.len()
{
    if ks.len() > 0 {
        let q = p + flat(ks.drop_last()).len();
        dec_walk(ks);
        assert forall|m: F| walk(ks.drop_last(), p, a, b, s, m) == #[trigger] walk(ks.drop_last(), p, a2, b2, s, m) by { lemma_walk_clip(ks.drop_last(), p, a, b, a2, b2, s, m); }
        assert forall|m: F| walk_node(ks.last(), q, a, b, m, e) == #[trigger] walk_node(ks.last(), q, a2, b2, m, e) by { lemma_walk_node_clip(ks.last(), q, a, b, a2, b2, m, e); }
        if walk(ks, p, a, b, s, e) {
            let m = choose|m: F| #[trigger] between(m) && walk(ks.drop_last(), p, a, b, s, m) && walk_node(ks.last(), q, a, b, m, e);
            assert(between(m) && walk(ks.drop_last(), p, a2, b2, s, m) && walk_node(ks.last(), q, a2, b2, m, e));
        }
        if walk(ks, p, a2, b2, s, e) {
            let m = choose|m: F| #[trigger] between(m) && walk(ks.drop_last(), p, a2, b2, s, m) && walk_node(ks.last(), q, a2, b2, m, e);
            assert(between(m) && walk(ks.drop_last(), p, a, b, s, m) && walk_node(ks.last(), q, a, b, m, e));
        }
    }
}
pub proof fn lemma_walk_node_clip<F: VisitFn>(n: MarkdownNode, p: int, a: int, b: int, a2: int, b2: int, s: F, e: F)
    requires wf_node(n), a == a2 || (a <= p && a2 <= p), b == b2 || (b >= p + toks(n).len() && b2 >= p + toks(n).len())
    ensures walk_node(n, p, a, b, s, e) == walk_node(n, p, a2, b2, s, e)
    decreases toks(n).len(), 0nat
{
    lemma_wf_nonempty(n);
    lemma_toks_cont(n);
    lemma_wf_cont(n);
    assert(hits(n, p, a, b) == hits(n, p, a2, b2));
    if hits(n, p, a, b) && kids(n).len() > 0 {
        assert forall|m: F| walk(kids(n), p + 1, a, b, m, e) == #[trigger] walk(kids(n), p + 1, a2, b2, m, e) by { lemma_walk_clip(kids(n), p + 1, a, b, a2, b2, m, e); }
        if walk_node(n, p, a, b, s, e) {
            let (r, m) = choose|r: bool, m: F| #[trigger] s.rel(n, p, r, m) && (if r && kids(n).len() > 0 { walk(kids(n), p + 1, a, b, m, e) } else { m == e });
            assert(s.rel(n, p, r, m) && (if r { walk(kids(n), p + 1, a2, b2, m, e) } else { m == e }));
        }
        if walk_node(n, p, a2, b2, s, e) {
            let (r, m) = choose|r: bool, m: F| #[trigger] s.rel(n, p, r, m) && (if r && kids(n).len() > 0 { walk(kids(n), p + 1, a2, b2, m, e) } else { m == e });
            assert(s.rel(n, p, r, m) && (if r { walk(kids(n), p + 1, a, b, m, e) } else { m == e }));
        }
    }
}
pub proof fn lemma_visits_clip(ks: Seq<MarkdownNode>, p: int, a: int, b: int, a2: int, b2: int)
    requires wf_all(ks), a == a2 || (a <= p && a2 <= p), b == b2 || (b >= p + flat(ks).len() && b2 >= p + flat(ks).len())
    ensures visits(ks, p, a, b) == visits(ks, p, a2, b2)
    decreases flat(ks).len(), 1 + ks.len()
{
    if ks.len() > 0 {
        dec_walk(ks);
        lemma_visits_clip(ks.drop_last(), p, a, b, a2, b2);
        lemma_visits_node_clip(ks.last(), p + flat(ks.drop_last()).len(), a, b, a2, b2);
    }
}
pub proof fn lemma_visits_node_clip(n: MarkdownNode, p: int, a: int, b: int, a2: int, b2: int)
    requires wf_node(n), a == a2 || (a <= p && a2 <= p), b == b2 || (b >= p + toks(n).len() && b2 >= p + toks(n).len())
    ensures visits_node(n, p, a, b) == visits_node(n, p, a2, b2)
    decreases toks(n).len(), 0nat
{
    lemma_wf_nonempty(n);
    lemma_toks_cont(n);
    lemma_wf_cont(n);
    if hits(n, p, a, b) && kids(n).len() > 0 { lemma_visits_clip(kids(n), p + 1, a, b, a2, b2); }
}
pub proof fn lemma_wf_kids(n: MarkdownNode) requires wf_node(n) ensures wf_all(kids(n)) { lemma_wf_cont(n); if cont(n) is None { assert(kids(n) =~= Seq::empty()); } }
pub proof fn lemma_walk_yes<F: VisitFn>(n: MarkdownNode, p: int, a: int, b: int, s: F, m: F, e: F)
    requires hits(n, p, a, b), s.rel(n, p, true, m), walk(kids(n), p + 1, a, b, m, e)
    ensures walk_node(n, p, a, b, s, e)
{ }
/// one more node
pub proof fn lemma_walk_push<F: VisitFn>(ks: Seq<MarkdownNode>, i: int, p: int, a: int, b: int, s: F, m: F, e: F)
    requires 0 <= i < ks.len(), walk(ks.take(i), p, a, b, s, m), walk_node(ks[i], p + flat(ks.take(i)).len(), a, b, m, e)
    ensures walk(ks.take(i + 1), p, a, b, s, e)
{
    assert(ks.take(i + 1).drop_last() =~= ks.take(i));
    assert(ks.take(i + 1).last() == ks[i]);
    assert(between(m));
}
/// what begins at or after the end of the range is not visited
pub proof fn lemma_walk_rest<F: VisitFn>(ks: Seq<MarkdownNode>, i: int, p: int, a: int, b: int, s: F, e: F)
    requires 0 <= i <= ks.len(), walk(ks.take(i), p, a, b, s, e), p + flat(ks.take(i)).len() >= b || i == ks.len()
    ensures walk(ks, p, a, b, s, e)
    decreases ks.len() - i
{
    if i == ks.len() { assert(ks.take(i) =~= ks); }
    else {
        assert(walk_node(ks[i], p + flat(ks.take(i)).len(), a, b, e, e));
        lemma_walk_push(ks, i, p, a, b, s, e, e);
        lemma_flat_take(ks, i);
        lemma_walk_rest(ks, i + 1, p, a, b, s, e);
    }
}
pub proof fn lemma_visits_in(ks: Seq<MarkdownNode>, i: int, p: int, a: int, b: int, x: (MarkdownNode, int))
    requires 0 <= i < ks.len(), visits_node(ks[i], p + flat(ks.take(i)).len(), a, b).contains(x)
    ensures visits(ks, p, a, b).contains(x)
    decreases ks.len()
{
    let n = ks.drop_last();
    let u = visits(n, p, a, b);
    let v = visits_node(ks.last(), p + flat(n).len(), a, b);
    if i == ks.len() - 1 {
        assert(ks.take(i) =~= n);
        let j = choose|j: int| 0 <= j < v.len() && v[j] == x;
        assert((u + v)[u.len() + j] == x);
    } else {
        assert(n.take(i) =~= ks.take(i));
        lemma_visits_in(n, i, p, a, b, x);
        let j = choose|j: int| 0 <= j < u.len() && u[j] == x;
        assert((u + v)[j] == x);
    }
}
pub proof fn lemma_visits_kids(n: MarkdownNode, p: int, a: int, b: int, x: (MarkdownNode, int))
    requires hits(n, p, a, b), kids(n).len() > 0 && visits(kids(n), p + 1, a, b).contains(x) || x == (n, p)
    ensures visits_node(n, p, a, b).contains(x)
{
    let v = visits(kids(n), p + 1, a, b);
    let w = visits_node(n, p, a, b);
    if x == (n, p) { assert(w[0] == x); }
    else {
        let j = choose|j: int| 0 <= j < v.len() && v[j] == x;
        assert(w[j + 1] == x);
    }
}
/// the visitor answers every call with yes
#[verifier::prophetic]
pub open spec fn agrees<F: VisitFn>() -> bool { forall|s: F, n: MarkdownNode, p: int, r: bool, m: F| #[trigger] s.rel(n, p, r, m) ==> r }
/// calls on `v`, one after the other
#[verifier::prophetic]
pub open spec fn chain<F: VisitFn>(v: Seq<(MarkdownNode, int)>, s: F, e: F) -> bool decreases v.len() {
    if v.len() == 0 { s == e } else { exists|m: F| #[trigger] between(m) && chain(v.drop_last(), s, m) && m.rel(v.last().0, v.last().1, true, e) }
}
pub proof fn lemma_chain_concat<F: VisitFn>(u: Seq<(MarkdownNode, int)>, v: Seq<(MarkdownNode, int)>, s: F, m: F, e: F)
    requires chain(u, s, m), chain(v, m, e) ensures chain(u + v, s, e) decreases v.len()
{
    if v.len() == 0 { assert(u + v =~= u); }
    else {
        let k = choose|k: F| #[trigger] between(k) && chain(v.drop_last(), m, k) && k.rel(v.last().0, v.last().1, true, e);
        lemma_chain_concat(u, v.drop_last(), s, m, k);
        assert((u + v).drop_last() =~= u + v.drop_last());
        assert(between(k));
    }
}
/// with a visitor that always says yes, the calls are on exactly `visits`, in this order
pub proof fn lemma_walk_chain<F: VisitFn>(ks: Seq<MarkdownNode>, p: int, a: int, b: int, s: F, e: F)
    requires walk(ks, p, a, b, s, e), agrees::<F>()
    ensures chain(visits(ks, p, a, b), s, e)
    decreases flat(ks).len(), 1 + ks.len()
{
    if ks.len() > 0 {
        dec_walk(ks);
        let q = p + flat(ks.drop_last()).len();
        let m = choose|m: F| #[trigger] between(m) && walk(ks.drop_last(), p, a, b, s, m) && walk_node(ks.last(), q, a, b, m, e);
        lemma_walk_chain(ks.drop_last(), p, a, b, s, m);
        lemma_walk_chain_node(ks.last(), q, a, b, m, e);
        lemma_chain_concat(visits(ks.drop_last(), p, a, b), visits_node(ks.last(), q, a, b), s, m, e);
    }
}
pub proof fn lemma_walk_chain_node<F: VisitFn>(n: MarkdownNode, p: int, a: int, b: int, s: F, e: F)
    requires walk_node(n, p, a, b, s, e), agrees::<F>()
    ensures chain(visits_node(n, p, a, b), s, e)
    decreases toks(n).len(), 0nat
{
    if hits(n, p, a, b) {
        dec_step(n);
        let (r, m) = choose|r: bool, m: F| #[trigger] s.rel(n, p, r, m) && (if r && kids(n).len() > 0 { walk(kids(n), p + 1, a, b, m, e) } else { m == e });
        let one = seq![(n, p)];
        let rest = if kids(n).len() > 0 { visits(kids(n), p + 1, a, b) } else { Seq::empty() };
        assert(visits_node(n, p, a, b) == one + rest);
        assert(one.drop_last().len() == 0 && one.last() == (n, p));
        assert(between(s) && chain(one.drop_last(), s, s));
        assert(chain(one, s, m));
        if kids(n).len() > 0 { lemma_walk_chain(kids(n), p + 1, a, b, m, e); }
        lemma_chain_concat(one, rest, s, m, e);
    }
}
pub open spec fn hit(a: int, b: int) -> spec_fn((MarkdownNode, int)) -> bool { |x: (MarkdownNode, int)| hits(x.0, x.1, a, b) }
/// Of all nodes in document order, each with its position, exactly those that overlap the range are
/// visited.
pub proof fn lemma_visits_filter(ks: Seq<MarkdownNode>, p: int, a: int, b: int, a0: int, b0: int)
    requires wf_all(ks), a0 <= p, b0 >= p + flat(ks).len()
    ensures visits(ks, p, a, b) == visits(ks, p, a0, b0).filter(hit(a, b))
    decreases flat(ks).len(), 1 + ks.len()
{
    let f = hit(a, b);
    if ks.len() > 0 {
        dec_walk(ks);
        let q = p + flat(ks.drop_last()).len();
        lemma_visits_filter(ks.drop_last(), p, a, b, a0, b0);
        lemma_visits_filter_node(ks.last(), q, a, b, a0, b0);
        Seq::filter_distributes_over_add(visits(ks.drop_last(), p, a0, b0), visits_node(ks.last(), q, a0, b0), f);
    } else { reveal(Seq::filter); }
}
pub proof fn lemma_visits_filter_node(n: MarkdownNode, p: int, a: int, b: int, a0: int, b0: int)
    requires wf_node(n), a0 <= p, b0 >= p + toks(n).len()
    ensures visits_node(n, p, a, b) == visits_node(n, p, a0, b0).filter(hit(a, b))
    decreases toks(n).len(), 0nat
{
    let f = hit(a, b);
    dec_step(n); lemma_wf_nonempty(n); lemma_wf_kids(n); lemma_toks_cont(n);
    let one = seq![(n, p)];
    let all = if kids(n).len() > 0 { visits(kids(n), p + 1, a0, b0) } else { Seq::empty() };
    let some = if kids(n).len() > 0 { visits(kids(n), p + 1, a, b) } else { Seq::empty() };
    assert(visits_node(n, p, a0, b0) == one + all);
    Seq::filter_distributes_over_add(one, all, f);
    assert(one.filter(f) == if hits(n, p, a, b) { one } else { Seq::empty() }) by { reveal(Seq::filter); assert(one.drop_last() =~= Seq::empty()); assert(one.drop_last().filter(f) =~= Seq::empty()); assert(one.last() == (n, p)); assert(Seq::<(MarkdownNode, int)>::empty().push((n, p)) =~= one); }
    if kids(n).len() > 0 { lemma_visits_filter(kids(n), p + 1, a, b, a0, b0); } else { assert(all.filter(f) == some) by { reveal(Seq::filter); } }
    if !hits(n, p, a, b) {
        if kids(n).len() > 0 {
            lemma_visits_none(kids(n), p + 1, a, b);
        }
        assert(visits_node(n, p, a, b) =~= Seq::empty());
        assert(Seq::<(MarkdownNode, int)>::empty() + some =~= Seq::empty());
    }
}
/// nothing in a node that is out of the range is in it
pub proof fn lemma_visits_none(ks: Seq<MarkdownNode>, p: int, a: int, b: int)
    requires p >= b || p + flat(ks).len() <= a
    ensures visits(ks, p, a, b) =~= Seq::empty()
    decreases ks.len()
{
    if ks.len() > 0 { dec_walk(ks); lemma_visits_none(ks.drop_last(), p, a, b); assert(visits_node(ks.last(), p + flat(ks.drop_last()).len(), a, b) =~= Seq::empty()); }
}
// ------------------------------------------------------------------ what a user gets, from the contracts alone
/// a visitor that notes down the positions it is called with, and always goes on
pub struct Positions { pub at: Vec<usize> }
pub open spec fn pos_of(v: Seq<(MarkdownNode, int)>) -> Seq<int> { v.map_values(|x: (MarkdownNode, int)| x.1) }
impl VisitFn for Positions {
    #[verifier::prophetic]
    open spec fn rel(self, n: MarkdownNode, pos: int, r: bool, after: Self) -> bool { r && after.at@ == self.at@.push(pos as usize) && 0 <= pos <= usize::MAX }
    open spec fn pre(self, n: MarkdownNode, pos: int) -> bool { true }
    fn call(&mut self, n: &MarkdownNode, pos: usize) -> (r: bool) { self.at.push(pos); true }
}
proof fn lemma_positions(v: Seq<(MarkdownNode, int)>, s: Positions, e: Positions)
    requires chain(v, s, e)
    ensures e.at@.len() == s.at@.len() + v.len(), forall|i: int| 0 <= i < s.at@.len() ==> e.at@[i] == s.at@[i], forall|i: int| 0 <= i < v.len() ==> e.at@[s.at@.len() + i] == (#[trigger] v[i]).1
    decreases v.len()
{
    if v.len() > 0 {
        let m = choose|m: Positions| #[trigger] between(m) && chain(v.drop_last(), s, m) && m.rel(v.last().0, v.last().1, true, e);
        lemma_positions(v.drop_last(), s, m);
        assert forall|i: int| 0 <= i < v.len() implies e.at@[s.at@.len() + i] == (#[trigger] v[i]).1 by { if i < v.len() - 1 { assert(v.drop_last()[i] == v[i]); } }
    }
}
/// it gets exactly the positions of the nodes that overlap the range
pub fn client_positions(frag: &Fragment, from: usize, to: usize) -> (r: Vec<usize>)
    requires wf_frag(*frag)
    ensures ({
        let v = visits(frag.inner@, 0, 0, frag.size as int).filter(hit(from as int, to as int));
        r@.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> r@[i] == (#[trigger] v[i]).1
    })
{
    let mut f = Positions { at: Vec::new() };
    let ghost s = f;
    frag.nodes_between(from, to, &mut f, 0);
    proof {
        lemma_walk_chain(frag.inner@, 0, from as int, to as int, s, f);
        lemma_visits_filter(frag.inner@, 0, from as int, to as int, 0, frag.size as int);
        lemma_positions(visits(frag.inner@, 0, from as int, to as int), s, f);
    }
    f.at
}
//@END
