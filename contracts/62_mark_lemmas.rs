// ------------------------------------------------------------------ changing the marks of a range
pub enum MarkOp { Add(MarkdownMark), Remove(MarkdownMark) }
pub open spec fn is_op(op: MarkOp) -> bool { true }
/// the marks of a character inside of a node of the given type, afterwards
pub open spec fn reset(ms: Seq<MarkdownMark>, p: MarkdownNodeType, op: MarkOp) -> Seq<MarkdownMark> {
    match op {
        MarkOp::Add(m) => if allows(p) { madd(ms, m) } else { ms },
        MarkOp::Remove(m) => mrem(ms, m),
    }
}
pub open spec fn retok(k: Tok, p: MarkdownNodeType, op: MarkOp) -> Tok {
    match k { Tok::Ch(c, b, ms) => Tok::Ch(c, b, reset(ms, p, op)), o => o }
}
/// the type of the innermost open node
pub open spec fn pty(st: Seq<Head>, p0: MarkdownNodeType) -> MarkdownNodeType { if st.len() == 0 { p0 } else { head_ty(st.last()) } }
/// all characters changed, when `st` are open before the tokens
pub open spec fn remark(st: Seq<Head>, p0: MarkdownNodeType, t: Seq<Tok>, op: MarkOp) -> Seq<Tok> {
    Seq::new(t.len(), |i: int| retok(t[i], pty(run(st, t.take(i)), p0), op))
}
/// the characters between the positions changed
pub open spec fn remarked(p0: MarkdownNodeType, t: Seq<Tok>, from: int, to: int, op: MarkOp) -> Seq<Tok> {
    Seq::new(t.len(), |i: int| if from <= i < to { retok(t[i], pty(run(Seq::empty(), t.take(i)), p0), op) } else { t[i] })
}
/// what the function given to the mapping does to an inline node
pub open spec fn acted(n: MarkdownNode, p: MarkdownNodeType, op: MarkOp, o: MarkdownNode) -> bool {
    match n {
        MarkdownNode::Text(t) => is_text(o) && text_of(o).text == t.text && text_of(o).marks.content@ == reset(t.marks.content@, p, op),
        _ => o == n,
    }
}
pub open spec fn acts3<F: Fn(MarkdownNode, &MarkdownNode, usize) -> MarkdownNode>(f: F, op: MarkOp) -> bool {
    &&& forall|n: MarkdownNode, p: &MarkdownNode, i: usize| wf_node(n) ==> #[trigger] f.requires((n, p, i))
    &&& forall|n: MarkdownNode, p: &MarkdownNode, i: usize, o: MarkdownNode| wf_node(n) && #[trigger] f.ensures((n, p, i), o) ==> acted(n, ty(*p), op, o)
}
/// the parent plays no role
pub open spec fn acts1<F: Fn(MarkdownNode) -> MarkdownNode>(f: F, op: MarkOp) -> bool {
    &&& op is Remove
    &&& forall|n: MarkdownNode| wf_node(n) ==> #[trigger] f.requires((n,))
    &&& forall|n: MarkdownNode, o: MarkdownNode| wf_node(n) && #[trigger] f.ensures((n,), o) ==> acted(n, MarkdownNodeType::Paragraph, op, o)
}
pub open spec fn remapped(n: MarkdownNode, p: MarkdownNodeType, op: MarkOp, o: MarkdownNode) -> bool {
    wf_node(o) && norm_node(o) && toks(o) == remark(Seq::empty(), p, toks(n), op)
}
pub proof fn lemma_units_remark(s: Seq<char>, ms: Seq<MarkdownMark>, p: MarkdownNodeType, op: MarkOp)
    ensures
        units(s, reset(ms, p, op)).len() == units(s, ms).len(),
        forall|i: int| 0 <= i < units(s, ms).len() ==> units(s, reset(ms, p, op))[i] == retok(#[trigger] units(s, ms)[i], p, op),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_units_remark(s.drop_last(), ms, p, op);
        let a = units(s.drop_last(), ms);
        let b = ctoks(s.last(), ms);
        assert(units(s, ms) == a + b);
        let a2 = units(s.drop_last(), reset(ms, p, op));
        let b2 = ctoks(s.last(), reset(ms, p, op));
        assert(units(s, reset(ms, p, op)) == a2 + b2);
        assert forall|i: int| 0 <= i < units(s, ms).len() implies units(s, reset(ms, p, op))[i] == retok(#[trigger] units(s, ms)[i], p, op) by {
            if i < a.len() { assert((a + b)[i] == a[i] && (a2 + b2)[i] == a2[i]); } else { assert((a + b)[i] == b[i - a.len()] && (a2 + b2)[i] == b2[i - a.len()]); }
        }
    }
}
pub proof fn lemma_remark_concat(st: Seq<Head>, p0: MarkdownNodeType, a: Seq<Tok>, b: Seq<Tok>, op: MarkOp)
    ensures remark(st, p0, a + b, op) == remark(st, p0, a, op) + remark(run(st, a), p0, b, op)
{
    hide(run); hide(retok);
    let l = remark(st, p0, a + b, op);
    let r = remark(st, p0, a, op) + remark(run(st, a), p0, b, op);
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] == r[i] by {
        if i < a.len() { assert((a + b).take(i) =~= a.take(i)); }
        else { assert((a + b).take(i) =~= a + b.take(i - a.len())); lemma_run_concat(st, a, b.take(i - a.len())); }
    }
    assert(l =~= r);
}
pub proof fn lemma_remark_flat(st: Seq<Head>, p0: MarkdownNodeType, s: Seq<MarkdownNode>, op: MarkOp)
    ensures remark(st, p0, flat(s), op) == remark(Seq::empty(), pty(st, p0), flat(s), op)
{
    hide(run); hide(retok); hide(flat);
    let e = Seq::<Head>::empty();
    let t = flat(s);
    let l = remark(st, p0, t, op);
    let r = remark(e, pty(st, p0), t, op);
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] == r[i] by {
        lemma_run_flat_pre(st, s, i);
        let x = run(e, t.take(i));
        if x.len() == 0 { assert(st + x =~= st); } else { assert((st + x).last() == x.last()); }
    }
    assert(l =~= r);
}
pub proof fn lemma_remark_one(st: Seq<Head>, p0: MarkdownNodeType, k: Tok, op: MarkOp)
    requires !(k is Ch)
    ensures remark(st, p0, seq![k], op) == seq![k]
{ assert(remark(st, p0, seq![k], op) =~= seq![k]); }
/// an inline node
pub proof fn lemma_remap_leaf(n: MarkdownNode, p: MarkdownNodeType, op: MarkOp, o: MarkdownNode)
    requires wf_node(n), cont(n) is None, is_inline_ty(ty(n)) ==> acted(n, p, op, o), !is_inline_ty(ty(n)) ==> o == n
    ensures remapped(n, p, op, o)
{
    let e = Seq::<Head>::empty();
    lemma_toks_cont(n); lemma_toks_cont(o); lemma_wf_cont(n); lemma_wf_cont(o); lemma_norm_node(o);
    if is_text(n) {
        let s = text_of(n).text.content@;
        let ms = marks_of(n);
        lemma_units_remark(s, ms, p, op);
        match op { MarkOp::Add(m) => { lemma_madd_at(ms, m); } MarkOp::Remove(m) => { lemma_mrem_at(ms, m); } }
        let l = toks(o);
        let r = remark(e, p, toks(n), op);
        assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] == r[i] by {
            lemma_units_nb(s, ms);
            lemma_nb_take(units(s, ms), i);
            lemma_run_flat0(e, units(s, ms).take(i));
            assert(units(s, ms)[i] == toks(n)[i]);
        }
        assert(l =~= r);
    } else { lemma_remark_one(e, p, Tok::Leaf(head(n)), op); }
}
/// a node with content
pub proof fn lemma_remap_cont(n: MarkdownNode, p: MarkdownNodeType, op: MarkOp, c: Fragment)
    requires wf_node(n), cont(n) is Some, wf_frag(c), norm(c.inner@), flat(c.inner@) == remark(Seq::empty(), ty(n), flat(kids(n)), op)
    ensures remapped(n, p, op, with_content(n, c)), !is_inline_ty(ty(n)), !is_inline_ty(ty(with_content(n, c)))
{
    hide(flat); hide(toks); hide(remark);
    let e = Seq::<Head>::empty();
    let h = head(n);
    lemma_toks_cont(n); lemma_with_content(n, c); lemma_norm_with(n, c);
    let o = seq![Tok::Open(h)];
    let x = flat(kids(n));
    let z = seq![Tok::Close];
    lemma_remark_concat(e, p, o + x, z, op);
    lemma_remark_concat(e, p, o, x, op);
    lemma_remark_one(e, p, Tok::Open(h), op);
    lemma_remark_one(run(e, o + x), p, Tok::Close, op);
    lemma_run_one(e, Tok::Open(h));
    lemma_remark_flat(e.push(h), p, kids(n), op);
    assert(pty(e.push(h), p) == ty(n));
}
pub proof fn lemma_remap_push(s: Seq<MarkdownNode>, i: int, m: Seq<Tok>, p: MarkdownNodeType, op: MarkOp, o: MarkdownNode)
    requires 0 <= i < s.len(), m == remark(Seq::empty(), p, flat(s.take(i)), op), remapped(s[i], p, op, o)
    ensures m + toks(o) == remark(Seq::empty(), p, flat(s.take(i + 1)), op)
{
    hide(flat); hide(toks); hide(remark);
    let e = Seq::<Head>::empty();
    lemma_flat_take(s, i);
    lemma_remark_concat(e, p, flat(s.take(i)), toks(s[i]), op);
    lemma_run_flat(e, s.take(i));
}
pub proof fn lemma_remark_empty(p: MarkdownNodeType, op: MarkOp)
    ensures remark(Seq::empty(), p, Seq::empty(), op) == Seq::<Tok>::empty()
{ assert(remark(Seq::empty(), p, Seq::empty(), op) =~= Seq::<Tok>::empty()); }
/// removing does not depend on the parent
pub proof fn lemma_remark_remove(st: Seq<Head>, p: MarkdownNodeType, q: MarkdownNodeType, t: Seq<Tok>, op: MarkOp)
    requires op is Remove
    ensures remark(st, p, t, op) == remark(st, q, t, op)
{ assert(remark(st, p, t, op) =~= remark(st, q, t, op)); }
/// running above a floor
pub proof fn lemma_run_floor(st: Seq<Head>, x: Seq<Tok>, j: int, d: int)
    requires 0 <= d <= st.len(), 0 <= j <= x.len(), forall|k: int| 0 <= k <= j ==> (#[trigger] run(st, x.take(k))).len() >= d
    ensures run(st, x.take(j)) == st.take(d) + run(st.skip(d), x.take(j))
    decreases j
{
    if j == 0 {
        assert(x.take(0) =~= Seq::<Tok>::empty());
        assert(st =~= st.take(d) + st.skip(d));
    } else {
        lemma_run_floor(st, x, j - 1, d);
        assert(x.take(j).drop_last() =~= x.take(j - 1));
        assert(x.take(j).last() == x[j - 1]);
        let a = run(st, x.take(j - 1));
        let b = run(st.skip(d), x.take(j - 1));
        assert(a == st.take(d) + b);
        assert(run(st, x.take(j)) == step1(a, x[j - 1]));
        assert(run(st.skip(d), x.take(j)) == step1(b, x[j - 1]));
        assert(run(st, x.take(j)).len() >= d);
        assert(st.take(d).len() == d);
        match x[j - 1] {
            Tok::Open(h) => { assert(a.push(h) =~= st.take(d) + b.push(h)); }
            Tok::Close => { if b.len() > 0 { assert(a.drop_last() =~= st.take(d) + b.drop_last()); } else { assert(a.len() == d); assert(a.len() == 0); assert(a =~= st.take(d) + b); } }
            _ => {}
        }
    }
}
pub proof fn lemma_run_opens0(st: Seq<Head>)
    ensures run(Seq::empty(), opens(st)) == st
    decreases st.len()
{
    if st.len() > 0 {
        lemma_run_opens0(st.drop_last());
        assert(opens(st).drop_last() =~= opens(st.drop_last()));
        assert(st.drop_last().push(st.last()) =~= st);
    } else { assert(st =~= Seq::<Head>::empty()); }
}
/// what a slice of the range inserts when all of its characters are changed
pub proof fn lemma_remark_slice(t: Seq<Tok>, from: int, to: int, d: int, s: Slice, p0: MarkdownNodeType, p: MarkdownNodeType, op: MarkOp, u: Slice)
    requires
        0 <= from < to <= t.len(), is_slice(t, from, to, d, s), min_depth(t, from, to, d),
        p == pty(run(Seq::empty(), t.take(from)).take(d), p0),
        u.open_start == s.open_start, u.open_end == s.open_end, flat(u.content.inner@) == remark(Seq::empty(), p, flat(s.content.inner@), op),
    ensures t.take(from) + inserts(u) + t.skip(to) == remarked(p0, t, from, to, op)
{
    hide(flat); hide(run); hide(retok);
    let e = Seq::<Head>::empty();
    let st = run(e, t.take(from));
    let k = st.skip(d);
    let x = t.subrange(from, to);
    let f = flat(s.content.inner@);
    let g = flat(u.content.inner@);
    let os = s.open_start as int;
    assert(os == k.len());
    assert(f.len() == os + x.len() + s.open_end);
    assert(g.len() == f.len());
    let y = inserts(u);
    assert(y.len() == x.len());
    let l = t.take(from) + y + t.skip(to);
    let r = remarked(p0, t, from, to, op);
    assert(l.len() == t.len());
    assert forall|i: int| from <= i < to implies #[trigger] l[i] == r[i] by {
        let j = i - from;
        assert(l[i] == y[j]);
        assert(y[j] == g[os + j]);
        assert(f[os + j] == x[j]);
        assert(x[j] == t[i]);
        assert(f.take(os + j) =~= opens(k) + x.take(j));
        lemma_run_opens0(k);
        lemma_run_concat(e, opens(k), x.take(j));
        assert forall|q: int| 0 <= q <= j implies (#[trigger] run(st, x.take(q))).len() >= d by {
            assert(t.take(from + q) =~= t.take(from) + x.take(q));
            lemma_run_concat(e, t.take(from), x.take(q));
            assert(depth_at(t, from + q) >= d);
        }
        lemma_run_floor(st, x, j, d);
        assert(t.take(i) =~= t.take(from) + x.take(j));
        lemma_run_concat(e, t.take(from), x.take(j));
        let z = run(k, x.take(j));
        assert(run(e, t.take(i)) == st.take(d) + z);
        if z.len() == 0 { assert(st.take(d) + z =~= st.take(d)); } else { assert((st.take(d) + z).last() == z.last()); }
        assert(pty(run(e, t.take(i)), p0) == pty(z, p));
    }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] l[i] == r[i] by { }
    assert(l =~= r);
}
/// nothing is changed in an empty range
pub proof fn lemma_remark_none(t: Seq<Tok>, from: int, s: Slice, p0: MarkdownNodeType, op: MarkOp)
    requires 0 <= from <= t.len(), flat(s.content.inner@).len() == 0, s.open_start == 0, s.open_end == 0
    ensures t.take(from) + inserts(s) + t.skip(from) == remarked(p0, t, from, from, op)
{
    hide(flat);
    assert(t.take(from) + inserts(s) + t.skip(from) =~= remarked(p0, t, from, from, op));
}
/// the innermost of the shared open nodes
pub proof fn lemma_parent_ty(rp: ResolvedPos, d: int)
    requires wf_rp(rp), 0 <= d <= rp.depth
    ensures ty(rnode(rp, d)) == pty(run(Seq::empty(), rflat(rp, 0).take(rp.pos as int)).take(d), ty(rnode(rp, 0)))
{ lemma_rp_depth(rp); }
/// what a mark step promises
pub open spec fn mark_post(m: MarkdownNode, from: int, to: int, op: MarkOp, r: StepResult) -> bool {
    let t = flat(kids(m));
    &&& !(r is Err && (r->Err_0 is WouldOverwrite || r->Err_0 is GapWouldOverwrite))
    &&& r matches Ok(n) ==> {
        &&& from <= to <= t.len() && bnd(t, from) && bnd(t, to)
        &&& wf_node(n) && head(n) == head(m)
        &&& flat(kids(n)) == remarked(ty(m), t, from, to, op)
    }
}
// ------------------------------------------------------------------ changed marks are allowed
pub proof fn lemma_depth_lev(t: Seq<Tok>, p: int)
    requires above(t), 0 <= p <= t.len()
    ensures depth_at(t, p) == lev(t, p)
    decreases p
{
    lemma_lev_ends(t);
    if p > 0 {
        lemma_depth_lev(t, p - 1);
        lemma_lev_step(t, p - 1);
        assert(t.take(p).drop_last() =~= t.take(p - 1));
        assert(t.take(p).last() == t[p - 1]);
        assert(lev(t, p) >= 0);
    } else { assert(t.take(0) =~= Seq::<Tok>::empty()); }
}
/// the innermost node open at the top of a node's content is the node
pub proof fn lemma_content_parent(t: Seq<Tok>, a: int, b: int, i: int, p0: MarkdownNodeType)
    requires above(t), content_at(t, a, b), a <= i < b, lev(t, i) == lev(t, a)
    ensures pty(run(Seq::empty(), t.take(i)), p0) == head_ty(t[a - 1]->Open_0)
{
    hide(lev); hide(run);
    let e = Seq::<Head>::empty();
    let st = run(e, t.take(a));
    let x = t.subrange(a, b);
    lemma_depth_lev(t, a);
    assert forall|k: int| 0 <= k <= i - a implies (#[trigger] run(st, x.take(k))).len() >= st.len() by {
        assert(t.take(a + k) =~= t.take(a) + x.take(k));
        lemma_run_concat(e, t.take(a), x.take(k));
        lemma_depth_lev(t, a + k);
        assert(lev(t, a + k) >= lev(t, a));
    }
    lemma_run_floor(st, x, i - a, st.len() as int);
    assert(t.take(i) =~= t.take(a) + x.take(i - a));
    lemma_run_concat(e, t.take(a), x.take(i - a));
    lemma_depth_lev(t, i);
    assert(run(e, t.take(i)).len() == st.len());
    assert(run(e, t.take(i)) =~= st);
    reveal(run);
    assert(t.take(a).drop_last() =~= t.take(a - 1));
    assert(t.take(a).last() == t[a - 1]);
    assert(st.last() == t[a - 1]->Open_0);
}
pub proof fn lemma_retok_ok(y: MarkdownNodeType, k: Tok, op: MarkOp)
    requires tok_ok(y, k)
    ensures tok_ok(y, retok(k, y, op)), dz1(retok(k, y, op)) == dz1(k)
{ }
pub proof fn lemma_remarked_valid(y: MarkdownNodeType, t: Seq<Tok>, from: int, to: int, op: MarkOp)
    requires bal(t), vtoks(y, t), tvalid(t)
    ensures vtoks(y, remarked(y, t, from, to, op)), tvalid(remarked(y, t, from, to, op))
{
    hide(lev); hide(run); hide(retok); hide(tok_ok);
    let u = remarked(y, t, from, to, op);
    let e = Seq::<Head>::empty();
    assert forall|i: int| 0 <= i < t.len() implies dz1(#[trigger] u[i]) == dz1(t[i]) && ((u[i] is Open || t[i] is Open || u[i] is Close || t[i] is Close) ==> u[i] == t[i]) by { reveal(retok); }
    lemma_same_lev(t, u);
    if t.len() > 0 { assert(u[0] is Open || t[0] is Open ==> u[0] == t[0]); }
    assert forall|i: int| 0 <= i < u.len() && lev(u, i) == 0 implies tok_ok(y, #[trigger] u[i]) by {
        lemma_depth_lev(t, i);
        assert(lev(t, i) == lev(u, i));
        assert(run(e, t.take(i)) =~= e);
        assert(tok_ok(y, t[i]));
        lemma_retok_ok(y, t[i], op);
    }
    assert forall|a: int, b: int| #[trigger] content_at(u, a, b) implies vnode_at(u, a, b) by {
        lemma_content_same(t, u, a, b);
        assert(vnode_at(t, a, b));
        let h = head_ty(t[a - 1]->Open_0);
        assert(u[a - 1] == t[a - 1]);
        let v = u.subrange(a, b);
        let w = t.subrange(a, b);
        lemma_lev_shift(v, u, 0, b - a, a);
        lemma_lev_shift(w, t, 0, b - a, a);
        lemma_lev_ends(v); lemma_lev_ends(w);
        if b > a { assert(v[0] == u[a] && w[0] == t[a]); assert(u[a] is Open || t[a] is Open ==> u[a] == t[a]); }
        assert forall|i: int| 0 <= i < v.len() && lev(v, i) == 0 implies tok_ok(h, #[trigger] v[i]) by {
            assert(lev(v, i) - lev(v, 0) == lev(u, i + a) - lev(u, 0 + a));
            assert(lev(w, i) - lev(w, 0) == lev(t, i + a) - lev(t, 0 + a));
            assert(lev(t, i + a) == lev(u, i + a));
            assert(lev(t, a) == lev(u, a));
            lemma_content_parent(t, a, b, i + a, y);
            assert(tok_ok(h, w[i]));
            assert(w[i] == t[a + i]);
            assert(v[i] == u[a + i]);
            lemma_retok_ok(h, t[a + i], op);
        }
    }
}
pub proof fn lemma_same_lev(t: Seq<Tok>, u: Seq<Tok>)
    requires t.len() == u.len(), forall|i: int| 0 <= i < t.len() ==> dz1(#[trigger] u[i]) == dz1(t[i])
    ensures forall|p: int| 0 <= p <= t.len() ==> #[trigger] lev(u, p) == lev(t, p), dz(t) == dz(u)
    decreases t.len()
{
    lemma_lev_ends(t); lemma_lev_ends(u);
    if t.len() > 0 {
        let t1 = t.drop_last();
        let u1 = u.drop_last();
        assert forall|i: int| 0 <= i < t1.len() implies dz1(#[trigger] u1[i]) == dz1(t1[i]) by { assert(u1[i] == u[i]); assert(t1[i] == t[i]); }
        lemma_same_lev(t1, u1);
        assert(u.last() == u[t.len() - 1]);
        assert(dz(t) == dz(u));
        assert forall|p: int| 0 <= p <= t.len() implies #[trigger] lev(u, p) == lev(t, p) by {
            if p < t.len() { assert(t.take(p) =~= t1.take(p)); assert(u.take(p) =~= u1.take(p)); assert(lev(u1, p) == lev(t1, p)); }
        }
    }
}
pub proof fn lemma_content_same(t: Seq<Tok>, u: Seq<Tok>, a: int, b: int)
    requires
        t.len() == u.len(), content_at(u, a, b), forall|p: int| 0 <= p <= t.len() ==> #[trigger] lev(u, p) == lev(t, p),
        forall|i: int| 0 <= i < t.len() ==> ((#[trigger] u[i] is Open || t[i] is Open || u[i] is Close || t[i] is Close) ==> u[i] == t[i]),
    ensures content_at(t, a, b)
{
    hide(lev);
    assert(lev(u, a) == lev(t, a) && lev(u, b) == lev(t, b));
    assert(u[a - 1] is Open); assert(u[b] is Close);
    assert forall|q: int| a <= q <= b implies #[trigger] lev(t, q) >= lev(t, a) by { assert(lev(u, q) == lev(t, q)); assert(lev(u, q) >= lev(u, a)); }
}
/// a mark step keeps a valid document valid
pub proof fn lemma_mark_valid(m: MarkdownNode, from: int, to: int, op: MarkOp, n: MarkdownNode)
    requires wf_node(m), valid_node(m), wf_node(n), head(n) == head(m), flat(kids(n)) == remarked(ty(m), flat(kids(m)), from, to, op)
    ensures valid_node(n)
{
    lemma_valid(m); lemma_valid(n); lemma_bal_flat(kids(m));
    lemma_remarked_valid(ty(m), flat(kids(m)), from, to, op);
}
