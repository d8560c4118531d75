// ------------------------------------------------------------------ open nodes at a position
/// the nodes that are open after `t`, when `st` are open before it
pub open spec fn step1(st: Seq<Head>, k: Tok) -> Seq<Head> {
    match k { Tok::Open(h) => st.push(h), Tok::Close => if st.len() > 0 { st.drop_last() } else { st }, _ => st }
}
pub open spec fn run(st: Seq<Head>, t: Seq<Tok>) -> Seq<Head> decreases t.len() {
    if t.len() == 0 { st } else { step1(run(st, t.drop_last()), t.last()) }
}
pub open spec fn opens(st: Seq<Head>) -> Seq<Tok> { Seq::new(st.len(), |i: int| Tok::Open(st[i])) }
pub open spec fn closes(n: nat) -> Seq<Tok> { Seq::new(n, |i: int| Tok::Close) }
pub open spec fn depth_at(t: Seq<Tok>, p: int) -> nat { run(Seq::empty(), t.take(p)).len() }
/// what a cut of `t` keeps: the tokens between, wrapped in the nodes open at its ends
pub open spec fn cutf(t: Seq<Tok>, from: int, to: int) -> Seq<Tok> {
    if from < to { opens(run(Seq::empty(), t.take(from))) + t.subrange(from, to) + closes(depth_at(t, to)) } else { Seq::empty() }
}

pub proof fn lemma_run_concat(st: Seq<Head>, a: Seq<Tok>, b: Seq<Tok>)
    ensures run(st, a + b) == run(run(st, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_run_concat(st, a, b.drop_last());
    }
}
pub proof fn lemma_run_one(st: Seq<Head>, k: Tok)
    ensures run(st, seq![k]) == step1(st, k)
{ assert(seq![k].drop_last() =~= Seq::<Tok>::empty()); assert(run(st, Seq::<Tok>::empty()) == st); }
pub open spec fn no_brackets(t: Seq<Tok>) -> bool { forall|i: int| 0 <= i < t.len() ==> !((#[trigger] t[i]) is Open) && !(t[i] is Close) }
pub proof fn lemma_run_flat0(st: Seq<Head>, t: Seq<Tok>)
    requires no_brackets(t)
    ensures run(st, t) == st
    decreases t.len()
{
    if t.len() > 0 {
        assert(no_brackets(t.drop_last())) by { assert forall|i: int| 0 <= i < t.len() - 1 implies !((#[trigger] t.drop_last()[i]) is Open) && !(t.drop_last()[i] is Close) by { assert(t.drop_last()[i] == t[i]); } }
        lemma_run_flat0(st, t.drop_last());
        assert(t[t.len() - 1] == t.last());
    }
}
pub proof fn lemma_units_nb(s: Seq<char>, m: Seq<MarkdownMark>)
    ensures no_brackets(units(s, m))
    decreases s.len()
{ if s.len() > 0 { lemma_units_nb(s.drop_last(), m); } }
pub proof fn lemma_nb_take(t: Seq<Tok>, p: int)
    requires no_brackets(t), 0 <= p <= t.len()
    ensures no_brackets(t.take(p)), no_brackets(t.skip(p))
{
    assert forall|i: int| 0 <= i < p implies !((#[trigger] t.take(p)[i]) is Open) && !(t.take(p)[i] is Close) by { assert(t.take(p)[i] == t[i]); }
    assert forall|i: int| 0 <= i < t.len() - p implies !((#[trigger] t.skip(p)[i]) is Open) && !(t.skip(p)[i] is Close) by { assert(t.skip(p)[i] == t[i + p]); }
}
/// the tokens of a node leave the open nodes as they were, and inside of it only add to them
pub proof fn lemma_run_toks(st: Seq<Head>, n: MarkdownNode)
    ensures run(st, toks(n)) == st
    decreases n, 0nat
{
    lemma_toks_cont(n);
    if cont(n) is Some {
        let i = flat(kids(n));
        let o = seq![Tok::Open(head(n))];
        let c = seq![Tok::Close];
        lemma_run_concat(st, o + i, c);
        lemma_run_concat(st, o, i);
        lemma_run_one(st, Tok::Open(head(n)));
        lemma_run_flat(st.push(head(n)), kids(n));
        lemma_run_one(st.push(head(n)), Tok::Close);
        assert(st.push(head(n)).drop_last() =~= st);
    } else if is_text(n) {
        lemma_units_nb(text_of(n).text.content@, marks_of(n));
        lemma_run_flat0(st, toks(n));
    } else {
        lemma_run_one(st, Tok::Leaf(head(n)));
    }
}
pub proof fn lemma_run_flat(st: Seq<Head>, s: Seq<MarkdownNode>)
    ensures run(st, flat(s)) == st
    decreases s, s.len()
{
    if s.len() > 0 {
        lemma_run_flat(st, s.drop_last());
        lemma_run_toks(st, s.last());
        lemma_run_concat(st, flat(s.drop_last()), toks(s.last()));
    }
}
pub proof fn lemma_run_toks_pre(st: Seq<Head>, n: MarkdownNode, p: int)
    requires 0 <= p <= toks(n).len()
    ensures run(st, toks(n).take(p)) == st + run(Seq::empty(), toks(n).take(p))
    decreases n, 0nat
{
    let e = Seq::<Head>::empty();
    let t = toks(n).take(p);
    lemma_toks_cont(n);
    if p == 0 {
        assert(t =~= Seq::empty()); assert(st + e =~= st);
    } else if p == toks(n).len() {
        assert(t =~= toks(n));
        lemma_run_toks(st, n); lemma_run_toks(e, n); assert(st + e =~= st);
    } else if cont(n) is Some {
        let i = flat(kids(n)).take(p - 1);
        let o = seq![Tok::Open(head(n))];
        assert(t =~= o + i);
        lemma_run_concat(st, o, i); lemma_run_concat(e, o, i);
        lemma_run_one(st, Tok::Open(head(n))); lemma_run_one(e, Tok::Open(head(n)));
        lemma_run_flat_pre(st.push(head(n)), kids(n), p - 1);
        lemma_run_flat_pre(e.push(head(n)), kids(n), p - 1);
        assert(st.push(head(n)) + run(e, i) =~= st + (e.push(head(n)) + run(e, i)));
    } else if is_text(n) {
        lemma_units_nb(text_of(n).text.content@, marks_of(n));
        lemma_nb_take(toks(n), p);
        lemma_run_flat0(st, t); lemma_run_flat0(e, t);
        assert(st + e =~= st);
    }
}
pub proof fn lemma_run_flat_pre(st: Seq<Head>, s: Seq<MarkdownNode>, p: int)
    requires 0 <= p <= flat(s).len()
    ensures run(st, flat(s).take(p)) == st + run(Seq::empty(), flat(s).take(p))
    decreases s, s.len()
{
    let e = Seq::<Head>::empty();
    if s.len() == 0 {
        assert(flat(s).take(p) =~= Seq::empty()); assert(st + e =~= st);
    } else {
        let a = flat(s.drop_last());
        if p <= a.len() {
            assert(flat(s).take(p) =~= a.take(p));
            lemma_run_flat_pre(st, s.drop_last(), p);
        } else {
            let b = toks(s.last()).take(p - a.len());
            assert(flat(s).take(p) =~= a + b);
            lemma_run_concat(st, a, b); lemma_run_concat(e, a, b);
            lemma_run_flat(st, s.drop_last()); lemma_run_flat(e, s.drop_last());
            lemma_run_toks_pre(st, s.last(), p - a.len());
        }
    }
}
/// the open nodes inside of child `i`
pub proof fn lemma_run_at(s: Seq<MarkdownNode>, i: int, p: int)
    requires 0 <= i < s.len(), flat(s.take(i)).len() <= p <= flat(s.take(i)).len() + toks(s[i]).len()
    ensures
        p <= flat(s).len(),
        run(Seq::empty(), flat(s).take(p)) == run(Seq::empty(), toks(s[i]).take(p - flat(s.take(i)).len()))
{
    let e = Seq::<Head>::empty();
    lemma_flat_at(s, i);
    let a = flat(s.take(i));
    let b = toks(s[i]).take(p - a.len());
    assert(flat(s).take(p) =~= a + b);
    lemma_run_concat(e, a, b);
    lemma_run_flat(e, s.take(i));
}
pub proof fn lemma_run_in(n: MarkdownNode, p: int)
    requires cont(n) is Some, 1 <= p < toks(n).len()
    ensures
        run(Seq::empty(), toks(n).take(p)) == seq![head(n)] + run(Seq::empty(), flat(kids(n)).take(p - 1)),
{
    let e = Seq::<Head>::empty();
    lemma_toks_cont(n);
    let i = flat(kids(n)).take(p - 1);
    let o = seq![Tok::Open(head(n))];
    assert(toks(n).take(p) =~= o + i);
    lemma_run_concat(e, o, i);
    lemma_run_one(e, Tok::Open(head(n)));
    assert(e.push(head(n)) =~= seq![head(n)]);
    lemma_run_flat_pre(seq![head(n)], kids(n), p - 1);
}
pub proof fn lemma_cutf_full(s: Seq<MarkdownNode>)
    ensures cutf(flat(s), 0, flat(s).len() as int) == flat(s)
{
    let t = flat(s);
    assert(t.take(0) =~= Seq::empty());
    assert(t.take(t.len() as int) =~= t);
    lemma_run_flat(Seq::empty(), s);
    assert(opens(Seq::<Head>::empty()) =~= Seq::empty());
    assert(closes(0) =~= Seq::empty());
    if t.len() > 0 { assert(cutf(t, 0, t.len() as int) =~= t); } else { assert(t =~= Seq::empty()); }
}
/// the cut of the tokens of a node with content, in terms of its content
pub proof fn lemma_cutf_node(n: MarkdownNode, from: int, to: int)
    requires cont(n) is Some, 0 <= from < to <= toks(n).len(), from > 0 || to < toks(n).len()
    ensures ({
        let f = if from > 0 { from - 1 } else { 0 };
        let cs = flat(kids(n)).len() as int;
        let e = if to - 1 <= cs { to - 1 } else { cs };
        &&& 0 <= f <= e <= cs
        &&& cutf(toks(n), from, to) == seq![Tok::Open(head(n))] + cutf(flat(kids(n)), f, e) + seq![Tok::Close]
    })
{
    let t = toks(n);
    let i = flat(kids(n));
    let cs = i.len() as int;
    let f = if from > 0 { from - 1 } else { 0 };
    let e = if to - 1 <= cs { to - 1 } else { cs };
    lemma_toks_cont(n);
    let em = Seq::<Head>::empty();
    assert(t.take(0) =~= Seq::empty());
    assert(i.take(0) =~= Seq::empty());
    assert(t.take(t.len() as int) =~= t);
    assert(i.take(cs) =~= i);
    lemma_run_toks(em, n);
    lemma_run_flat(em, kids(n));
    if from > 0 { lemma_run_in(n, from); }
    if to < t.len() { lemma_run_in(n, to); }
    let l = cutf(t, from, to);
    let r = seq![Tok::Open(head(n))] + cutf(i, f, e) + seq![Tok::Close];
    // opening part
    if from > 0 {
        assert(opens(run(em, t.take(from))) =~= seq![Tok::Open(head(n))] + opens(run(em, i.take(f))));
    } else {
        assert(opens(run(em, t.take(from))) =~= Seq::empty());
        assert(opens(run(em, i.take(f))) =~= Seq::empty());
    }
    if to < t.len() {
        assert(closes(depth_at(t, to)) =~= closes(depth_at(i, e)) + seq![Tok::Close]);
    } else {
        assert(closes(depth_at(t, to)) =~= Seq::empty());
        assert(closes(depth_at(i, e)) =~= Seq::empty());
    }
    if f < e {
        assert(t.subrange(from, to) =~= (if from > 0 { Seq::empty() } else { seq![Tok::Open(head(n))] }) + i.subrange(f, e) + (if to < t.len() { Seq::empty() } else { seq![Tok::Close] }));
        assert(l =~= r);
    } else {
        if from > 0 {
            if to < t.len() { } else { assert(t.subrange(from, to) =~= seq![Tok::Close]); }
        }
        if from == 0 { assert(to == 1); assert(t.subrange(from, to) =~= seq![Tok::Open(head(n))]); assert(i.take(0) =~= Seq::empty()); assert(closes(depth_at(t, to)) =~= seq![Tok::Close]); assert(l =~= r); }
        else if to == t.len() { assert(from == t.len() - 1); assert(i.take(f) =~= i); assert(opens(run(em, t.take(from))) =~= seq![Tok::Open(head(n))]); assert(l =~= r); }
        else { assert(false); }
    }
}
/// one child more of a cut
pub proof fn lemma_cutf_step(s: Seq<MarkdownNode>, i: int, from: int, to: int)
    requires
        0 <= i < s.len(), 0 <= from < to <= flat(s).len(),
        flat(s.take(i)).len() < to,
        from < flat(s.take(i)).len() + toks(s[i]).len(),
        toks(s[i]).len() > 0,
    ensures ({
        let pos = flat(s.take(i)).len() as int;
        let end = pos + toks(s[i]).len();
        let t = flat(s);
        let m = if end <= to { end } else { to };
        let f = if from > pos { from - pos } else { 0 };
        &&& 0 <= f < m - pos <= toks(s[i]).len()
        &&& cutf(t, from, m) == (if pos <= from { Seq::empty() } else { cutf(t, from, pos) }) + cutf(toks(s[i]), f, m - pos)
        &&& flat(s.take(i + 1)).len() == end
        &&& t.subrange(pos + f, m) == toks(s[i]).subrange(f, m - pos)
    })
{
    let a = flat(s.take(i));
    let pos = a.len() as int;
    let c = toks(s[i]);
    let end = pos + c.len();
    let t = flat(s);
    let m = if end <= to { end } else { to };
    let f = if from > pos { from - pos } else { 0 };
    let em = Seq::<Head>::empty();
    lemma_flat_at(s, i);
    lemma_flat_take(s, i);
    lemma_run_at(s, i, m);
    lemma_run_at(s, i, pos);
    assert(c.take(0) =~= Seq::empty());
    assert(closes(0) =~= Seq::empty());
    assert(opens(em) =~= Seq::empty());
    assert(t.subrange(pos + f, m) =~= c.subrange(f, m - pos));
    if from >= pos {
        lemma_run_at(s, i, from);
        assert(cutf(t, from, m) =~= Seq::<Tok>::empty() + cutf(c, f, m - pos));
    } else {
        assert(t.subrange(from, m) =~= t.subrange(from, pos) + c.subrange(0, m - pos));
        assert(cutf(t, from, m) =~= cutf(t, from, pos) + cutf(c, f, m - pos));
    }
    assert(0 <= f < m - pos <= c.len());
    assert(cutf(t, from, m) == (if pos <= from { Seq::empty() } else { cutf(t, from, pos) }) + cutf(c, f, m - pos));
    assert(flat(s.take(i + 1)).len() == end);
    assert(t.subrange(pos + f, m) == c.subrange(f, m - pos));
}
pub proof fn lemma_wf_nonempty(n: MarkdownNode)
    requires wf_node(n)
    ensures toks(n).len() > 0
{
    lemma_toks_cont(n);
    if is_text(n) { lemma_u16_mono(text_of(n).text.content@, 0, text_of(n).text.content@.len() as int); let s = text_of(n).text.content@; assert(s.take(s.len() as int) =~= s); }
}
/// children of well-formed content start at strictly increasing offsets
pub proof fn lemma_flat_mono(s: Seq<MarkdownNode>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), wf_all(s)
    ensures flat(s.take(i)).len() + (j - i) <= flat(s.take(j)).len(), flat(s.take(j)).len() <= flat(s).len()
    decreases j - i
{
    lemma_wf_all(s);
    lemma_flat_split(s, j);
    if i < j {
        lemma_flat_mono(s, i, j - 1);
        lemma_flat_take(s, j - 1);
        lemma_wf_nonempty(s[j - 1]);
    }
}
/// boundaries of a text's tokens are the boundaries between its characters
pub proof fn lemma_bnd_units(s: Seq<char>, m: Seq<MarkdownMark>, p: int)
    requires 0 <= p <= u16len(s)
    ensures bnd(units(s, m), p) <==> cbnd(s, p)
    decreases s.len()
{
    lemma_units_len(s, m);
    if s.len() == 0 {
        assert(u16len(s.take(0)) == p);
    } else {
        let d = s.drop_last();
        lemma_units_len(d, m);
        if p <= u16len(d) {
            lemma_bnd_units(d, m, p);
            if p < u16len(d) { assert(units(s, m)[p] == units(d, m)[p]); }
            else { assert(units(s, m)[p] == ctoks(s.last(), m)[0]); }
            if cbnd(d, p) { let k = choose|k: int| 0 <= k <= d.len() && #[trigger] u16len(d.take(k)) == p; assert(d.take(k) =~= s.take(k)); assert(u16len(s.take(k)) == p); }
            if cbnd(s, p) {
                let k = choose|k: int| 0 <= k <= s.len() && #[trigger] u16len(s.take(k)) == p;
                if k == s.len() { assert(s.take(k) =~= s); } else { assert(d.take(k) =~= s.take(k)); assert(u16len(d.take(k)) == p); }
            }
            if p == u16len(d) { assert(d.take(d.len() as int) =~= d); assert(u16len(d.take(d.len() as int)) == p); }
        } else if p == u16len(s) {
            assert(s.take(s.len() as int) =~= s);
            assert(u16len(s.take(s.len() as int)) == p);
        } else {
            // the second half of the last character
            assert(units(s, m)[p] == ctoks(s.last(), m)[1]);
            if cbnd(s, p) {
                let k = choose|k: int| 0 <= k <= s.len() && #[trigger] u16len(s.take(k)) == p;
                assert(s.take(s.len() as int) =~= s);
                if k < s.len() { lemma_u16_mono(s, k, s.len() - 1); assert(s.take(s.len() - 1) =~= d); }
            }
        }
    }
}
