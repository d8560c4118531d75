// ------------------------------------------------------------------ validity on tokens
/// how many more nodes are opened than closed
pub open spec fn dz1(k: Tok) -> int { match k { Tok::Open(_) => 1, Tok::Close => -1int, _ => 0 } }
pub open spec fn dz(t: Seq<Tok>) -> int decreases t.len() { if t.len() == 0 { 0 } else { dz(t.drop_last()) + dz1(t.last()) } }
/// the level of a position
pub open spec fn lev(t: Seq<Tok>, p: int) -> int { dz(t.take(p)) }
/// nothing is closed that is not opened before
pub open spec fn above(t: Seq<Tok>) -> bool { forall|p: int| 0 <= p <= t.len() ==> #[trigger] lev(t, p) >= 0 }
pub open spec fn bal(t: Seq<Tok>) -> bool { dz(t) == 0 && above(t) }
/// the types that a type's content expression mentions, and whether it takes no content
pub open spec fn kid_ok(t: MarkdownNodeType, c: MarkdownNodeType) -> bool {
    match t {
        MarkdownNodeType::Doc | MarkdownNodeType::Blockquote | MarkdownNodeType::ListItem => is_block_ty(c),
        MarkdownNodeType::Heading => c is Text || c is Image,
        MarkdownNodeType::CodeBlock => c is Text,
        MarkdownNodeType::Paragraph => is_inline_ty(c),
        MarkdownNodeType::BulletList | MarkdownNodeType::OrderedList => c is ListItem,
        _ => false,
    }
}
pub open spec fn needs(t: MarkdownNodeType) -> bool { t is Doc || t is Blockquote || t is BulletList || t is OrderedList || t is ListItem }
pub open spec fn tok_ok(t: MarkdownNodeType, k: Tok) -> bool {
    match k {
        Tok::Open(h) => kid_ok(t, head_ty(h)),
        Tok::Leaf(h) => kid_ok(t, head_ty(h)),
        Tok::Ch(c, b, m) => kid_ok(t, MarkdownNodeType::Text) && marks_ok(t, m),
        Tok::Close => true,
    }
}
pub open spec fn opens_paragraph(k: Tok) -> bool { k is Open && head_ty(k->Open_0) is Paragraph }
/// the tokens are valid content of a node of the type
pub open spec fn vtoks(y: MarkdownNodeType, t: Seq<Tok>) -> bool {
    &&& needs(y) ==> t.len() > 0
    &&& y is ListItem ==> opens_paragraph(t[0])
    &&& forall|i: int| 0 <= i < t.len() && lev(t, i) == 0 ==> tok_ok(y, #[trigger] t[i])
}
/// there is a node whose content is between the positions
pub open spec fn content_at(t: Seq<Tok>, a: int, b: int) -> bool {
    &&& 1 <= a <= b < t.len() && t[a - 1] is Open && t[b] is Close && lev(t, b) == lev(t, a)
    &&& forall|q: int| a <= q <= b ==> #[trigger] lev(t, q) >= lev(t, a)
}
/// it is valid
pub open spec fn vnode_at(t: Seq<Tok>, a: int, b: int) -> bool { vtoks(head_ty(t[a - 1]->Open_0), t.subrange(a, b)) }
/// all nodes around the position are valid
pub open spec fn chk(t: Seq<Tok>, p: int) -> bool { forall|a: int, b: int| #[trigger] content_at(t, a, b) && a <= p <= b ==> vnode_at(t, a, b) }
/// all nodes are valid
pub open spec fn tvalid(t: Seq<Tok>) -> bool { forall|a: int, b: int| #[trigger] content_at(t, a, b) ==> vnode_at(t, a, b) }

pub proof fn lemma_dz_concat(a: Seq<Tok>, b: Seq<Tok>)
    ensures dz(a + b) == dz(a) + dz(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_dz_concat(a, b.drop_last());
    }
}
pub proof fn lemma_dz_one(k: Tok)
    ensures dz(seq![k]) == dz1(k)
{ assert(seq![k].drop_last() =~= Seq::<Tok>::empty()); assert(dz(Seq::<Tok>::empty()) == 0); }
pub proof fn lemma_lev_concat(a: Seq<Tok>, b: Seq<Tok>)
    ensures
        dz(a + b) == dz(a) + dz(b),
        forall|p: int| 0 <= p <= a.len() ==> #[trigger] lev(a + b, p) == lev(a, p),
        forall|p: int| a.len() <= p <= a.len() + b.len() ==> #[trigger] lev(a + b, p) == dz(a) + lev(b, p - a.len()),
{
    lemma_dz_concat(a, b);
    assert forall|p: int| 0 <= p <= a.len() implies #[trigger] lev(a + b, p) == lev(a, p) by { assert((a + b).take(p) =~= a.take(p)); }
    assert forall|p: int| a.len() <= p <= a.len() + b.len() implies #[trigger] lev(a + b, p) == dz(a) + lev(b, p - a.len()) by {
        assert((a + b).take(p) =~= a + b.take(p - a.len()));
        lemma_dz_concat(a, b.take(p - a.len()));
    }
}
pub proof fn lemma_lev_step(t: Seq<Tok>, p: int)
    requires 0 <= p < t.len()
    ensures lev(t, p + 1) == lev(t, p) + dz1(t[p])
{ assert(t.take(p + 1).drop_last() =~= t.take(p)); assert(t.take(p + 1).last() == t[p]); }
pub proof fn lemma_lev_ends(t: Seq<Tok>)
    ensures lev(t, 0) == 0, lev(t, t.len() as int) == dz(t)
{ assert(t.take(t.len() as int) =~= t); assert(t.take(0) =~= Seq::<Tok>::empty()); }
pub proof fn lemma_nb_lev(t: Seq<Tok>)
    requires no_brackets(t)
    ensures dz(t) == 0, forall|p: int| 0 <= p <= t.len() ==> #[trigger] lev(t, p) == 0, bal(t)
    decreases t.len()
{
    if t.len() > 0 {
        let u = t.drop_last();
        assert(no_brackets(u)) by { assert forall|i: int| 0 <= i < u.len() implies !((#[trigger] u[i]) is Open) && !(u[i] is Close) by { assert(u[i] == t[i]); } }
        lemma_nb_lev(u);
        assert(t.last() == t[t.len() - 1]);
        assert forall|p: int| 0 <= p <= t.len() implies #[trigger] lev(t, p) == 0 by {
            if p < t.len() { assert(t.take(p) =~= u.take(p)); assert(lev(u, p) == 0); } else { assert(t.take(p) =~= t); }
        }
    } else {
        assert forall|p: int| 0 <= p <= t.len() implies #[trigger] lev(t, p) == 0 by { assert(t.take(p) =~= t); }
    }
}
pub proof fn lemma_bal_concat(a: Seq<Tok>, b: Seq<Tok>)
    requires bal(a), bal(b)
    ensures bal(a + b)
{
    lemma_lev_concat(a, b);
    assert forall|p: int| 0 <= p <= (a + b).len() implies #[trigger] lev(a + b, p) >= 0 by { if p <= a.len() { assert(lev(a, p) >= 0); } else { assert(lev(b, p - a.len()) >= 0); } }
}
/// where the levels are, around the content of a node
pub proof fn lemma_frame(a: Seq<Tok>, h: Head, b: Seq<Tok>, c: Seq<Tok>)
    requires bal(a), bal(b)
    ensures ({
        let t = a + seq![Tok::Open(h)] + b + seq![Tok::Close] + c;
        let l = a.len() as int;
        let m = b.len() as int;
        &&& t.len() == l + m + 2 + c.len()
        &&& forall|p: int| 0 <= p <= l ==> #[trigger] lev(t, p) == lev(a, p) && lev(a, p) >= 0
        &&& forall|p: int| l + 1 <= p <= l + 1 + m ==> #[trigger] lev(t, p) == 1 + lev(b, p - l - 1) && lev(b, p - l - 1) >= 0
        &&& forall|p: int| l + m + 2 <= p <= t.len() ==> #[trigger] lev(t, p) == lev(c, p - l - m - 2)
        &&& lev(t, l) == 0 && lev(t, l + 1) == 1 && lev(t, l + 1 + m) == 1 && lev(t, l + m + 2) == 0
        &&& dz(t) == dz(c)
        &&& forall|p: int| 0 <= p < l ==> #[trigger] t[p] == a[p]
        &&& t[l] == Tok::Open(h) && t[l + 1 + m] is Close
        &&& forall|p: int| l + 1 <= p < l + 1 + m ==> #[trigger] t[p] == b[p - l - 1]
        &&& forall|p: int| l + m + 2 <= p < t.len() ==> #[trigger] t[p] == c[p - l - m - 2]
        &&& t.subrange(l + 1, l + 1 + m) == b
    })
{
    let o = seq![Tok::Open(h)];
    let z = seq![Tok::Close];
    let t = a + o + b + z + c;
    let l = a.len() as int;
    let m = b.len() as int;
    lemma_lev_concat(a, o); lemma_lev_concat(a + o, b); lemma_lev_concat(a + o + b, z); lemma_lev_concat(a + o + b + z, c);
    lemma_dz_one(Tok::Open(h)); lemma_dz_one(Tok::Close);
    lemma_lev_ends(a); lemma_lev_ends(b); lemma_lev_ends(c);
    assert forall|p: int| 0 <= p <= l implies #[trigger] lev(t, p) == lev(a, p) && lev(a, p) >= 0 by {
        assert(lev(a + o + b + z, p) == lev(a + o + b, p)); assert(lev(a + o + b, p) == lev(a + o, p)); assert(lev(a + o, p) == lev(a, p));
    }
    assert forall|p: int| l + 1 <= p <= l + 1 + m implies #[trigger] lev(t, p) == 1 + lev(b, p - l - 1) && lev(b, p - l - 1) >= 0 by {
        assert(lev(a + o + b + z, p) == lev(a + o + b, p)); assert(lev(a + o + b, p) == dz(a + o) + lev(b, p - l - 1));
    }
    assert(t.subrange(l + 1, l + 1 + m) =~= b);
}
/// the nodes around a position inside of a node: the node itself, and those around it in the content
pub proof fn lemma_chk(a: Seq<Tok>, h: Head, b: Seq<Tok>, c: Seq<Tok>, r: int)
    requires bal(a), bal(b), 0 <= r <= b.len()
    ensures chk(a + seq![Tok::Open(h)] + b + seq![Tok::Close] + c, a.len() + 1 + r) <==> vtoks(head_ty(h), b) && chk(b, r)
{
    hide(vtoks); hide(lev); hide(content_at);
    let t = a + seq![Tok::Open(h)] + b + seq![Tok::Close] + c;
    let l = a.len() as int;
    let m = b.len() as int;
    let p = l + 1 + r;
    lemma_content_node(a, h, b, c);
    if chk(t, p) {
        assert(content_at(t, l + 1, l + 1 + m));
        assert(vnode_at(t, l + 1, l + 1 + m));
        assert forall|x: int, y: int| #[trigger] content_at(b, x, y) && x <= r <= y implies vnode_at(b, x, y) by {
            lemma_content_in(a, h, b, c, x, y);
            assert(content_at(t, x + l + 1, y + l + 1));
            assert(vnode_at(t, x + l + 1, y + l + 1));
        }
    }
    if vtoks(head_ty(h), b) && chk(b, r) {
        assert forall|x: int, y: int| #[trigger] content_at(t, x, y) && x <= p <= y implies vnode_at(t, x, y) by {
            lemma_content_of(a, h, b, c, x, y, p);
        }
    }
}
pub proof fn lemma_content_node(a: Seq<Tok>, h: Head, b: Seq<Tok>, c: Seq<Tok>)
    requires bal(a), bal(b)
    ensures ({
        let t = a + seq![Tok::Open(h)] + b + seq![Tok::Close] + c;
        let l = a.len() as int;
        let m = b.len() as int;
        content_at(t, l + 1, l + 1 + m) && t[l] == Tok::Open(h) && t.subrange(l + 1, l + 1 + m) == b
    })
{
    hide(lev);
    let t = a + seq![Tok::Open(h)] + b + seq![Tok::Close] + c;
    let l = a.len() as int;
    let m = b.len() as int;
    lemma_frame(a, h, b, c);
    assert forall|q: int| l + 1 <= q <= l + 1 + m implies #[trigger] lev(t, q) >= lev(t, l + 1) by { assert(lev(t, q) == 1 + lev(b, q - l - 1)); }
}
/// a node around a position inside of a node is that node, or in its content
pub proof fn lemma_content_of(a: Seq<Tok>, h: Head, b: Seq<Tok>, c: Seq<Tok>, x: int, y: int, p: int)
    requires
        bal(a), bal(b), a.len() + 1 <= p <= a.len() + 1 + b.len(),
        content_at(a + seq![Tok::Open(h)] + b + seq![Tok::Close] + c, x, y), x <= p <= y,
    ensures ({
        let t = a + seq![Tok::Open(h)] + b + seq![Tok::Close] + c;
        let l = a.len() as int;
        let m = b.len() as int;
        ||| x == l + 1 && y == l + 1 + m && t[x - 1] == Tok::Open(h) && t.subrange(x, y) == b
        ||| content_at(b, x - l - 1, y - l - 1) && t[x - 1] == b[x - l - 2] && t.subrange(x, y) == b.subrange(x - l - 1, y - l - 1)
    })
{
    hide(lev);
    let t = a + seq![Tok::Open(h)] + b + seq![Tok::Close] + c;
    lemma_frame(a, h, b, c);
    lemma_content_of0(t, a, h, b, c, x, y, p);
}
pub proof fn lemma_content_of0(t: Seq<Tok>, a: Seq<Tok>, h: Head, b: Seq<Tok>, c: Seq<Tok>, x: int, y: int, p: int)
    requires
        a.len() + 1 <= p <= a.len() + 1 + b.len(), content_at(t, x, y), x <= p <= y,
        ({
            let l = a.len() as int;
            let m = b.len() as int;
            &&& t.len() == l + m + 2 + c.len()
            &&& forall|p: int| 0 <= p <= l ==> #[trigger] lev(t, p) == lev(a, p) && lev(a, p) >= 0
            &&& forall|p: int| l + 1 <= p <= l + 1 + m ==> #[trigger] lev(t, p) == 1 + lev(b, p - l - 1) && lev(b, p - l - 1) >= 0
            &&& lev(t, l) == 0 && lev(t, l + 1) == 1 && lev(t, l + 1 + m) == 1 && lev(t, l + m + 2) == 0
            &&& t[l] == Tok::Open(h) && t[l + 1 + m] is Close
            &&& forall|p: int| l + 1 <= p < l + 1 + m ==> #[trigger] t[p] == b[p - l - 1]
            &&& t.subrange(l + 1, l + 1 + m) == b
        }),
    ensures ({
        let l = a.len() as int;
        let m = b.len() as int;
        ||| x == l + 1 && y == l + 1 + m && t[x - 1] == Tok::Open(h) && t.subrange(x, y) == b
        ||| content_at(b, x - l - 1, y - l - 1) && t[x - 1] == b[x - l - 2] && t.subrange(x, y) == b.subrange(x - l - 1, y - l - 1)
    })
{
    hide(lev);
    let l = a.len() as int;
    let m = b.len() as int;
    assert(lev(t, x) <= lev(t, p));
    lemma_lev_step(t, x - 1);
    if x - 1 < l { assert(lev(t, l) >= lev(t, x)); assert(lev(t, x - 1) == lev(a, x - 1)); assert(false); }
    if x - 1 > l { assert(lev(t, x - 1) == 1 + lev(b, x - 1 - l - 1)); }
    if y > l + 1 + m { assert(lev(t, l + m + 2) >= lev(t, x)); assert(false); }
    if x - 1 == l {
        if y < l + 1 + m { lemma_lev_step(t, y); assert(lev(t, y + 1) == 1 + lev(b, y + 1 - l - 1)); assert(false); }
    } else {
        let u = x - l - 1;
        let v = y - l - 1;
        assert(t[x - 1] == b[u - 1]);
        assert(lev(t, x) == 1 + lev(b, u));
        if y == l + 1 + m { assert(false); }
        assert(t[y] == b[v]);
        assert(lev(t, y) == 1 + lev(b, v));
        assert forall|q: int| u <= q <= v implies #[trigger] lev(b, q) >= lev(b, u) by { assert(lev(t, q + l + 1) == 1 + lev(b, q)); }
        assert(content_at(b, u, v));
        assert(t.subrange(x, y) =~= b.subrange(u, v)) by {
            assert forall|k: int| 0 <= k < y - x implies t.subrange(x, y)[k] == b.subrange(u, v)[k] by { assert(t[x + k] == b[x + k - l - 1]); }
        }
    }
}
pub proof fn lemma_content_in(a: Seq<Tok>, h: Head, b: Seq<Tok>, c: Seq<Tok>, x: int, y: int)
    requires bal(a), bal(b), content_at(b, x, y)
    ensures
        content_at(a + seq![Tok::Open(h)] + b + seq![Tok::Close] + c, x + a.len() + 1, y + a.len() + 1),
        (a + seq![Tok::Open(h)] + b + seq![Tok::Close] + c)[x + a.len()] == b[x - 1],
        (a + seq![Tok::Open(h)] + b + seq![Tok::Close] + c).subrange(x + a.len() + 1, y + a.len() + 1) == b.subrange(x, y),
{
    hide(lev);
    let t = a + seq![Tok::Open(h)] + b + seq![Tok::Close] + c;
    let l = a.len() as int;
    lemma_frame(a, h, b, c);
    assert(t[x + l] == b[x - 1]);
    assert(t[y + l + 1] == b[y]);
    assert(t.subrange(x + l + 1, y + l + 1) =~= b.subrange(x, y)) by {
        assert forall|k: int| 0 <= k < y - x implies t.subrange(x + l + 1, y + l + 1)[k] == b.subrange(x, y)[k] by { assert(t[x + l + 1 + k] == b[x + k]); }
    }
    assert(lev(t, x + l + 1) == 1 + lev(b, x));
    assert(lev(t, y + l + 1) == 1 + lev(b, y));
    assert forall|q: int| x + l + 1 <= q <= y + l + 1 implies #[trigger] lev(t, q) >= lev(t, x + l + 1) by { assert(lev(t, q) == 1 + lev(b, q - l - 1)); }
}
/// nothing is around a position at the top
pub proof fn lemma_chk_top(t: Seq<Tok>, p: int)
    requires above(t), 0 <= p <= t.len(), lev(t, p) == 0
    ensures chk(t, p)
{
    assert forall|x: int, y: int| #[trigger] content_at(t, x, y) && x <= p <= y implies vnode_at(t, x, y) by {
        lemma_lev_step(t, x - 1);
        assert(lev(t, x - 1) >= 0);
        assert(lev(t, p) >= lev(t, x));
    }
}
/// what is in a child makes no difference to its parent
pub proof fn lemma_vtoks_inner(y: MarkdownNodeType, a: Seq<Tok>, h: Head, b: Seq<Tok>, b2: Seq<Tok>, c: Seq<Tok>)
    requires bal(a), bal(b), bal(b2), vtoks(y, a + seq![Tok::Open(h)] + b + seq![Tok::Close] + c)
    ensures vtoks(y, a + seq![Tok::Open(h)] + b2 + seq![Tok::Close] + c)
{
    let t = a + seq![Tok::Open(h)] + b + seq![Tok::Close] + c;
    let u = a + seq![Tok::Open(h)] + b2 + seq![Tok::Close] + c;
    let l = a.len() as int;
    lemma_frame(a, h, b, c);
    lemma_frame(a, h, b2, c);
    assert(t[0] == u[0]) by { if l > 0 { assert(t[0] == a[0]); assert(u[0] == a[0]); } }
    assert forall|i: int| 0 <= i < u.len() && lev(u, i) == 0 implies tok_ok(y, #[trigger] u[i]) by {
        if i < l { assert(u[i] == a[i]); assert(t[i] == a[i]); assert(lev(t, i) == lev(a, i)); }
        else if i == l { assert(tok_ok(y, t[l])); }
        else if i <= l + 1 + b2.len() { assert(lev(u, i) >= 1) by { assert(lev(u, i) == 1 + lev(b2, i - l - 1)); } }
        else {
            let j = i - b2.len() + b.len();
            assert(u[i] == c[i - l - b2.len() - 2]);
            assert(t[j] == c[j - l - b.len() - 2]);
            assert(lev(t, j) == lev(c, j - l - b.len() - 2));
        }
    }
}
// ------------------------------------------------------------------ nodes
pub proof fn lemma_bal_toks(n: MarkdownNode)
    ensures bal(toks(n)), cont(n) is Some ==> forall|p: int| 0 < p < toks(n).len() ==> #[trigger] lev(toks(n), p) >= 1
    decreases n, 0nat
{
    lemma_toks_cont(n);
    if cont(n) is Some {
        let e = Seq::<Tok>::empty();
        lemma_bal_flat(kids(n));
        lemma_empty_bal();
        let b = flat(kids(n));
        assert(e + seq![Tok::Open(head(n))] + b + seq![Tok::Close] + e =~= toks(n));
        lemma_frame(e, head(n), b, e);
        lemma_lev_ends(e);
        let t = toks(n);
        assert forall|p: int| 0 <= p <= t.len() implies #[trigger] lev(t, p) >= 0 && (0 < p < t.len() ==> lev(t, p) >= 1) by {
            if 1 <= p <= 1 + b.len() { assert(lev(t, p) == 1 + lev(b, p - 1)); }
        }
    } else if is_text(n) {
        lemma_units_nb(text_of(n).text.content@, marks_of(n));
        lemma_nb_lev(toks(n));
    } else { lemma_nb_lev(toks(n)); }
}
pub proof fn lemma_empty_bal() ensures bal(Seq::<Tok>::empty())
{ lemma_nb_lev(Seq::<Tok>::empty()); }
pub proof fn lemma_bal_flat(s: Seq<MarkdownNode>)
    ensures bal(flat(s))
    decreases s, s.len()
{
    if s.len() == 0 { lemma_empty_bal(); } else {
        lemma_bal_flat(s.drop_last());
        lemma_bal_toks(s.last());
        lemma_bal_concat(flat(s.drop_last()), toks(s.last()));
    }
}
/// the tokens of one child are allowed when its type and its marks are
pub proof fn lemma_vt_node(y: MarkdownNodeType, n: MarkdownNode)
    requires wf_node(n)
    ensures
        toks(n).len() > 0,
        (forall|i: int| 0 <= i < toks(n).len() && lev(toks(n), i) == 0 ==> tok_ok(y, #[trigger] toks(n)[i])) <==> kid_ok(y, ty(n)) && kid_marks_ok(y, n),
        opens_paragraph(toks(n)[0]) <==> ty(n) is Paragraph,
{
    let t = toks(n);
    lemma_toks_cont(n); lemma_wf_nonempty(n); lemma_bal_toks(n); lemma_lev_ends(t);
    if is_text(n) {
        lemma_units_nb(text_of(n).text.content@, marks_of(n));
        lemma_nb_lev(t);
        lemma_units_same(text_of(n).text.content@, marks_of(n));
        assert(t[0] is Ch);
        assert(lev(t, 0) == 0);
        if tok_ok(y, t[0]) {
            assert forall|i: int| 0 <= i < t.len() && lev(t, i) == 0 implies tok_ok(y, #[trigger] t[i]) by { assert(t[i] is Ch && t[i]->Ch_2 == marks_of(n)); }
        }
    } else {
        assert(lev(t, 0) == 0);
        if tok_ok(y, t[0]) {
            assert forall|i: int| 0 <= i < t.len() && lev(t, i) == 0 implies tok_ok(y, #[trigger] t[i]) by { if i > 0 { assert(lev(t, i) >= 1); } }
        }
    }
}
pub proof fn lemma_units_same(s: Seq<char>, m: Seq<MarkdownMark>)
    ensures forall|i: int| 0 <= i < units(s, m).len() ==> (#[trigger] units(s, m)[i]) is Ch && units(s, m)[i]->Ch_2 == m
    decreases s.len()
{ if s.len() > 0 { lemma_units_same(s.drop_last(), m); } }
pub open spec fn toks_ok(y: MarkdownNodeType, t: Seq<Tok>) -> bool { forall|i: int| 0 <= i < t.len() && lev(t, i) == 0 ==> tok_ok(y, #[trigger] t[i]) }
pub open spec fn kids_ok(y: MarkdownNodeType, s: Seq<MarkdownNode>) -> bool { forall|i: int| 0 <= i < s.len() ==> kid_ok(y, ty(#[trigger] s[i])) && kid_marks_ok(y, s[i]) }
pub proof fn lemma_toks_ok_concat(y: MarkdownNodeType, a: Seq<Tok>, b: Seq<Tok>)
    requires bal(a)
    ensures toks_ok(y, a + b) <==> toks_ok(y, a) && toks_ok(y, b)
{
    hide(lev); hide(tok_ok);
    let t = a + b;
    lemma_lev_concat(a, b);
    if toks_ok(y, t) {
        assert forall|i: int| 0 <= i < a.len() && lev(a, i) == 0 implies tok_ok(y, #[trigger] a[i]) by { assert(t[i] == a[i]); assert(lev(t, i) == lev(a, i)); }
        assert forall|i: int| 0 <= i < b.len() && lev(b, i) == 0 implies tok_ok(y, #[trigger] b[i]) by { assert(t[a.len() + i] == b[i]); assert(lev(t, a.len() + i) == dz(a) + lev(b, i)); }
    }
    if toks_ok(y, a) && toks_ok(y, b) {
        assert forall|i: int| 0 <= i < t.len() && lev(t, i) == 0 implies tok_ok(y, #[trigger] t[i]) by {
            if i < a.len() { assert(t[i] == a[i]); assert(lev(t, i) == lev(a, i)); }
            else { assert(t[i] == b[i - a.len()]); assert(lev(t, i) == dz(a) + lev(b, i - a.len())); }
        }
    }
}
pub proof fn lemma_vt_flat(y: MarkdownNodeType, s: Seq<MarkdownNode>)
    requires wf_all(s)
    ensures toks_ok(y, flat(s)) <==> kids_ok(y, s)
    decreases s.len()
{
    hide(kid_ok); hide(lev); hide(kid_marks_ok); hide(tok_ok); hide(ty);
    if s.len() > 0 {
        let u = s.drop_last();
        let n = s.last();
        lemma_vt_flat(y, u);
        lemma_vt_node(y, n);
        lemma_bal_flat(u);
        lemma_toks_ok_concat(y, flat(u), toks(n));
        assert(flat(s) == flat(u) + toks(n));
        assert(toks_ok(y, toks(n)) <==> kid_ok(y, ty(n)) && kid_marks_ok(y, n));
        assert(toks_ok(y, flat(s)) <==> kids_ok(y, u) && kid_ok(y, ty(n)) && kid_marks_ok(y, n));
        if kids_ok(y, s) { assert forall|i: int| 0 <= i < u.len() implies kid_ok(y, ty(#[trigger] u[i])) && kid_marks_ok(y, u[i]) by { assert(u[i] == s[i]); } assert(n == s[s.len() - 1]); }
        if kids_ok(y, u) && kid_ok(y, ty(n)) && kid_marks_ok(y, n) {
            assert forall|i: int| 0 <= i < s.len() implies kid_ok(y, ty(#[trigger] s[i])) && kid_marks_ok(y, s[i]) by { if i < u.len() { assert(u[i] == s[i]); } }
        }
    }
}
pub proof fn lemma_valid_kids(y: MarkdownNodeType, s: Seq<MarkdownNode>)
    ensures valid_content(y, s) <==> kids_ok(y, s) && (needs(y) ==> s.len() > 0) && (y is ListItem ==> ty(s[0]) is Paragraph)
{
    let v = tys(s);
    assert(v.len() == s.len());
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] v[i] == ty(s[i]) by { }
    if valid_content(y, s) {
        assert forall|i: int| 0 <= i < s.len() implies kid_ok(y, ty(#[trigger] s[i])) && kid_marks_ok(y, s[i]) by { assert(v[i] == ty(s[i])); }
        if needs(y) { assert(v[0] == ty(s[0])); }
    }
    if kids_ok(y, s) && (needs(y) ==> s.len() > 0) && (y is ListItem ==> ty(s[0]) is Paragraph) {
        assert forall|i: int| 0 <= i < v.len() implies kid_ok(y, #[trigger] v[i]) by { assert(v[i] == ty(s[i])); }
        if needs(y) { assert(v[0] == ty(s[0])); }
        if !(valid_kids(y, v)) { if s.len() > 0 { assert(kid_ok(y, v[0])); } }
    }
}
/// a node's content is valid exactly when its tokens are
pub proof fn lemma_vtoks(y: MarkdownNodeType, s: Seq<MarkdownNode>)
    requires wf_all(s)
    ensures valid_content(y, s) <==> vtoks(y, flat(s))
{
    hide(valid_content);
    lemma_valid_kids(y, s);
    lemma_vt_flat(y, s);
    if s.len() > 0 {
        lemma_wf_all(s);
        lemma_vt_node(y, s[0]);
        lemma_flat_at(s, 0);
        assert(s.take(0) =~= Seq::<MarkdownNode>::empty());
        assert(flat(s)[0] == toks(s[0])[0]);
    }
}
