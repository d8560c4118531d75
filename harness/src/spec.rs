//! An executable specification that is independent of the code under test: documents are
//! flattened to tokens, one per position.
use prosemirror::markdown::*;
use prosemirror::model::*;
use std::convert::TryFrom;

pub type N = MarkdownNode;
pub type M = MarkdownMark;
pub type T = MarkdownNodeType;

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Head {
    Doc,
    Heading(u8),
    CodeBlock(String),
    Blockquote,
    Paragraph,
    BulletList(bool),
    OrderedList(usize, bool),
    ListItem,
    HorizontalRule,
    HardBreak,
    Image(String, String, String),
}

#[derive(Clone, Debug)]
pub enum Tok {
    Open(Head),
    Close,
    Leaf(Head),
    /// one UTF-16 unit of a text
    Ch(u16, Vec<M>),
}
// the library's own `==` on marks is under test as well, so it is not used here
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        match (self, o) {
            (Tok::Open(a), Tok::Open(b)) | (Tok::Leaf(a), Tok::Leaf(b)) => a == b,
            (Tok::Close, Tok::Close) => true,
            (Tok::Ch(a, m), Tok::Ch(b, n)) => a == b && same_marks(m, n),
            _ => false,
        }
    }
}
pub fn mkey(m: &M) -> (u8, &str, &str) {
    match m {
        M::Strong => (0, "", ""),
        M::Em => (1, "", ""),
        M::Code => (2, "", ""),
        M::Link { attrs } => (3, &attrs.href, &attrs.title),
    }
}
pub fn same_marks(a: &[M], b: &[M]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| mkey(x) == mkey(y))
}

pub fn marks_vec(m: &MarkSet<MD>) -> Vec<M> {
    m.into_iter().cloned().collect()
}
pub fn rank(m: &M) -> u8 {
    match m {
        M::Strong => 0,
        M::Em => 1,
        M::Code => 2,
        M::Link { .. } => 3,
    }
}
pub fn madd(s: &[M], m: &M) -> Vec<M> {
    let mut r: Vec<M> = s.iter().filter(|x| rank(x) < rank(m)).cloned().collect();
    r.push(m.clone());
    r.extend(s.iter().filter(|x| rank(x) > rank(m)).cloned());
    r
}
pub fn mrem(s: &[M], m: &M) -> Vec<M> {
    s.iter().filter(|x| mkey(x) != mkey(m)).cloned().collect()
}

/// the head of a node that is not a text
pub fn head(n: &N) -> Option<Head> {
    Some(match n {
        N::Doc(_) => Head::Doc,
        N::Heading(a) => Head::Heading(a.attrs.level),
        N::CodeBlock(a) => Head::CodeBlock(a.attrs.params.clone()),
        N::Text(_) => return None,
        N::Blockquote(_) => Head::Blockquote,
        N::Paragraph(_) => Head::Paragraph,
        N::BulletList(a) => Head::BulletList(a.attrs.tight),
        N::OrderedList(a) => Head::OrderedList(a.attrs.order, a.attrs.tight),
        N::ListItem(_) => Head::ListItem,
        N::HorizontalRule => Head::HorizontalRule,
        N::HardBreak => Head::HardBreak,
        N::Image(l) => Head::Image(l.attrs.src.clone(), l.attrs.alt.clone(), l.attrs.title.clone()),
    })
}
pub fn frag(n: &N) -> Option<&Fragment<MD>> {
    Some(match n {
        N::Doc(b) | N::Blockquote(b) | N::Paragraph(b) | N::ListItem(b) => &b.content,
        N::Heading(a) => &a.content,
        N::CodeBlock(a) => &a.content,
        N::BulletList(a) => &a.content,
        N::OrderedList(a) => &a.content,
        _ => return None,
    })
}
pub fn kids(n: &N) -> &[N] {
    frag(n).map(|f| f.children()).unwrap_or(&[])
}
pub fn ty(n: &N) -> T {
    match head(n) {
        None => T::Text,
        Some(h) => hty(&h),
    }
}
pub fn hty(h: &Head) -> T {
    match h {
        Head::Doc => T::Doc,
        Head::Heading(_) => T::Heading,
        Head::CodeBlock(_) => T::CodeBlock,
        Head::Blockquote => T::Blockquote,
        Head::Paragraph => T::Paragraph,
        Head::BulletList(_) => T::BulletList,
        Head::OrderedList(..) => T::OrderedList,
        Head::ListItem => T::ListItem,
        Head::HorizontalRule => T::HorizontalRule,
        Head::HardBreak => T::HardBreak,
        Head::Image(..) => T::Image,
    }
}
pub fn toks_into(n: &N, out: &mut Vec<Tok>) {
    match n {
        N::Text(t) => {
            let m = marks_vec(&t.marks);
            for u in t.text.as_str().encode_utf16() {
                out.push(Tok::Ch(u, m.clone()));
            }
        }
        _ => {
            let h = head(n).unwrap();
            if frag(n).is_some() {
                out.push(Tok::Open(h));
                for c in kids(n) {
                    toks_into(c, out);
                }
                out.push(Tok::Close);
            } else {
                out.push(Tok::Leaf(h));
            }
        }
    }
}
pub fn toks(n: &N) -> Vec<Tok> {
    let mut v = vec![];
    toks_into(n, &mut v);
    v
}
pub fn flat(s: &[N]) -> Vec<Tok> {
    let mut v = vec![];
    for n in s {
        toks_into(n, &mut v);
    }
    v
}
/// the position is not between the two units of a character
pub fn bnd(t: &[Tok], p: usize) -> bool {
    !matches!(t.get(p), Some(Tok::Ch(u, _)) if (0xDC00..0xE000).contains(u))
}
pub fn ok_pos(t: &[Tok], p: usize) -> bool {
    p <= t.len() && bnd(t, p)
}
/// the nodes open at a position, outermost first
pub fn stack(t: &[Tok], p: usize) -> Vec<Head> {
    let mut s = vec![];
    for x in &t[..p] {
        match x {
            Tok::Open(h) => s.push(h.clone()),
            Tok::Close => {
                s.pop();
            }
            _ => {}
        }
    }
    s
}
pub fn depth_at(t: &[Tok], p: usize) -> usize {
    stack(t, p).len()
}
/// the outermost depth reached between two positions
pub fn min_depth(t: &[Tok], from: usize, to: usize) -> usize {
    (from..=to).map(|p| depth_at(t, p)).min().unwrap()
}
/// the part between two positions, with the nodes that are open at them
pub fn cutf(t: &[Tok], from: usize, to: usize) -> Vec<Tok> {
    if from >= to {
        return vec![];
    }
    let mut r: Vec<Tok> = stack(t, from).into_iter().map(Tok::Open).collect();
    r.extend_from_slice(&t[from..to]);
    r.extend(std::iter::repeat(Tok::Close).take(depth_at(t, to)));
    r
}

pub fn markset(m: &[M]) -> MarkSet<MD> {
    match MarkSet::try_from(m.to_vec()) {
        Ok(s) => s,
        Err(_) => {
            let mut s = MarkSet::default();
            m.iter().for_each(|x| s.add(x));
            s
        }
    }
}
pub fn text(s: &str, m: &[M]) -> N {
    N::Text(TextNode { text: Text::from(s.to_string()), marks: markset(m) })
}
pub fn mk(h: &Head, c: Vec<N>) -> N {
    let content = Fragment::from(c);
    match h {
        Head::Doc => N::Doc(Block { content }),
        Head::Heading(level) => N::Heading(AttrNode { attrs: HeadingAttrs { level: *level }, content }),
        Head::CodeBlock(p) => N::CodeBlock(AttrNode { attrs: CodeBlockAttrs { params: p.clone() }, content }),
        Head::Blockquote => N::Blockquote(Block { content }),
        Head::Paragraph => N::Paragraph(Block { content }),
        Head::BulletList(t) => N::BulletList(AttrNode { attrs: BulletListAttrs { tight: *t }, content }),
        Head::OrderedList(o, t) => N::OrderedList(AttrNode { attrs: OrderedListAttrs { order: *o, tight: *t }, content }),
        Head::ListItem => N::ListItem(Block { content }),
        Head::HorizontalRule => N::HorizontalRule,
        Head::HardBreak => N::HardBreak,
        Head::Image(s, a, t) => N::Image(Leaf { attrs: ImageAttrs { src: s.clone(), alt: a.clone(), title: t.clone() } }),
    }
}
/// the nodes of balanced tokens, with neighbouring texts of the same marks joined
pub fn unflat(t: &[Tok]) -> Option<Vec<N>> {
    let mut st: Vec<(Option<Head>, Vec<N>)> = vec![(None, vec![])];
    let mut units: Vec<u16> = vec![];
    let mut um: Vec<M> = vec![];
    fn flush(st: &mut Vec<(Option<Head>, Vec<N>)>, units: &mut Vec<u16>, um: &[M]) -> Option<()> {
        if !units.is_empty() {
            let s = String::from_utf16(units).ok()?;
            st.last_mut().unwrap().1.push(text(&s, um));
            units.clear();
        }
        Some(())
    }
    for x in t {
        if let Tok::Ch(u, m) = x {
            if !same_marks(m, &um) {
                flush(&mut st, &mut units, &um)?;
                um = m.clone();
            }
            units.push(*u);
            continue;
        }
        flush(&mut st, &mut units, &um)?;
        match x {
            Tok::Open(h) => st.push((Some(h.clone()), vec![])),
            Tok::Close => {
                let (h, c) = st.pop()?;
                let h = h?;
                st.last_mut()?.1.push(mk(&h, c));
            }
            Tok::Leaf(h) => st.last_mut()?.1.push(mk(h, vec![])),
            Tok::Ch(..) => {}
        }
    }
    flush(&mut st, &mut units, &um)?;
    if st.len() != 1 {
        return None;
    }
    Some(st.pop()?.1)
}

pub fn is_inline(t: T) -> bool {
    matches!(t, T::Text | T::Image | T::HardBreak)
}
pub fn is_block(t: T) -> bool {
    matches!(t, T::Paragraph | T::Blockquote | T::Heading | T::HorizontalRule | T::CodeBlock | T::OrderedList | T::BulletList)
}
pub const TYPES: [T; 12] = [
    T::Doc, T::Heading, T::CodeBlock, T::Text, T::Blockquote, T::Paragraph, T::BulletList, T::OrderedList, T::ListItem, T::HorizontalRule,
    T::HardBreak, T::Image,
];
/// the documented content expressions
pub fn valid_kids(t: T, s: &[T]) -> bool {
    match t {
        T::Doc | T::Blockquote => !s.is_empty() && s.iter().all(|x| is_block(*x)),
        T::Heading => s.iter().all(|x| matches!(x, T::Text | T::Image)),
        T::CodeBlock => s.iter().all(|x| matches!(x, T::Text)),
        T::Paragraph => s.iter().all(|x| is_inline(*x)),
        T::BulletList | T::OrderedList => !s.is_empty() && s.iter().all(|x| matches!(x, T::ListItem)),
        T::ListItem => !s.is_empty() && s[0] == T::Paragraph && s.iter().all(|x| is_block(*x)),
        _ => s.is_empty(),
    }
}
pub fn allows(t: T) -> bool {
    !matches!(t, T::Doc | T::Blockquote | T::BulletList | T::OrderedList | T::ListItem | T::CodeBlock)
}
pub fn compat(a: T, b: T) -> bool {
    // a child could start the content of both
    let starts = |t: T, c: T| valid_kids(t, &[c]);
    a == b || TYPES.iter().any(|c| starts(a, *c) && starts(b, *c))
}
pub fn kid_marks_ok(t: T, n: &N) -> bool {
    match n {
        N::Text(x) => marks_vec(&x.marks).is_empty() || allows(t),
        _ => true,
    }
}
pub fn valid_content(t: T, c: &[N]) -> bool {
    let ts: Vec<T> = c.iter().map(ty).collect();
    valid_kids(t, &ts) && c.iter().all(|n| kid_marks_ok(t, n))
}
pub fn valid(n: &N) -> bool {
    match n {
        N::Text(_) => true,
        _ => valid_content(ty(n), kids(n)) && kids(n).iter().all(valid),
    }
}
/// valid, except for the nodes open at the sides
pub fn valid_open(s: &[N], a: usize, b: usize) -> bool {
    let l = s.len();
    s.iter().enumerate().all(|(i, n)| {
        let a2 = if i == 0 && a > 0 { Some(a - 1) } else { None };
        let b2 = if i + 1 == l && b > 0 { Some(b - 1) } else { None };
        if a2.is_none() && b2.is_none() {
            valid(n)
        } else {
            valid_open(kids(n), a2.unwrap_or(0), b2.unwrap_or(0))
        }
    })
}
pub fn spine(s: &[N], mut k: usize, last: bool) -> Option<Vec<T>> {
    let mut r = vec![];
    let mut s = s;
    while k > 0 {
        let n = if last { s.last() } else { s.first() }?;
        frag(n)?;
        r.push(ty(n));
        s = kids(n);
        k -= 1;
    }
    Some(r)
}
/// the representation invariant of the inputs: texts are not empty, marks are sets
pub fn well_formed(n: &N) -> bool {
    match n {
        N::Text(t) => {
            let m = marks_vec(&t.marks);
            !t.text.as_str().is_empty() && m.windows(2).all(|w| rank(&w[0]) < rank(&w[1]))
        }
        _ => kids(n).iter().all(well_formed),
    }
}
/// every recorded size is the number of positions
pub fn sizes(n: &N) -> Result<usize, String> {
    let s = match n {
        N::Text(t) => {
            let c = t.text.as_str().encode_utf16().count();
            if t.text.len_utf16() != c {
                return Err(format!("recorded length {} of the text {:?}, which has {} units", t.text.len_utf16(), t.text.as_str(), c));
            }
            c
        }
        _ => match frag(n) {
            Some(f) => sizes_f(f)? + 2,
            None => 1,
        },
    };
    if n.node_size() != s {
        return Err(format!("node_size {} for a node of size {}", n.node_size(), s));
    }
    Ok(s)
}
pub fn sizes_f(f: &Fragment<MD>) -> Result<usize, String> {
    let mut s = 0;
    for c in f.children() {
        s += sizes(c)?;
    }
    if f.size() != s {
        return Err(format!("recorded size {} for content of size {}", f.size(), s));
    }
    Ok(s)
}

/// cases are written down without the library's own serialisation, which is under test as well
pub mod own {
    use super::*;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    #[derive(Serialize, Deserialize)]
    pub enum JN {
        Text(String, Vec<JM>),
        Node(Head, Vec<JN>),
    }
    #[derive(Serialize, Deserialize)]
    pub enum JM {
        Strong,
        Em,
        Code,
        Link(String, String),
    }
    fn mark_out(m: &M) -> JM {
        match m {
            M::Strong => JM::Strong,
            M::Em => JM::Em,
            M::Code => JM::Code,
            M::Link { attrs } => JM::Link(attrs.href.clone(), attrs.title.clone()),
        }
    }
    fn mark_in(m: &JM) -> M {
        match m {
            JM::Strong => M::Strong,
            JM::Em => M::Em,
            JM::Code => M::Code,
            JM::Link(h, t) => M::Link { attrs: LinkAttrs { href: h.clone(), title: t.clone() } },
        }
    }
    fn out(n: &N) -> JN {
        match n {
            N::Text(t) => JN::Text(t.text.as_str().to_string(), marks_vec(&t.marks).iter().map(mark_out).collect()),
            _ => JN::Node(head(n).unwrap(), super::kids(n).iter().map(out).collect()),
        }
    }
    fn inn(n: &JN) -> N {
        match n {
            JN::Text(s, m) => text(s, &m.iter().map(mark_in).collect::<Vec<_>>()),
            JN::Node(h, k) => mk(h, k.iter().map(inn).collect()),
        }
    }
    pub mod node {
        use super::*;
        pub fn serialize<S: Serializer>(n: &N, s: S) -> Result<S::Ok, S::Error> {
            out(n).serialize(s)
        }
        pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<N, D::Error> {
            Ok(inn(&JN::deserialize(d)?))
        }
    }
    pub mod nodes {
        use super::*;
        pub fn serialize<S: Serializer>(n: &Vec<N>, s: S) -> Result<S::Ok, S::Error> {
            n.iter().map(out).collect::<Vec<_>>().serialize(s)
        }
        pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<N>, D::Error> {
            Ok(Vec::<JN>::deserialize(d)?.iter().map(inn).collect())
        }
    }
    pub mod marks {
        use super::*;
        pub fn serialize<S: Serializer>(n: &Vec<M>, s: S) -> Result<S::Ok, S::Error> {
            n.iter().map(mark_out).collect::<Vec<_>>().serialize(s)
        }
        pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<M>, D::Error> {
            Ok(Vec::<JM>::deserialize(d)?.iter().map(mark_in).collect())
        }
    }
    pub mod mark {
        use super::*;
        pub fn serialize<S: Serializer>(n: &Option<M>, s: S) -> Result<S::Ok, S::Error> {
            n.as_ref().map(mark_out).serialize(s)
        }
        pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Option<M>, D::Error> {
            Ok(Option::<JM>::deserialize(d)?.as_ref().map(mark_in))
        }
    }
}
