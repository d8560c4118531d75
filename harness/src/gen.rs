//! Generators: small documents exhaustively, larger ones at random.
use crate::spec::*;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, X>(&mut self, s: &'a [X]) -> &'a X {
        let i = self.below(s.len());
        &s[i]
    }
}

pub fn link(h: &str) -> M {
    M::Link { attrs: prosemirror::markdown::LinkAttrs { href: h.to_string(), title: String::new() } }
}
pub fn all_marks() -> Vec<M> {
    vec![M::Strong, M::Em, M::Code, link("u"), link("v")]
}
pub fn gen_mark(r: &mut Rng) -> M {
    r.pick(&all_marks()).clone()
}
pub fn gen_marks(r: &mut Rng) -> Vec<M> {
    if r.one_in(2) {
        return vec![];
    }
    let mut v: Vec<M> = vec![];
    for m in [M::Strong, M::Em, M::Code] {
        if r.one_in(3) {
            v.push(m);
        }
    }
    if r.one_in(3) {
        v.push(if r.one_in(2) { link("u") } else { link("v") });
    }
    v
}
pub fn gen_str(r: &mut Rng) -> String {
    let n = if r.one_in(8) { r.range(4, 9) } else { r.range(1, 4) };
    (0..n).map(|_| *r.pick(&['a', 'b', 'c', 'é', '😀', '\u{FFFF}', '\u{10000}', ' ', 'x'])).collect()
}
pub fn gen_inline(r: &mut Rng, head: &Head) -> Vec<N> {
    let n = match r.below(10) {
        0 => 0,
        1..=4 => 1,
        5..=7 => 2,
        8 => 3,
        _ => 5,
    };
    let mut v = vec![];
    for _ in 0..n {
        let k = r.below(10);
        let x = match hty(head) {
            T::CodeBlock => text(&gen_str(r), &[]),
            T::Heading if k < 2 => mk(&Head::Image(r.pick(&["s", "t"]).to_string(), String::new(), String::new()), vec![]),
            T::Paragraph if k == 0 => mk(&Head::Image("s".into(), "a".into(), "t".into()), vec![]),
            T::Paragraph if k == 1 => mk(&Head::HardBreak, vec![]),
            _ => text(&gen_str(r), &gen_marks(r)),
        };
        v.push(x);
    }
    v
}
pub fn gen_block(r: &mut Rng, depth: usize) -> N {
    let k = if depth == 0 { r.below(6) } else { r.below(11) };
    match k {
        0..=2 => {
            let h = Head::Paragraph;
            let c = gen_inline(r, &h);
            mk(&h, c)
        }
        3 => {
            let h = Head::Heading(r.range(1, 2) as u8);
            let c = gen_inline(r, &h);
            mk(&h, c)
        }
        4 => {
            let h = Head::CodeBlock(r.pick(&["", "rs"]).to_string());
            let c = gen_inline(r, &h);
            mk(&h, c)
        }
        5 => mk(&Head::HorizontalRule, vec![]),
        6..=7 => {
            let c = gen_blocks(r, depth - 1);
            mk(&Head::Blockquote, c)
        }
        _ => {
            let n = r.range(1, 3);
            let c = (0..n).map(|_| gen_li(r, depth - 1)).collect();
            let h = if r.one_in(2) { Head::BulletList(r.one_in(2)) } else { Head::OrderedList(r.range(1, 2), false) };
            mk(&h, c)
        }
    }
}
pub fn gen_blocks(r: &mut Rng, depth: usize) -> Vec<N> {
    let n = match r.below(8) {
        0..=3 => 1,
        4..=6 => 2,
        _ => 3,
    };
    (0..n).map(|_| gen_block(r, depth)).collect()
}
pub fn gen_li(r: &mut Rng, depth: usize) -> N {
    let mut c = vec![mk(&Head::Paragraph, gen_inline(r, &Head::Paragraph))];
    if r.one_in(3) {
        c.extend(gen_blocks(r, depth.saturating_sub(1)));
    }
    mk(&Head::ListItem, c)
}
/// containers next to each other, inside of others: what is joined by a deletion across them
pub fn gen_nested(r: &mut Rng, depth: usize) -> Vec<N> {
    let n = if r.one_in(4) { 1 } else { 2 };
    (0..n)
        .map(|_| {
            if depth == 0 {
                return gen_block(r, 0);
            }
            match r.below(3) {
                0 => {
                    let c = gen_nested(r, depth - 1);
                    mk(&Head::Blockquote, c)
                }
                k => {
                    let m = if r.one_in(4) { 2 } else { 1 };
                    let c = (0..m)
                        .map(|_| {
                            let mut c = vec![mk(&Head::Paragraph, gen_inline(r, &Head::Paragraph))];
                            if r.one_in(2) {
                                c.extend(gen_nested(r, depth - 1));
                            }
                            mk(&Head::ListItem, c)
                        })
                        .collect();
                    mk(&if k == 1 { Head::BulletList(r.one_in(2)) } else { Head::OrderedList(r.range(1, 2), false) }, c)
                }
            }
        })
        .collect()
}
/// a document that follows the schema
pub fn gen_doc(r: &mut Rng) -> N {
    if r.one_in(5) {
        let d = r.range(1, 3);
        return mk(&Head::Doc, gen_nested(r, d));
    }
    let d = r.below(4);
    mk(&Head::Doc, gen_blocks(r, d))
}
/// any node of the data type
pub fn gen_wild(r: &mut Rng, depth: usize) -> N {
    let k = if depth == 0 { r.below(6) } else { r.below(18) };
    let h = match k {
        0..=2 => return text(&gen_str(r), &gen_marks(r)),
        3 => Head::HorizontalRule,
        4 => Head::HardBreak,
        5 => Head::Image("s".into(), "a".into(), "t".into()),
        6 => Head::Doc,
        7 => Head::Heading(1),
        8 => Head::CodeBlock(String::new()),
        9..=10 => Head::Blockquote,
        11..=13 => Head::Paragraph,
        14 => Head::BulletList(false),
        15 => Head::OrderedList(1, true),
        _ => Head::ListItem,
    };
    let n = r.below(4);
    let c = (0..n).map(|_| gen_wild(r, depth.saturating_sub(1))).collect();
    mk(&h, c)
}
pub fn gen_any_doc(r: &mut Rng) -> N {
    if r.one_in(4) {
        gen_wild(r, 3)
    } else {
        gen_doc(r)
    }
}
fn rich_str(r: &mut Rng) -> String {
    let n = *r.pick(&[0, 1, 1, 2, 3, 6]);
    (0..n).map(|_| *r.pick(&['a', '"', '\\', '\n', '\u{0}', '\u{1f}', '/', '\u{2028}', '\r', '\t', '\u{a0}', '\u{feff}', '\'', '&', 'é', '😀', '\u{FFFF}', '\u{D7FF}', ' ', '<', '0'])).collect()
}
fn rich_marks(r: &mut Rng) -> Vec<M> {
    let mut v = gen_marks(r);
    if let Some(M::Link { attrs }) = v.last_mut() {
        attrs.href = rich_str(r);
        attrs.title = rich_str(r);
    }
    v
}
/// any node, with all kinds of attributes and characters
pub fn gen_rich(r: &mut Rng, depth: usize) -> N {
    let k = if depth == 0 { r.below(7) } else { r.below(19) };
    let num = |r: &mut Rng| *r.pick(&[0, 1, 2, 7, 255, 256, 1 << 32, (1 << 53) + 1, i64::MAX as usize, usize::MAX]);
    let h = match k {
        0..=3 => {
            let s = rich_str(r);
            let m = rich_marks(r);
            return text(&s, &m);
        }
        4 => Head::HorizontalRule,
        5 => Head::HardBreak,
        6 => Head::Image(rich_str(r), rich_str(r), rich_str(r)),
        7 => Head::Doc,
        8..=9 => Head::Heading(*r.pick(&[0, 1, 6, 127, 128, 255])),
        10 => Head::CodeBlock(rich_str(r)),
        11..=12 => Head::Blockquote,
        13..=14 => Head::Paragraph,
        15..=16 => Head::BulletList(r.one_in(2)),
        17 => Head::OrderedList(num(r), r.one_in(2)),
        _ => Head::ListItem,
    };
    let n = r.below(4);
    let c = (0..n).map(|_| gen_rich(r, depth.saturating_sub(1))).collect();
    mk(&h, c)
}
pub fn gen_deep(r: &mut Rng) -> N {
    let d = r.range(5, 50);
    let mut n = gen_rich(r, 0);
    for _ in 0..d {
        n = match r.below(3) {
            0 => mk(&Head::Blockquote, vec![n]),
            1 => mk(&Head::BulletList(true), vec![n]),
            _ => mk(&Head::ListItem, vec![text("a", &[]), n]),
        };
    }
    n
}
/// a position, more often than not between two characters
pub fn gen_pos(r: &mut Rng, t: &[Tok]) -> usize {
    if r.one_in(40) {
        return *r.pick(&[t.len() + 1, t.len() + 2, usize::MAX, usize::MAX / 2]);
    }
    r.range(0, t.len())
}
pub fn gen_range(r: &mut Rng, t: &[Tok]) -> (usize, usize) {
    let a = gen_pos(r, t);
    if r.one_in(4) && a <= t.len() {
        // an end that is as deep as the start
        let d = depth_at(t, a);
        for _ in 0..6 {
            let b = r.range(a, t.len());
            if depth_at(t, b) == d {
                return (a, b);
            }
        }
    }
    let b = match r.below(6) {
        0 => a,
        1..=2 => (a.saturating_add(r.below(4))).min(if a <= t.len() { t.len() } else { usize::MAX }),
        _ => gen_pos(r, t),
    };
    if a > b && !r.one_in(20) {
        (b, a)
    } else {
        (a, b)
    }
}
/// a part of a document, with open sides
#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Sl {
    #[serde(with = "crate::spec::own::nodes")]
    pub content: Vec<N>,
    pub os: usize,
    pub oe: usize,
}
impl Sl {
    pub fn get(&self) -> prosemirror::model::Slice<prosemirror::markdown::MD> {
        prosemirror::model::Slice::new(prosemirror::model::Fragment::from(self.content.clone()), self.os, self.oe)
    }
    pub fn inserts(&self) -> Vec<Tok> {
        let t = flat(&self.content);
        t[self.os..t.len() - self.oe].to_vec()
    }
    pub fn ok(&self) -> bool {
        spine(&self.content, self.os, false).is_some() && spine(&self.content, self.oe, true).is_some()
    }
}
/// the slice between two positions, made from the tokens
pub fn own_slice(t: &[Tok], from: usize, to: usize) -> Option<Sl> {
    if from >= to || !ok_pos(t, from) || !ok_pos(t, to) {
        return Some(Sl::default());
    }
    let d = min_depth(t, from, to);
    let c = cutf(t, from, to);
    let c = &c[d..c.len() - d];
    Some(Sl { content: unflat(c)?, os: depth_at(t, from) - d, oe: depth_at(t, to) - d })
}
pub fn gen_slice(r: &mut Rng, doc: &N, from: usize, to: usize) -> Sl {
    let t = flat(kids(doc));
    match r.below(12) {
        0..=1 => Sl::default(),
        2 => {
            let h = Head::Paragraph;
            Sl { content: gen_inline(r, &h), os: 0, oe: 0 }
        }
        3 => {
            let d = r.below(3);
            Sl { content: gen_blocks(r, d), os: 0, oe: 0 }
        }
        4 => {
            let n = r.below(3);
            let content: Vec<N> = (0..n).map(|_| gen_wild(r, 3)).collect();
            Sl { content, os: r.below(3), oe: r.below(3) }
        }
        5 => {
            // the part that is there
            own_slice(&t, from.min(t.len()), to.min(t.len())).unwrap_or_default()
        }
        6..=8 => {
            // a part whose ends are as deep as the positions
            let d2 = if r.one_in(2) { doc.clone() } else { gen_doc(r) };
            let t2 = flat(kids(&d2));
            if !ok_pos(&t, from) || !ok_pos(&t, to) || from > to {
                return Sl::default();
            }
            let (a, b) = (depth_at(&t, from), depth_at(&t, to));
            for _ in 0..30 {
                let x = r.range(0, t2.len());
                let y = r.range(x, t2.len());
                if ok_pos(&t2, x) && ok_pos(&t2, y) && x < y {
                    if let Some(s) = own_slice(&t2, x, y) {
                        if s.os <= a && s.oe <= b && a - s.os == b - s.oe {
                            return s;
                        }
                    }
                }
            }
            Sl::default()
        }
        _ => {
            let d2 = gen_doc(r);
            let t2 = flat(kids(&d2));
            let x = r.range(0, t2.len());
            let y = r.range(x, t2.len());
            own_slice(&t2, x, y).unwrap_or_default()
        }
    }
}

/// every node sequence with exactly `k` tokens over a small alphabet; blocks only
pub fn small_blocks(k: usize) -> Vec<Vec<N>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for a in 1..=k {
        let firsts = small_block(a);
        if firsts.is_empty() {
            continue;
        }
        for rest in small_blocks(k - a) {
            for f in &firsts {
                let mut v = vec![f.clone()];
                v.extend(rest.iter().cloned());
                r.push(v);
            }
        }
    }
    r
}
fn small_inline(k: usize) -> Vec<Vec<N>> {
    match k {
        0 => vec![vec![]],
        1 => vec![vec![text("a", &[])], vec![text("b", &[M::Em])]],
        2 => vec![
            vec![text("ab", &[])],
            vec![text("😀", &[])],
            vec![text("a", &[]), text("b", &[M::Strong])],
            vec![text("a", &[M::Em]), mk(&Head::HardBreak, vec![])],
        ],
        3 => vec![vec![text("abc", &[])], vec![text("a😀", &[])], vec![text("a", &[]), text("b", &[M::Em]), text("c", &[])]],
        _ => vec![vec![text(&"abcdefgh"[..k], &[])]],
    }
}
fn small_block(k: usize) -> Vec<N> {
    let mut r = vec![];
    if k == 1 {
        r.push(mk(&Head::HorizontalRule, vec![]));
    }
    if k >= 2 {
        for c in small_inline(k - 2) {
            r.push(mk(&Head::Paragraph, c));
        }
        if k <= 3 {
            for c in small_inline(k - 2) {
                if valid_content(T::Heading, &c) {
                    r.push(mk(&Head::Heading(1), c));
                }
            }
        }
    }
    if k >= 3 {
        for c in small_blocks(k - 2) {
            r.push(mk(&Head::Blockquote, c));
        }
    }
    if k >= 6 {
        // a list of one item, or of two
        for c in small_blocks(k - 4) {
            if valid_content(T::ListItem, &c) {
                r.push(mk(&Head::BulletList(false), vec![mk(&Head::ListItem, c)]));
            }
        }
    }
    r
}
pub fn small_docs(max: usize) -> Vec<N> {
    let mut r = vec![];
    for k in 1..=max {
        for c in small_blocks(k) {
            r.push(mk(&Head::Doc, c));
        }
    }
    r
}
