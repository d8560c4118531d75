//! Markdown: documents as events and events as documents, independently of the code under test.
use crate::gen::*;
use crate::props::Case;
use crate::spec::*;
use prosemirror::markdown::*;
use pulldown_cmark::{CodeBlockKind, CowStr, Event, LinkType, Parser, Tag};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub enum Tr {
    Node(Head, Vec<Tr>),
    Text(String, Vec<M>),
}
impl PartialEq for Tr {
    fn eq(&self, o: &Tr) -> bool {
        match (self, o) {
            (Tr::Node(a, j), Tr::Node(b, k)) => a == b && j == k,
            (Tr::Text(a, m), Tr::Text(b, n)) => a == b && same_marks(m, n),
            _ => false,
        }
    }
}
pub fn tree(n: &N) -> Tr {
    match n {
        N::Text(t) => Tr::Text(t.text.as_str().into(), marks_vec(&t.marks)),
        _ => Tr::Node(head(n).unwrap(), kids(n).iter().map(tree).collect()),
    }
}
/// Markdown does not say whether a list is tight
fn loose(t: &Tr) -> Tr {
    match t {
        Tr::Node(h, k) => {
            let h = match h {
                Head::BulletList(_) => Head::BulletList(false),
                Head::OrderedList(o, _) => Head::OrderedList(*o, false),
                h => h.clone(),
            };
            Tr::Node(h, k.iter().map(loose).collect())
        }
        t => t.clone(),
    }
}
fn is_p(t: &Tr) -> bool {
    matches!(t, Tr::Node(Head::Paragraph, _))
}
fn tyt(t: &Tr) -> T {
    match t {
        Tr::Node(h, _) => hty(h),
        Tr::Text(..) => T::Text,
    }
}
fn tvalid(t: &Tr) -> bool {
    match t {
        Tr::Node(h, k) => {
            let y: Vec<T> = k.iter().map(tyt).collect();
            valid_kids(hty(h), &y) && k.iter().all(|x| !matches!(x, Tr::Text(_, m) if !m.is_empty() && !allows(hty(h))))
        }
        _ => true,
    }
}
fn join(k: &mut Vec<Tr>, s: &str, m: &[M]) {
    if s.is_empty() {
        return;
    }
    if let Some(Tr::Text(t, n)) = k.last_mut() {
        if same_marks(m, n) {
            t.push_str(s);
            return;
        }
    }
    k.push(Tr::Text(s.into(), m.to_vec()));
}
fn lnk(h: &str, t: &str) -> M {
    M::Link { attrs: LinkAttrs { href: h.into(), title: t.into() } }
}
fn code_params(k: &CodeBlockKind) -> String {
    match k {
        CodeBlockKind::Fenced(p) => p.to_string(),
        _ => String::new(),
    }
}
/// the document that a sequence of events describes
pub fn build<'a>(es: impl Iterator<Item = Event<'a>>) -> Option<Tr> {
    let mut st: Vec<(Head, Vec<Tr>)> = vec![(Head::Doc, vec![])];
    let mut marks: Vec<M> = vec![];
    let p = |k: Vec<Tr>| Tr::Node(Head::Paragraph, k);
    let filled = |k: Vec<Tr>| if k.is_empty() { vec![p(vec![])] } else { k };
    for e in es {
        let mut done: Option<Tr> = None;
        match e {
            Event::Start(Tag::Paragraph) => st.push((Head::Paragraph, vec![])),
            Event::Start(Tag::Heading(l)) => st.push((Head::Heading(u8::try_from(l).ok()?), vec![])),
            Event::Start(Tag::BlockQuote) => st.push((Head::Blockquote, vec![])),
            Event::Start(Tag::CodeBlock(k)) => st.push((Head::CodeBlock(code_params(&k)), vec![])),
            Event::Start(Tag::List(None)) => st.push((Head::BulletList(false), vec![])),
            Event::Start(Tag::List(Some(o))) => st.push((Head::OrderedList(usize::try_from(o).ok()?, false), vec![])),
            Event::Start(Tag::Item) => st.push((Head::ListItem, vec![])),
            Event::Start(Tag::Emphasis) => marks = madd(&marks, &M::Em),
            Event::Start(Tag::Strong) => marks = madd(&marks, &M::Strong),
            Event::Start(Tag::Link(_, h, t)) => marks = madd(&marks, &lnk(&h, &t)),
            Event::Start(Tag::Image(_, s, t)) => st.push((Head::Image(s.to_string(), String::new(), t.to_string()), vec![])),
            Event::End(Tag::Emphasis) => marks = mrem(&marks, &M::Em),
            Event::End(Tag::Strong) => marks = mrem(&marks, &M::Strong),
            Event::End(Tag::Link(_, h, t)) => marks = mrem(&marks, &lnk(&h, &t)),
            Event::End(tag) => {
                let (h, mut k) = st.pop()?;
                done = Some(match (tag, h) {
                    (Tag::Paragraph, Head::Paragraph) => p(k),
                    (Tag::Heading(_), h @ Head::Heading(_)) => Tr::Node(h, k),
                    (Tag::BlockQuote, h @ Head::Blockquote) => Tr::Node(h, filled(k)),
                    (Tag::List(_), h @ Head::BulletList(_)) | (Tag::List(_), h @ Head::OrderedList(..)) => Tr::Node(h, k),
                    (Tag::CodeBlock(_), h @ Head::CodeBlock(_)) => {
                        // the line end of the last line is not part of the text
                        if let Some(Tr::Text(s, _)) = k.last_mut() {
                            if s.ends_with('\n') {
                                s.pop();
                            }
                            if s.is_empty() {
                                k.pop();
                            }
                        }
                        Tr::Node(h, k)
                    }
                    (Tag::Item, h @ Head::ListItem) => {
                        let mut b: Vec<Tr> = vec![];
                        let mut open = false;
                        for x in k {
                            if is_inline(tyt(&x)) {
                                if !open {
                                    b.push(p(vec![]));
                                }
                                open = true;
                                if let Some(Tr::Node(_, v)) = b.last_mut() {
                                    v.push(x);
                                }
                            } else {
                                open = false;
                                b.push(x);
                            }
                        }
                        if !b.first().map_or(false, is_p) {
                            b.insert(0, p(vec![]));
                        }
                        Tr::Node(h, b)
                    }
                    (Tag::Image(..), Head::Image(s, _, t)) => {
                        let mut alt = String::new();
                        for x in &k {
                            match x {
                                Tr::Text(s, _) => alt.push_str(s),
                                _ => return None,
                            }
                        }
                        Tr::Node(Head::Image(s, alt, t), vec![])
                    }
                    _ => return None,
                });
            }
            Event::Text(s) => join(&mut st.last_mut()?.1, &s, &marks),
            Event::Code(s) => join(&mut st.last_mut()?.1, &s, &madd(&marks, &M::Code)),
            Event::HardBreak => done = Some(Tr::Node(Head::HardBreak, vec![])),
            Event::Rule => done = Some(Tr::Node(Head::HorizontalRule, vec![])),
            _ => return None,
        }
        if let Some(t) = done {
            if !tvalid(&t) {
                return None;
            }
            st.last_mut()?.1.push(t);
        }
    }
    let (h, k) = st.pop()?;
    if h != Head::Doc {
        return None;
    }
    let t = Tr::Node(Head::Doc, filled(k));
    if tvalid(&t) {
        Some(t)
    } else {
        None
    }
}

fn mtag(m: &M) -> Tag<'static> {
    match m {
        M::Em => Tag::Emphasis,
        M::Strong => Tag::Strong,
        M::Code => unreachable!(),
        M::Link { attrs } => Tag::Link(LinkType::Inline, attrs.href.clone().into(), attrs.title.clone().into()),
    }
}
fn close(open: &mut Vec<M>, n: usize, out: &mut Vec<Event<'static>>) {
    while open.len() > n {
        out.push(Event::End(mtag(&open.pop().unwrap())));
    }
}
/// the events that describe a document; `open`: the marks that are open, outermost first
fn events_into(t: &Tr, open: &mut Vec<M>, out: &mut Vec<Event<'static>>) {
    let has = |v: &[M], m: &M| v.iter().any(|x| mkey(x) == mkey(m));
    match t {
        Tr::Text(s, m) => {
            let keep = open.iter().take_while(|x| has(m, x)).count();
            close(open, keep, out);
            for x in m {
                if *x != M::Code && !has(open, x) {
                    open.push(x.clone());
                    out.push(Event::Start(mtag(x)));
                }
            }
            let s: CowStr<'static> = s.clone().into();
            out.push(if has(m, &M::Code) { Event::Code(s) } else { Event::Text(s) });
        }
        Tr::Node(Head::HardBreak, _) => out.push(Event::HardBreak),
        Tr::Node(Head::HorizontalRule, _) => out.push(Event::Rule),
        Tr::Node(Head::Doc, k) => k.iter().for_each(|x| events_into(x, open, out)),
        Tr::Node(h, k) => {
            close(open, 0, out);
            let tag = match h {
                Head::Heading(l) => Tag::Heading(*l as u32),
                Head::CodeBlock(p) => Tag::CodeBlock(CodeBlockKind::Fenced(p.clone().into())),
                Head::Blockquote => Tag::BlockQuote,
                Head::Paragraph => Tag::Paragraph,
                Head::BulletList(_) => Tag::List(None),
                Head::OrderedList(o, _) => Tag::List(Some(*o as u64)),
                Head::ListItem => Tag::Item,
                Head::Image(s, _, t) => Tag::Image(LinkType::Inline, s.clone().into(), t.clone().into()),
                _ => unreachable!(),
            };
            out.push(Event::Start(tag.clone()));
            if let Head::Image(_, alt, _) = h {
                if !alt.is_empty() {
                    out.push(Event::Text(alt.clone().into()));
                }
            }
            k.iter().for_each(|x| events_into(x, open, out));
            close(open, 0, out);
            if let Head::CodeBlock(_) = h {
                out.push(Event::Text("\n".into()));
            }
            out.push(Event::End(tag));
        }
    }
}
pub fn events(t: &Tr) -> Vec<Event<'static>> {
    let mut out = vec![];
    events_into(t, &mut vec![], &mut out);
    out
}
/// up to how texts are divided and links are written
fn plain<'a>(es: impl Iterator<Item = Event<'a>>) -> Vec<Event<'static>> {
    let mut v: Vec<Event<'static>> = vec![];
    let tag = |t: Tag| -> Option<Tag<'static>> {
        Some(match t {
            Tag::Paragraph => Tag::Paragraph,
            Tag::Heading(l) => Tag::Heading(l),
            Tag::BlockQuote => Tag::BlockQuote,
            Tag::CodeBlock(k) => Tag::CodeBlock(CodeBlockKind::Fenced(code_params(&k).into())),
            Tag::List(o) => Tag::List(o),
            Tag::Item => Tag::Item,
            Tag::Emphasis => Tag::Emphasis,
            Tag::Strong => Tag::Strong,
            Tag::Link(_, h, t) => Tag::Link(LinkType::Inline, h.to_string().into(), t.to_string().into()),
            Tag::Image(_, h, t) => Tag::Image(LinkType::Inline, h.to_string().into(), t.to_string().into()),
            _ => return None,
        })
    };
    for e in es {
        match e {
            Event::Text(s) => {
                if let Some(Event::Text(t)) = v.last_mut() {
                    *t = format!("{}{}", t, s).into();
                } else if !s.is_empty() {
                    v.push(Event::Text(s.to_string().into()));
                }
            }
            Event::Start(t) => v.push(tag(t).map_or(Event::SoftBreak, Event::Start)),
            Event::End(t) => v.push(tag(t).map_or(Event::SoftBreak, Event::End)),
            Event::Code(s) => v.push(Event::Code(s.to_string().into())),
            Event::HardBreak => v.push(Event::HardBreak),
            Event::Rule => v.push(Event::Rule),
            _ => v.push(Event::SoftBreak),
        }
    }
    v
}
fn write(es: &[Event<'static>]) -> Option<String> {
    catch_unwind(AssertUnwindSafe(|| {
        let mut s = String::new();
        pulldown_cmark_to_cmark::cmark(es.iter(), &mut s, None).ok().map(|_| s)
    }))
    .ok()
    .flatten()
}
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
/// the events of a text, if the external parser does not panic
fn parsed(t: &str) -> Option<Vec<Event<'_>>> {
    catch_unwind(AssertUnwindSafe(|| Parser::new(t).collect())).ok()
}
fn read(t: &str) -> Result<bool, String> {
    let exp = match parsed(t) {
        Some(v) => build(v.into_iter()),
        None => return Ok(false),
    };
    match (from_markdown(t), exp) {
        (Ok(d), Some(e)) => {
            ensure!(tree(&d) == e, "the text {:?} is imported as {:?}, expected {:?}", t, tree(&d), e);
            ensure!(valid(&d) && well_formed(&d) && crate::props::norm(kids(&d)), "the text {:?} is imported as the invalid document {:?}", t, tree(&d));
            sizes(&d)?;
            Ok(true)
        }
        (Err(_), None) => Ok(true),
        (Ok(d), None) => Err(format!("the text {:?} is imported as {:?}, expected an error", t, tree(&d))),
        (Err(e), Some(x)) => Err(format!("importing the text {:?} fails with {:?}, expected {:?}", t, e, x)),
    }
}
pub fn c15(c: &Case) -> Result<bool, String> {
    if c.kind == "text" {
        let t: String = c.kids.iter().map(|n| if let N::Text(t) = n { t.text.as_str() } else { "" }).collect();
        return read(&t);
    }
    let d = &c.doc;
    if !matches!(d, N::Doc(_)) || !valid(d) || !crate::props::norm(kids(d)) {
        return Ok(false);
    }
    let t = tree(d);
    let es = events(&t);
    match build(es.iter().cloned()) {
        Some(b) if b == loose(&t) => {}
        b => panic!("the specification is wrong: {:?} gives {:?}", es, b),
    }
    let exp = match write(&es) {
        Some(s) => s,
        None => return Ok(false),
    };
    let got = match to_markdown(d) {
        Ok(s) => s,
        Err(e) => return Err(format!("the export fails with {:?}, expected {:?}", e, exp)),
    };
    ensure!(got == exp, "the document is exported as {:?}, expected {:?}", got, exp);
    if !read(&got)? {
        return Ok(true);
    }
    // the external writer and parser are not inverse on all events
    if plain(parsed(&got).unwrap_or_default().into_iter()) == plain(es.into_iter()) {
        match from_markdown(&got) {
            Ok(n) => ensure!(tree(&n) == loose(&t), "the document is exported as {:?} and imported as {:?}", got, tree(&n)),
            Err(e) => return Err(format!("the document is exported as {:?}, whose import fails with {:?}", got, e)),
        }
    }
    Ok(true)
}

const PIECES: &[&str] = &[
    "a", "b", " ", "\n", "\n\n", "*", "**", "_", "`", "``", "# ", "## ", "> ", "- ", "1. ", "2. ", "  ", "    ", "```\n", "```rs\n", "---\n", "  \n", "\\\n",
    "[", "](u)", "](v \"t\")", "![", "](s)", "![a](s \"t\")", "[x](u)", "*e*", "**s**", "`c`", "***", "<b>", "é", "😀", "a\n- b\n\n  c\n", "- \n", "> - x\n",
];
pub fn gen_text(r: &mut Rng) -> Vec<N> {
    let n = r.range(1, 12);
    let s: String = (0..n).map(|_| *r.pick(PIECES)).collect();
    vec![text(&s, &[])]
}
/// every text of up to two of these pieces, and these
pub fn small_texts() -> Vec<String> {
    let mut v: Vec<String> = vec!["".into()];
    for a in PIECES {
        v.push(a.to_string());
        for b in PIECES {
            v.push(format!("{}{}", a, b));
            for c in ["a", "\n", "*", "`c`", "- b"] {
                v.push(format!("{}{}{}", a, b, c));
                v.push(format!("{}a{}{}", a, b, c));
            }
        }
    }
    v
}
/// a valid document with everything in it
pub fn gen_md(r: &mut Rng) -> N {
    fn word(r: &mut Rng) -> String {
        let n = r.range(1, 5);
        let s: String = (0..n).map(|_| *r.pick(&['a', 'b', 'c', 'é', '😀', 'x', 'y', '1'])).collect();
        if r.one_in(8) {
            format!("{}{}{}", s, r.pick(&[" ", "*", "\n", "_", "`", "[", "<", "\\", "#", "- "]), s)
        } else {
            s
        }
    }
    fn inline(r: &mut Rng, y: T) -> Vec<N> {
        let n = r.below(5);
        (0..n)
            .map(|_| match (y, r.below(8)) {
                (T::Paragraph, 0) => mk(&Head::HardBreak, vec![]),
                (T::Paragraph, 1) | (T::Heading, 1) => mk(&Head::Image("s".into(), if r.one_in(3) { String::new() } else { word(r) }, r.pick(&["", "t"]).to_string()), vec![]),
                _ => {
                    let w = word(r);
                    let mut ms = vec![];
                    if y != T::CodeBlock && !r.one_in(3) {
                        for m in [M::Strong, M::Em, M::Code, lnk("u", ""), lnk("v", "t")] {
                            if r.one_in(3) {
                                ms = madd(&ms, &m);
                            }
                        }
                    }
                    text(&w, &ms)
                }
            })
            .collect()
    }
    fn block(r: &mut Rng, depth: usize) -> N {
        match if depth == 0 { r.below(6) } else { r.below(10) } {
            0..=2 => mk(&Head::Paragraph, inline(r, T::Paragraph)),
            3 => mk(&Head::Heading(r.range(1, 7) as u8), inline(r, T::Heading)),
            4 => mk(&Head::CodeBlock(r.pick(&["", "rs"]).to_string()), inline(r, T::CodeBlock)),
            5 => mk(&Head::HorizontalRule, vec![]),
            6 => mk(&Head::Blockquote, blocks(r, depth - 1)),
            _ => {
                let n = r.range(1, 4);
                let c = (0..n)
                    .map(|_| {
                        let mut v = vec![mk(&Head::Paragraph, inline(r, T::Paragraph))];
                        if r.one_in(2) {
                            v.extend(blocks(r, depth - 1));
                        }
                        mk(&Head::ListItem, v)
                    })
                    .collect();
                mk(&if r.one_in(2) { Head::BulletList(r.one_in(2)) } else { Head::OrderedList(*r.pick(&[0, 1, 2, 7, 256, 300, 999_999_999]), r.one_in(2)) }, c)
            }
        }
    }
    fn blocks(r: &mut Rng, depth: usize) -> Vec<N> {
        let n = r.range(1, 4);
        (0..n).map(|_| block(r, depth)).collect()
    }
    let d = r.below(4);
    let n = mk(&Head::Doc, blocks(r, d));
    crate::props::join_texts(&[n]).remove(0)
}
