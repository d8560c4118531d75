//! One check per property, on one case.
use std::ops::Bound;
use crate::gen::*;
use crate::spec::*;
use prosemirror::markdown::*;
use prosemirror::model::*;
use prosemirror::transform::*;
use std::borrow::Cow;
use std::convert::TryFrom;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Case {
    pub kind: String,
    #[serde(with = "own::node")]
    pub doc: N,
    pub from: usize,
    pub to: usize,
    #[serde(default)]
    pub sl: Sl,
    #[serde(default)]
    pub nums: Vec<usize>,
    #[serde(default, with = "own::marks")]
    pub marks: Vec<M>,
    #[serde(default, with = "own::mark")]
    pub mark: Option<M>,
    #[serde(default, with = "own::nodes")]
    pub kids: Vec<N>,
    #[serde(default)]
    pub flag: bool,
}
impl Case {
    pub fn new(kind: &str, doc: &N, from: usize, to: usize) -> Case {
        Case { kind: kind.into(), doc: doc.clone(), from, to, sl: Sl::default(), nums: vec![], marks: vec![], mark: None, kids: vec![], flag: false }
    }
    pub fn weight(&self) -> usize {
        toks(&self.doc).len() + flat(&self.sl.content).len() + flat(&self.kids).len() + self.marks.len() + self.nums.len()
    }
    pub fn describe(&self) -> String {
        format!(
            "{} on {} at {}..{} slice ({} open {}/{}) nums {:?} marks {:?} mark {:?} kids {} flag {}",
            self.kind,
            show(std::slice::from_ref(&self.doc)),
            self.from,
            self.to,
            show(&self.sl.content),
            self.sl.os,
            self.sl.oe,
            self.nums,
            self.marks,
            self.mark,
            show(&self.kids),
            self.flag
        )
    }
}
pub fn show(s: &[N]) -> String {
    let v: Vec<String> = s
        .iter()
        .map(|n| match n {
            N::Text(t) => format!("{:?}{}", t.text.as_str(), if marks_vec(&t.marks).is_empty() { String::new() } else { format!("{:?}", marks_vec(&t.marks)) }),
            _ => {
                let h = format!("{:?}", head(n).unwrap());
                if frag(n).is_some() {
                    format!("{}({})", h, show(kids(n)))
                } else {
                    h
                }
            }
        })
        .collect();
    v.join(", ")
}
fn tshow(t: &[Tok]) -> String {
    t.iter()
        .map(|x| match x {
            Tok::Open(h) => format!("<{:?}", h),
            Tok::Close => ">".into(),
            Tok::Leaf(h) => format!("[{:?}]", h),
            Tok::Ch(u, m) => {
                let c = char::from_u32(*u as u32).map(|c| c.to_string()).unwrap_or(format!("\\u{:x}", u));
                if m.is_empty() {
                    c
                } else {
                    format!("{}{:?}", c, m)
                }
            }
        })
        .collect::<Vec<_>>()
        .join(" ")
}
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
fn same(what: &str, got: &[Tok], exp: &[Tok]) -> Result<(), String> {
    ensure!(got == exp, "{}: got `{}`, expected `{}`", what, tshow(got), tshow(exp));
    Ok(())
}
fn input_ok(c: &Case) -> bool {
    well_formed(&c.doc) && c.sl.content.iter().all(well_formed) && c.kids.iter().all(well_formed)
}
fn splice(t: &[Tok], from: usize, to: usize, ins: &[Tok]) -> Vec<Tok> {
    let mut r = t[..from].to_vec();
    r.extend_from_slice(ins);
    r.extend_from_slice(&t[to..]);
    r
}
fn span(c: &Case) -> Span {
    Span { from: c.from, to: c.to }
}
fn mark_step(c: &Case) -> Step<MD> {
    let mark = c.mark.clone().unwrap();
    if c.flag {
        Step::RemoveMark(RemoveMarkStep { span: span(c), mark })
    } else {
        Step::AddMark(AddMarkStep { span: span(c), mark })
    }
}
fn around(c: &Case) -> Step<MD> {
    Step::ReplaceAround(ReplaceAroundStep {
        span: span(c),
        gap_from: c.nums[0],
        gap_to: c.nums[1],
        slice: c.sl.get(),
        insert: c.nums[2],
        structure: c.flag,
    })
}
fn step(c: &Case) -> Step<MD> {
    match c.kind.as_str() {
        "mark" => mark_step(c),
        "around" => around(c),
        _ => Step::Replace(ReplaceStep { span: span(c), slice: c.sl.get(), structure: c.flag }),
    }
}
/// only closing, then only opening
fn brackets(t: &[Tok], from: usize, to: usize) -> bool {
    to <= t.len() && {
        let v = &t[from..to];
        let k = v.iter().take_while(|x| **x == Tok::Close).count();
        v[k..].iter().all(|x| matches!(x, Tok::Open(_)))
    }
}
/// the slice of a replace-around step with the gap in it
fn filled(c: &Case, t: &[Tok]) -> Option<Sl> {
    let (gf, gt, at) = (c.nums[0], c.nums[1], c.nums[2].checked_add(c.sl.os)?);
    let gap = if gf == gt { vec![] } else { t.get(gf..gt)?.to_vec() };
    let full = flat(&c.sl.content);
    if !ok_pos(&full, at) {
        return None;
    }
    let new = splice(&full, at, at, &gap);
    Some(Sl { content: unflat(&new)?, os: c.sl.os, oe: c.sl.oe })
}
fn flat_gap(t: &[Tok], gf: usize, gt: usize) -> bool {
    gf == gt || { gf < gt && ok_pos(t, gf) && ok_pos(t, gt) && depth_at(t, gf) == depth_at(t, gt) && min_depth(t, gf, gt) == depth_at(t, gf) }
}
/// the slice connects to the nodes around the range, and the result follows the schema
fn fits(doc: &N, from: usize, to: usize, sl: &Sl) -> bool {
    let t = flat(kids(doc));
    if from > to || !ok_pos(&t, from) || !ok_pos(&t, to) || !sl.ok() {
        return false;
    }
    let (a, b) = (stack(&t, from), stack(&t, to));
    if sl.os > a.len() || sl.oe > b.len() || a.len() - sl.os != b.len() - sl.oe {
        return false;
    }
    let extra = a.len() - sl.os;
    if (0..extra).any(|k| !compat(hty(&a[k]), hty(&b[k]))) {
        return false;
    }
    let (l, r) = (spine(&sl.content, sl.os, false).unwrap(), spine(&sl.content, sl.oe, true).unwrap());
    if (0..sl.os).any(|k| !compat(hty(&a[extra + k]), l[k])) || (0..sl.oe).any(|k| !compat(hty(&b[extra + k]), r[k])) {
        return false;
    }
    match unflat(&splice(&t, from, to, &sl.inserts())) {
        Some(ks) => valid(&mk(&head(doc).unwrap(), ks)),
        None => false,
    }
}

pub fn check(p: &str, c: &Case) -> Result<bool, String> {
    if p == "C14" {
        return c14(c);
    }
    if !input_ok(c) {
        return Ok(false);
    }
    match p {
        "C01" => c01(c),
        "C02" => c02(c),
        "C03" => c03(c),
        "C04" => c04(c),
        "C05" => c05(c),
        "C06" | "C07" => c067(c),
        "C08" => c08(c),
        "C09" => c09(c),
        "C10" => c10(c),
        "C11" => c11(c),
        "C12" => c12(c),
        "C13" => c13(c),
        "C15" => crate::md::c15(c),
        "C16" => c16(c),
        "C17" => c17(c),
        _ => panic!("no such property"),
    }
}

fn c01(c: &Case) -> Result<bool, String> {
    if frag(&c.doc).is_none() {
        return Ok(false);
    }
    let t = flat(kids(&c.doc));
    let good = c.from <= c.to && ok_pos(&t, c.from) && ok_pos(&t, c.to) && c.sl.ok();
    match c.doc.replace(c.from..c.to, &c.sl.get()) {
        Ok(n) => {
            ensure!(good, "the range or the open sides are invalid, and the replacement succeeds with {}", show(&[n]));
            ensure!(head(&n) == head(&c.doc), "the root changes from {:?} to {:?}", head(&c.doc), head(&n));
            same("result", &flat(kids(&n)), &splice(&t, c.from, c.to, &c.sl.inserts()))?;
            Ok(true)
        }
        Err(_) => Ok(!good),
    }
}
/// the nodes that overlap from..to, with their positions; the callback answers no to the ones whose
/// number is in `no`
fn overlapping(s: &[N], mut pos: usize, from: usize, to: usize, no: &[usize], k: &mut usize, out: &mut Vec<(String, usize)>) {
    for n in s {
        let end = pos + toks(n).len();
        if end > from && pos < to {
            out.push((show(std::slice::from_ref(n)), pos));
            let go = !no.contains(k);
            *k += 1;
            if go {
                overlapping(kids(n), pos + 1, from, to, no, k, out);
            }
        }
        pos = end;
    }
}
fn chars_of(t: &[Tok]) -> String {
    let u: Vec<u16> = t.iter().filter_map(|x| if let Tok::Ch(u, _) = x { Some(*u) } else { None }).collect();
    String::from_utf16_lossy(&u)
}
fn c13(c: &Case) -> Result<bool, String> {
    let t = toks(&c.doc);
    ensure!(c.doc.text_content() == chars_of(&t), "text_content: got {:?}, expected {:?}", c.doc.text_content(), chars_of(&t));
    let f = match frag(&c.doc) {
        Some(f) => f,
        None => return Ok(true),
    };
    let t = flat(kids(&c.doc));
    if c.from > c.to || !bnd(&t, c.from) || !bnd(&t, c.to) {
        return Ok(false);
    }
    // the nodes; those whose number is in `nums` are not entered
    let base = c.sl.os;
    let (mut exp, mut k) = (vec![], 0);
    overlapping(kids(&c.doc), 0, c.from, c.to, &c.nums, &mut k, &mut exp);
    for e in &mut exp {
        e.1 += base;
    }
    let (mut got, mut k) = (vec![], 0);
    f.nodes_between(
        c.from,
        c.to,
        &mut |n: &N, p: usize| {
            got.push((show(std::slice::from_ref(n)), p));
            k += 1;
            !c.nums.contains(&(k - 1))
        },
        base,
    );
    ensure!(got == exp, "nodes_between: visits {:?}, expected {:?}", got, exp);
    // the text
    let (lo, hi) = (c.from.min(t.len()), c.to.min(t.len()));
    let inside = c.from < t.len() && depth_at(&t, c.from) > 0;
    for sep in [None, Some(""), Some("|"), Some("\n\n")] {
        for leaf in [None, Some(""), Some("*")] {
            for separated in [false, true] {
                let mut got = String::from("pre");
                f.text_between(&mut got, separated, c.from, c.to, sep, leaf);
                let mut st = separated;
                let mut exp = String::from("pre");
                // the blocks around the start have begun before
                if inside && !st {
                    exp.push_str(sep.unwrap_or(""));
                    st = true;
                }
                let mut run = vec![];
                for x in &t[lo..hi] {
                    if let Tok::Ch(u, _) = x {
                        run.push(*u);
                        st = sep.is_none();
                        continue;
                    }
                    exp.push_str(&String::from_utf16_lossy(&run));
                    run.clear();
                    match x {
                        Tok::Open(h) => {
                            if !st && !is_inline(hty(h)) {
                                exp.push_str(sep.unwrap_or(""));
                                st = true;
                            }
                        }
                        Tok::Leaf(_) => {
                            exp.push_str(leaf.unwrap_or(""));
                            st = sep.is_none();
                        }
                        _ => {}
                    }
                }
                exp.push_str(&String::from_utf16_lossy(&run));
                ensure!(got == exp, "text_between with the separator {:?}, the leaf text {:?} and separated {}: got {:?}, expected {:?}", sep, leaf, separated, got, exp);
            }
        }
    }
    Ok(true)
}
/// everything there is in a value, and whether its sizes and marks are right
trait Json: serde::Serialize + serde::de::DeserializeOwned + PartialEq {
    fn all(&self) -> String;
    fn exact(&self) -> Result<(), String>;
}
fn sets(s: &[N]) -> Result<(), String> {
    for n in s {
        if let N::Text(t) = n {
            let m = marks_vec(&t.marks);
            ensure!(m.windows(2).all(|w| rank(&w[0]) < rank(&w[1])), "the marks {:?} are not a sorted set", m);
        }
        sets(kids(n))?;
    }
    Ok(())
}
impl Json for N {
    fn all(&self) -> String {
        show(std::slice::from_ref(self))
    }
    fn exact(&self) -> Result<(), String> {
        sizes(self)?;
        sets(std::slice::from_ref(self))
    }
}
impl Json for Slice<MD> {
    fn all(&self) -> String {
        format!("slice ({} open {}/{})", show(self.content.children()), self.open_start, self.open_end)
    }
    fn exact(&self) -> Result<(), String> {
        sizes_f(&self.content)?;
        sets(self.content.children())
    }
}
impl Json for Step<MD> {
    fn all(&self) -> String {
        match self {
            Step::Replace(s) => format!("replace {}..{} {} {}", s.span.from, s.span.to, s.slice.all(), s.structure),
            Step::ReplaceAround(s) => {
                format!("replace {}..{} around {}..{} {} {} {}", s.span.from, s.span.to, s.gap_from, s.gap_to, s.slice.all(), s.insert, s.structure)
            }
            Step::AddMark(s) => format!("add {:?} to {}..{}", mkey(&s.mark), s.span.from, s.span.to),
            Step::RemoveMark(s) => format!("remove {:?} from {}..{}", mkey(&s.mark), s.span.from, s.span.to),
        }
    }
    fn exact(&self) -> Result<(), String> {
        match self {
            Step::Replace(s) => s.slice.exact(),
            Step::ReplaceAround(s) => s.slice.exact(),
            _ => Ok(()),
        }
    }
}
fn trip<X: Json>(x: &X) -> Result<bool, String> {
    let e = |e: serde_json::Error| format!("{} is not read: {}", x.all(), e);
    let s = serde_json::to_string(x).map_err(|e| format!("not written: {}", e))?;
    let v = serde_json::to_value(x).map_err(|e| format!("not written: {}", e))?;
    for (how, y) in [
        ("from_str", serde_json::from_str::<X>(&s).map_err(e)?),
        ("from_slice, pretty", serde_json::from_slice::<X>(serde_json::to_string_pretty(x).map_err(e)?.as_bytes()).map_err(e)?),
        ("from_reader", serde_json::from_reader::<_, X>(s.as_bytes()).map_err(e)?),
        ("from_value", serde_json::from_value::<X>(v).map_err(e)?),
    ] {
        ensure!(y.all() == x.all(), "{}: got {}, expected {}, written as {}", how, y.all(), x.all(), s);
        y.exact().map_err(|e| format!("{}: read from {}: {}", how, s, e))?;
        ensure!(*x == y, "{}: {} is read, and is not equal to itself", how, x.all());
    }
    Ok(true)
}
type Path = Vec<Result<String, usize>>;
fn places(v: &serde_json::Value, at: &mut Path, out: &mut Vec<Path>) {
    out.push(at.clone());
    match v {
        serde_json::Value::Object(m) => {
            for (k, x) in m {
                at.push(Ok(k.clone()));
                places(x, at, out);
                at.pop();
            }
        }
        serde_json::Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(Err(i));
                places(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn place<'a>(mut v: &'a mut serde_json::Value, p: &[Result<String, usize>]) -> &'a mut serde_json::Value {
    for k in p {
        v = match k {
            Ok(k) => &mut v[k.as_str()],
            Err(i) => &mut v[*i],
        };
    }
    v
}
/// what is written, with one change (`nums`: which place, which change)
fn mangled<X: Json>(x: &X, c: &Case) -> Result<bool, String> {
    use serde_json::{json, Value};
    let mut v = serde_json::to_value(x).map_err(|e| format!("not written: {}", e))?;
    let (mut ps, op) = (vec![], c.nums[1]);
    places(&v, &mut vec![], &mut ps);
    let p = &ps[c.nums[0] % ps.len()];
    let mut must_fail = false;
    let mut what = String::new();
    let key = match p.last() {
        Some(Ok(k)) => k.clone(),
        _ => String::new(),
    };
    let needed = ["type", "stepType", "text", "attrs", "level", "order", "tight", "params", "src", "href", "from", "to", "gapFrom", "gapTo", "insert", "mark"].contains(&key.as_str());
    let scalars = [json!(null), json!(7), json!(-1), json!(1.5), json!("zzz"), json!({}), json!([]), json!(true), json!(1e30), json!(u64::MAX), json!(256), json!("")];
    match op {
        0 => {
            // take it away
            if let Some((last, up)) = p.split_last() {
                match (place(&mut v, up), last) {
                    (Value::Object(m), Ok(k)) => {
                        m.remove(k);
                    }
                    (Value::Array(a), Err(i)) => {
                        a.remove(*i);
                    }
                    _ => {}
                }
                must_fail = needed || (c.kind == "slice" && p.len() == 1 && key == "content");
                what = format!("without {:?}", p);
            }
        }
        1..=12 => {
            let new = scalars[op - 1].clone();
            must_fail = match key.as_str() {
                "type" | "stepType" => !new.is_number(),
                "text" | "href" | "src" | "params" => !new.is_string(),
                "alt" | "title" => !new.is_string() && !new.is_null(),
                "content" | "marks" => !new.is_array(),
                "tight" | "structure" => !new.is_boolean(),
                "level" => new.as_u64().map_or(true, |x| x > 255),
                "order" | "from" | "to" | "gapFrom" | "gapTo" | "insert" | "openStart" | "openEnd" => !new.is_u64(),
                "attrs" | "slice" | "mark" => !new.is_object() && !new.is_array(),
                _ => p.is_empty() && !new.is_array(),
            };
            what = format!("with {} at {:?}", new, p);
            *place(&mut v, p) = new;
        }
        17 => {
            // two of each, which are different
            fn other(v: &mut Value) {
                match v {
                    Value::String(s) => s.push('x'),
                    Value::Array(a) => a.iter_mut().for_each(other),
                    Value::Object(m) => m.iter_mut().filter(|e| e.0 != "type").for_each(|e| other(e.1)),
                    _ => {}
                }
            }
            match place(&mut v, p) {
                Value::Array(a) => {
                    must_fail = key == "marks" && !a.is_empty();
                    let mut b = a.clone();
                    b.iter_mut().for_each(other);
                    a.extend(b);
                }
                _ => return Ok(false),
            }
            what = format!("with others at {:?}", p);
        }
        13 | 14 => {
            // double or turn a list
            match place(&mut v, p) {
                Value::Array(a) if op == 13 => {
                    must_fail = key == "marks" && !a.is_empty();
                    a.extend(a.clone());
                }
                Value::Array(a) => a.reverse(),
                Value::Object(m) if op == 14 => {
                    // another mark, with another name
                    let k: Vec<String> = m.keys().cloned().collect();
                    if let Some(k) = k.first() {
                        let x = m.remove(k).unwrap();
                        m.insert("zzz".into(), x);
                    }
                }
                _ => return Ok(false),
            }
            what = format!("with the change {} at {:?}", op, p);
        }
        15 => {
            // another type
            let names = ["doc", "heading", "code_block", "text", "blockquote", "paragraph", "bullet_list", "ordered_list", "list_item", "horizontal_rule", "hard_break", "image",
                "strong", "em", "code", "link", "replace", "replaceAround", "addMark", "removeMark", "Doc", "TEXT"];
            if key == "type" || key == "stepType" {
                let n = names[c.nums[2] % names.len()];
                *place(&mut v, p) = json!(n);
                what = format!("with {} at {:?}", n, p);
            }
        }
        _ => {
            // a part of the text
            let s = v.to_string();
            let mut k = c.nums[2] % s.len();
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            ensure!(serde_json::from_str::<X>(&s[..k]).is_err(), "{} is read", &s[..k]);
            return Ok(true);
        }
    }
    let s = v.to_string();
    let a = serde_json::from_str::<X>(&s);
    let b = serde_json::from_value::<X>(v);
    for r in [a, b] {
        if let Ok(y) = r {
            y.exact().map_err(|e| format!("read from {}: {}", s, e))?;
            ensure!(!must_fail, "{} ({}) is read as {}", s, what, y.all());
        }
    }
    Ok(true)
}
fn c14(c: &Case) -> Result<bool, String> {
    if !norm_sets(&c.doc) || !c.sl.content.iter().all(norm_sets) {
        return Ok(false);
    }
    let bad = c.nums.len() >= 6;
    // the numbers of the mutation come after those of the step
    let mut d = c.clone();
    if bad {
        d.nums = c.nums[3..].to_vec();
    }
    match (c.kind.as_str(), bad) {
        ("node", false) => trip(&c.doc),
        ("node", true) => mangled(&c.doc, &d),
        ("slice", false) => trip(&c.sl.get()),
        ("slice", true) => mangled(&c.sl.get(), &d),
        (_, false) => trip(&step(c)),
        (_, true) => mangled(&step(c), &d),
    }
}
fn norm_sets(n: &N) -> bool {
    sets(std::slice::from_ref(n)).is_ok()
}
fn c16(c: &Case) -> Result<bool, String> {
    if frag(&c.doc).is_none() || !fits(&c.doc, c.from, c.to, &c.sl) {
        return Ok(false);
    }
    match c.doc.replace(c.from..c.to, &c.sl.get()) {
        Ok(_) => Ok(true),
        Err(e) => Err(format!("the slice fits, and the replacement fails with {:?}", e)),
    }
}
/// the same range, written with other bounds
fn forms(from: usize, to: usize, len: usize) -> Vec<(Bound<usize>, Bound<usize>)> {
    let mut a = vec![Bound::Included(from)];
    if from > 0 {
        a.push(Bound::Excluded(from - 1));
    } else {
        a.push(Bound::Unbounded);
    }
    let mut b = vec![Bound::Excluded(to)];
    if to > 0 {
        b.push(Bound::Included(to - 1));
    }
    if to == len {
        b.push(Bound::Unbounded);
    }
    let mut r = vec![];
    for x in &a {
        for y in &b {
            r.push((*x, *y));
        }
    }
    r
}
fn c02(c: &Case) -> Result<bool, String> {
    match c.kind.as_str() {
        "cut" => {
            let f = match frag(&c.doc) {
                Some(f) => f,
                None => {
                    // the part of a text
                    let t = toks(&c.doc);
                    if !matches!(c.doc, N::Text(_)) || c.from >= c.to || !ok_pos(&t, c.from) || !ok_pos(&t, c.to) {
                        return Ok(false);
                    }
                    let n = c.doc.cut(c.from..c.to);
                    same("cut", &toks(&n), &t[c.from..c.to])?;
                    return Ok(true);
                }
            };
            let t = flat(f.children());
            if !ok_pos(&t, c.from) || !ok_pos(&t, c.to) || c.from > c.to {
                return Ok(false);
            }
            let exp = cutf(&t, c.from, c.to);
            same("cut", &flat(f.cut(c.from..c.to).children()), &exp)?;
            if c.to == t.len() {
                same("cut", &flat(f.cut(c.from..).children()), &exp)?;
            }
            if c.from == 0 {
                same("cut", &flat(f.cut(..c.to).children()), &exp)?;
            }
            let n = c.doc.cut(c.from..c.to);
            same("node cut", &flat(kids(&n)), &exp)?;
            for r in forms(c.from, c.to, t.len()) {
                ensure!(c.doc.cut(r) == n && f.cut(r) == f.cut(c.from..c.to), "the cut differs for the range {:?}", r);
            }
            ensure!(head(&n) == head(&c.doc), "the cut node changes to {:?}", head(&n));
            Ok(true)
        }
        _ => {
            if frag(&c.doc).is_none() {
                return Ok(false);
            }
            let t = flat(kids(&c.doc));
            let r = c.doc.slice(c.from..c.to, c.flag);
            if let Ok(a) = &r {
                for g in forms(c.from, c.to, t.len()) {
                    ensure!(c.doc.slice(g, c.flag).ok().as_ref() == Some(a), "the slice differs for the range {:?}", g);
                }
            }
            if c.from == c.to {
                let s = r.map_err(|e| format!("an empty range fails with {:?}", e))?;
                ensure!(s.content.children().is_empty() && s.open_start == 0 && s.open_end == 0, "an empty range gives {:?}", s);
                return Ok(false);
            }
            let good = c.from < c.to && ok_pos(&t, c.from) && ok_pos(&t, c.to);
            match r {
                Err(e) => {
                    ensure!(!good, "a valid range fails with {:?}", e);
                    Ok(true)
                }
                Ok(s) => {
                    ensure!(good, "an invalid range gives {:?}", s);
                    let d = if c.flag { 0 } else { min_depth(&t, c.from, c.to) };
                    let exp = cutf(&t, c.from, c.to);
                    same("slice", &flat(s.content.children()), &exp[d..exp.len() - d])?;
                    let (a, b) = (depth_at(&t, c.from) - d, depth_at(&t, c.to) - d);
                    ensure!(s.open_start == a && s.open_end == b, "open {}/{}, expected {}/{}", s.open_start, s.open_end, a, b);
                    Ok(true)
                }
            }
        }
    }
}
fn c03(c: &Case) -> Result<bool, String> {
    let t = flat(kids(&c.doc));
    match c.kind.as_str() {
        "cut" => {
            if c.from > c.to || !ok_pos(&t, c.from) || !ok_pos(&t, c.to) || frag(&c.doc).is_none() {
                return Ok(false);
            }
            sizes_f(&frag(&c.doc).unwrap().cut(c.from..c.to))?;
            sizes(&c.doc.cut(c.from..c.to))?;
            if let Ok(s) = c.doc.slice(c.from..c.to, c.flag) {
                sizes_f(&s.content)?;
            }
            Ok(true)
        }
        "append" => {
            sizes_f(&Fragment::from(c.sl.content.clone()).append(Fragment::from(c.kids.clone())))?;
            sizes_f(&Fragment::from(c.kids.clone()))?;
            if let (Some(N::Text(a)), Some(N::Text(b))) = (c.sl.content.first(), c.kids.first()) {
                let j = a.text.join(&b.text);
                ensure!(j.as_str() == format!("{}{}", a.text.as_str(), b.text.as_str()), "joined text {:?}", j);
                ensure!(j.len_utf16() == j.as_str().encode_utf16().count(), "length {} of the joined text {:?}", j.len_utf16(), j);
            }
            Ok(true)
        }
        "replace_child" => {
            let n = c.kids.len();
            if n == 0 || c.nums[0] >= n {
                return Ok(false);
            }
            let f = Fragment::from(c.kids.clone());
            let r = f.replace_child(c.nums[0], c.doc.clone());
            sizes_f(&r)?;
            let mut e = c.kids.clone();
            e[c.nums[0]] = c.doc.clone();
            same("replace_child", &flat(r.children()), &flat(&e))?;
            ensure!(r.children().len() == n, "replace_child changes the number of children");
            Ok(true)
        }
        "replace" => match c.doc.replace(c.from..c.to, &c.sl.get()) {
            Ok(n) => {
                sizes(&n)?;
                Ok(true)
            }
            Err(_) => Ok(false),
        },
        _ => match step(c).apply(&c.doc) {
            Ok(n) => {
                sizes(&n)?;
                Ok(true)
            }
            Err(_) => Ok(false),
        },
    }
}
fn c04(c: &Case) -> Result<bool, String> {
    let t = flat(kids(&c.doc));
    let good = ok_pos(&t, c.from);
    let rp = match c.doc.resolve(c.from) {
        Err(e) => {
            ensure!(!good, "a valid position fails with {:?}", e);
            return Ok(true);
        }
        Ok(rp) => rp,
    };
    ensure!(good, "an invalid position is resolved to {:?}", rp);
    // walk down
    let mut node = &c.doc;
    let mut start = 0;
    let mut d: usize = 0;
    let mut levels = vec![];
    let toff;
    loop {
        let mut i = 0;
        let mut o = start;
        let ks = kids(node);
        while i < ks.len() && o + toks(&ks[i]).len() <= c.from {
            o += toks(&ks[i]).len();
            i += 1;
        }
        levels.push((node, start, i));
        if i < ks.len() && o < c.from && frag(&ks[i]).is_some() {
            node = &ks[i];
            start = o + 1;
            d += 1;
        } else {
            toff = c.from - o;
            break;
        }
    }
    for (k, (n, s, i)) in levels.iter().enumerate() {
        let e = s + flat(kids(n)).len();
        ensure!(rp.node(k) == *n, "node({}) is {}, expected {}", k, show(std::slice::from_ref(rp.node(k))), show(std::slice::from_ref(n)));
        ensure!(std::ptr::eq(rp.node(k), *n), "node({}) is not the node of the document", k);
        ensure!(rp.start(k) == *s, "start({}) is {}, expected {}", k, rp.start(k), s);
        ensure!(rp.end(k) == e, "end({}) is {}, expected {}", k, rp.end(k), e);
        ensure!(rp.index(k) == *i, "index({}) is {}, expected {}", k, rp.index(k), i);
        let ia = if k == d && toff == 0 { *i } else { i + 1 };
        ensure!(rp.index_after(k) == ia, "index_after({}) is {}, expected {}", k, rp.index_after(k), ia);
        let (b, a) = if k == 0 { (None, None) } else { (Some(s - 1), Some(e + 1)) };
        ensure!(rp.before(k) == b, "before({}) is {:?}, expected {:?}", k, rp.before(k), b);
        ensure!(rp.after(k) == a, "after({}) is {:?}, expected {:?}", k, rp.after(k), a);
    }
    ensure!(rp.before(d + 1) == Some(c.from) && rp.after(d + 1) == Some(c.from), "before/after one below the depth");
    ensure!(std::ptr::eq(rp.parent(), node), "parent is {}", show(std::slice::from_ref(rp.parent())));
    ensure!(std::ptr::eq(rp.doc(), &c.doc), "doc is {}", show(std::slice::from_ref(rp.doc())));
    ensure!(rp.text_offset() == toff, "text_offset {}, expected {}", rp.text_offset(), toff);
    let i = levels[d].2;
    let ks = kids(node);
    let eb = if toff > 0 { Some(toks(&ks[i])[..toff].to_vec()) } else if i > 0 { Some(toks(&ks[i - 1])) } else { None };
    let ea = if i < ks.len() { Some(toks(&ks[i])[toff..].to_vec()) } else { None };
    let nb = rp.node_before();
    let na = rp.node_after();
    ensure!(nb.as_ref().map(|n| toks(n)) == eb, "node_before is {:?}", nb);
    ensure!(na.as_ref().map(|n| toks(n)) == ea, "node_after is {:?}", na);
    for q in 0..=t.len() + 1 {
        let mut e = 0;
        for (k, (n, s, _)) in levels.iter().enumerate() {
            if k > 0 && *s <= q && q <= s + flat(kids(n)).len() {
                e = k;
            }
        }
        ensure!(rp.shared_depth(q) == e, "shared_depth({}) is {}, expected {}", q, rp.shared_depth(q), e);
    }
    Ok(true)
}
fn c05(c: &Case) -> Result<bool, String> {
    if !valid(&c.doc) {
        return Ok(false);
    }
    if c.kind != "mark" && !(c.sl.ok() && valid_open(&c.sl.content, c.sl.os, c.sl.oe)) {
        return Ok(false);
    }
    match step(c).apply(&c.doc) {
        Ok(n) => {
            ensure!(valid(&n), "the result {} does not follow the schema", show(&[n]));
            Ok(true)
        }
        Err(_) => Ok(false),
    }
}
fn c067(c: &Case) -> Result<bool, String> {
    if frag(&c.doc).is_none() {
        return Ok(false);
    }
    let t = flat(kids(&c.doc));
    let good = c.from <= c.to && ok_pos(&t, c.from) && ok_pos(&t, c.to);
    let m = c.mark.as_ref().unwrap();
    match mark_step(c).apply(&c.doc) {
        Err(e) => {
            ensure!(!(good && valid(&c.doc)), "the step fails with {:?}", e);
            Ok(true)
        }
        Ok(n) => {
            ensure!(good, "the range is invalid, and the step succeeds");
            let mut exp = t.clone();
            for p in c.from..c.to {
                let par = stack(&t, p).last().map(hty).unwrap_or(ty(&c.doc));
                if let Tok::Ch(_, ms) = &mut exp[p] {
                    if c.flag {
                        *ms = mrem(ms, m);
                    } else if allows(par) {
                        *ms = madd(ms, m);
                    }
                }
            }
            ensure!(head(&n) == head(&c.doc), "the root changes to {:?}", head(&n));
            same("result", &flat(kids(&n)), &exp)?;
            Ok(true)
        }
    }
}
fn c08(c: &Case) -> Result<bool, String> {
    let mut ms = c.marks.clone();
    // any list of marks of different types is a set
    let dup = (0..ms.len()).any(|i| (0..i).any(|j| rank(&ms[i]) == rank(&ms[j])));
    let set = match MarkSet::<MD>::try_from(ms.clone()) {
        Ok(s) => {
            ensure!(!dup, "two marks of a type make a set");
            s
        }
        Err(_) => {
            ensure!(dup, "marks of different types do not make a set");
            return Ok(true);
        }
    };
    ms.sort_by_key(rank);
    ensure!(same_marks(&marks_vec(&set), &ms), "the set of {:?} is {:?}", c.marks, marks_vec(&set));
    let m = c.mark.as_ref().unwrap();
    ensure!(set.contains(m) == ms.iter().any(|x| mkey(x) == mkey(m)), "contains is {}", set.contains(m));
    let (ea, er) = (madd(&ms, m), mrem(&ms, m));
    let mut a = set.clone();
    a.add(m);
    ensure!(same_marks(&marks_vec(&a), &ea), "add gives {:?}, expected {:?}", a, ea);
    ensure!(a.contains(m), "the added mark is not contained");
    let mut r = set.clone();
    r.remove(m);
    ensure!(same_marks(&marks_vec(&r), &er), "remove gives {:?}, expected {:?}", r, er);
    let a = m.add_to_set(Cow::Borrowed(&set)).into_owned();
    ensure!(same_marks(&marks_vec(&a), &ea), "add_to_set gives {:?}, expected {:?}", a, ea);
    let a = m.add_to_set(Cow::Owned(set.clone())).into_owned();
    ensure!(same_marks(&marks_vec(&a), &ea), "add_to_set (owned) gives {:?}, expected {:?}", a, ea);
    let r = m.remove_from_set(Cow::Borrowed(&set)).into_owned();
    ensure!(same_marks(&marks_vec(&r), &er), "remove_from_set gives {:?}, expected {:?}", r, er);
    let r = m.remove_from_set(Cow::Owned(set.clone())).into_owned();
    ensure!(same_marks(&marks_vec(&r), &er), "remove_from_set (owned) gives {:?}, expected {:?}", r, er);
    ensure!(same_marks(&marks_vec(&m.clone().into_set()), &[m.clone()]), "into_set");
    Ok(true)
}
fn c09(c: &Case) -> Result<bool, String> {
    for t in TYPES {
        let f = Fragment::<MD>::from(c.kids.clone());
        let e = valid_content(t, &c.kids);
        ensure!(t.valid_content(&f) == e, "{:?}.valid_content is {}", t, !e);
        ensure!(t.is_inline() == is_inline(t) && t.is_block() == is_block(t), "{:?} is inline/block", t);
        for u in TYPES {
            ensure!(t.compatible_content(u) == compat(t, u), "{:?}.compatible_content({:?}) is {}", t, u, !compat(t, u));
        }
        for m in all_marks() {
            ensure!(t.allows_mark_type(m.r#type()) == allows(t), "{:?} allows {:?}", t, m);
        }
        if !c.marks.is_empty() || c.mark.is_some() {
            let s = markset(&c.marks);
            ensure!(t.allow_marks(&s) == (c.marks.is_empty() || allows(t)), "{:?}.allow_marks({:?})", t, s);
        }
        let ts: Vec<T> = c.kids.iter().map(ty).collect();
        let m = t.content_match().match_fragment(&f);
        ensure!(matches!(m, Some(x) if x.valid_end()) == valid_kids(t, &ts), "the content match of {:?} on {:?}", t, ts);
    }
    // can_replace
    let d = &c.doc;
    let n = kids(d).len();
    if c.from <= c.to && c.to <= n && matches!(d.r#type(), x if x == ty(d)) {
        let pre: Vec<T> = kids(d)[..c.from].iter().map(ty).collect();
        let mut all = kids(d)[..c.from].to_vec();
        all.extend(c.kids.iter().cloned());
        all.extend(kids(d)[c.to..].iter().cloned());
        let ts: Vec<T> = all.iter().map(ty).collect();
        let e = valid_kids(ty(d), &ts) && c.kids.iter().all(|k| kid_marks_ok(ty(d), k));
        // some content can follow the children before
        let ok = TYPES.iter().any(|x| valid_kids(ty(d), &[&pre[..], &[*x]].concat())) || valid_kids(ty(d), &pre);
        match d.can_replace(c.from, c.to, Some(&Fragment::from(c.kids.clone())), ..) {
            Ok(b) => ensure!(b == e, "can_replace is {}", b),
            Err(_) => ensure!(!ok, "can_replace fails"),
        }
    }
    Ok(true)
}
fn c10(c: &Case) -> Result<bool, String> {
    let r = step(c).apply(&c.doc);
    Ok(r.is_ok())
}
fn c11(c: &Case) -> Result<bool, String> {
    if frag(&c.doc).is_none() {
        return Ok(false);
    }
    let t = flat(kids(&c.doc));
    let r = around(c).apply(&c.doc);
    let good = c.from <= c.to && ok_pos(&t, c.from) && ok_pos(&t, c.to) && flat_gap(&t, c.nums[0], c.nums[1]);
    let f = if good { filled(c, &t).filter(|f| f.ok()) } else { None };
    match r {
        Ok(n) => {
            let f = match f {
                Some(f) => f,
                None => return Err(format!("the positions, the gap or the insertion point are invalid, and the step succeeds with {}", show(&[n]))),
            };
            same("result", &flat(kids(&n)), &splice(&t, c.from, c.to, &f.inserts()))?;
            ensure!(head(&n) == head(&c.doc), "the root changes to {:?}", head(&n));
            Ok(true)
        }
        Err(e) => {
            if let Some(f) = f {
                if !c.flag && fits(&c.doc, c.from, c.to, &f) {
                    return Err(format!("the filled slice fits, and the step fails with {:?}", e));
                }
            }
            Ok(!good)
        }
    }
}
/// no two adjacent texts with the same marks
pub fn norm(s: &[N]) -> bool {
    s.windows(2).all(|w| !matches!((&w[0], &w[1]), (N::Text(a), N::Text(b)) if same_marks(&marks_vec(&a.marks), &marks_vec(&b.marks)))) && s.iter().all(|n| norm(kids(n)))
}
pub fn join_texts(s: &[N]) -> Vec<N> {
    let mut v: Vec<N> = vec![];
    for n in s {
        if let (Some(N::Text(a)), N::Text(b)) = (v.last(), n) {
            if same_marks(&marks_vec(&a.marks), &marks_vec(&b.marks)) {
                let t = text(&format!("{}{}", a.text.as_str(), b.text.as_str()), &marks_vec(&a.marks));
                *v.last_mut().unwrap() = t;
                continue;
            }
        }
        v.push(match head(n) {
            Some(h) if frag(n).is_some() => mk(&h, join_texts(kids(n))),
            _ => n.clone(),
        });
    }
    v
}
fn c17(c: &Case) -> Result<bool, String> {
    if !norm(std::slice::from_ref(&c.doc)) || !norm(&c.sl.content) || !norm(&c.kids) {
        return Ok(false);
    }
    let t = flat(kids(&c.doc));
    let good = |k: &[N]| {
        ensure!(norm(k), "adjacent texts with the same marks in {}", show(k));
        Ok(true)
    };
    match c.kind.as_str() {
        "append" => {
            let f = Fragment::<MD>::from(c.sl.content.clone()).append(Fragment::from(c.kids.clone()));
            same("append", &flat(f.children()), &[flat(&c.sl.content), flat(&c.kids)].concat())?;
            good(f.children())
        }
        "cut" => {
            if c.from > c.to || !ok_pos(&t, c.from) || !ok_pos(&t, c.to) || frag(&c.doc).is_none() {
                return Ok(false);
            }
            good(c.doc.slice(c.from..c.to, c.flag).map_err(|e| format!("{:?}", e))?.content.children())?;
            good(&[c.doc.cut(c.from..c.to).into_owned()])
        }
        "replace" => match c.doc.replace(c.from..c.to, &c.sl.get()) {
            Ok(n) => {
                same("result", &flat(kids(&n)), &splice(&t, c.from, c.to, &c.sl.inserts()))?;
                good(&[n])
            }
            Err(_) => Ok(false),
        },
        _ => match step(c).apply(&c.doc) {
            Ok(n) => good(&[n]),
            Err(_) => Ok(false),
        },
    }
}
fn c12(c: &Case) -> Result<bool, String> {
    let t = flat(kids(&c.doc));
    let r = step(c).apply(&c.doc);
    if c.kind == "around" {
        let over = matches!(r, Err(StepError::GapWouldOverwrite));
        if !c.flag {
            ensure!(!over, "the flag is not set");
            return Ok(true);
        }
        let (gf, gt) = (c.nums[0], c.nums[1]);
        if !ok_pos(&t, c.from) || gf < c.from || !ok_pos(&t, gt) || c.to < gt {
            ensure!(r.is_err(), "the positions are invalid, and the step succeeds");
            return Ok(false);
        }
        let e = !(brackets(&t, c.from, gf) && brackets(&t, gt, c.to));
        ensure!(over == e, "content is {} between, and the step {}", if e { "in" } else { "not in" }, if over { "is refused for it" } else { "is not refused for it" });
        return Ok(true);
    }
    let over = matches!(r, Err(StepError::WouldOverwrite));
    if !c.flag {
        ensure!(!over, "the flag is not set");
        return Ok(true);
    }
    if c.to < c.from || !ok_pos(&t, c.from) {
        ensure!(r.is_err(), "the positions are invalid, and the step succeeds");
        return Ok(false);
    }
    let e = !brackets(&t, c.from, c.to);
    ensure!(over == e, "content is {} the range, and the step {}", if e { "in" } else { "not in" }, if over { "is refused for it" } else { "is not refused for it" });
    Ok(true)
}

// ------------------------------------------------------------------------------------------- cases
pub struct Small {
    groups: Vec<Vec<N>>,
    slices: Vec<Sl>,
    p: String,
    pub rule: String,
}
impl Small {
    pub fn len(&self) -> usize {
        self.groups.len()
    }
    pub fn each(&self, i: usize, f: &mut dyn FnMut(&Case) -> bool) {
        let g = &self.groups[i];
        let d = &g[0];
        let p = self.p.as_str();
        match p {
            "C08" => {
                let ms = all_marks();
                // all lists of up to three marks
                for n in 0..=3usize {
                    for k in 0..ms.len().pow(n as u32) {
                        let mut c = Case::new("marks", d, 0, 0);
                        let mut k = k;
                        for _ in 0..n {
                            c.marks.push(ms[k % ms.len()].clone());
                            k /= ms.len();
                        }
                        for m in &ms {
                            c.mark = Some(m.clone());
                            if !f(&c) {
                                return;
                            }
                        }
                    }
                }
                return;
            }
            "C15" => {
                let mut c = Case::new(if g.len() > 1 { "text" } else { "doc" }, d, 0, 0);
                c.kids = g[1..].to_vec();
                f(&c);
                return;
            }
            "C14" => {
                for kind in ["node", "slice", "replace", "around", "mark"] {
                    let base = if kind == "node" { d.clone() } else { mk(&Head::Doc, vec![]) };
                    let mut c = Case::new(kind, &base, 3, 5);
                    c.nums = vec![7, 8, 9];
                    c.flag = true;
                    if kind == "mark" {
                        c.mark = Some(M::Link { attrs: LinkAttrs { href: "u".into(), title: "v".into() } });
                    } else if kind != "node" {
                        c.sl = Sl { content: kids(d).to_vec(), os: 1, oe: 2 };
                    }
                    if !f(&c) {
                        return;
                    }
                    for at in 0..6 * toks(d).len() {
                        for op in 0..18 {
                            let mut c = c.clone();
                            c.nums.extend([at, op, at]);
                            if !f(&c) {
                                return;
                            }
                        }
                    }
                }
                return;
            }
            "C09" => {
                for from in 0..=kids(d).len() {
                    for to in from..=kids(d).len() {
                        for s in &self.slices {
                            let mut c = Case::new("content", d, from, to);
                            c.kids = s.content.clone();
                            c.mark = Some(M::Em);
                            c.marks = if from % 2 == 0 { vec![M::Em] } else { vec![] };
                            if !f(&c) {
                                return;
                            }
                        }
                    }
                }
                return;
            }
            _ => {}
        }
        let t = flat(kids(d));
        for from in 0..=t.len() + 1 {
            if p == "C04" {
                if !f(&Case::new("resolve", d, from, 0)) {
                    return;
                }
                continue;
            }
            let lo = if from > 0 { from - 1 } else { 0 };
            for to in lo..=t.len() + 1 {
                match p {
                    "C02" => {
                        for flag in [false, true] {
                            let mut c = Case::new("slice", d, from, to);
                            c.flag = flag;
                            if !f(&c) {
                                return;
                            }
                        }
                        if !f(&Case::new("cut", d, from, to)) {
                            return;
                        }
                    }
                    "C13" => {
                        for nums in [vec![], vec![0], vec![1], vec![0, 2]] {
                            let mut c = Case::new("visit", d, from, to);
                            c.sl.os = nums.len();
                            c.nums = nums;
                            if !f(&c) {
                                return;
                            }
                        }
                    }
                    "C06" | "C07" => {
                        for m in [M::Em, link("u"), M::Strong] {
                            let mut c = Case::new("mark", d, from, to);
                            c.flag = p == "C07";
                            c.mark = Some(m);
                            if !f(&c) {
                                return;
                            }
                        }
                    }
                    "C11" => {
                        for gf in from..=to.max(from) {
                            for gt in gf..=to.max(gf) {
                                for s in &self.slices {
                                    if s.os + s.oe > 2 || flat(&s.content).len() > 4 {
                                        continue;
                                    }
                                    for at in 0..=flat(&s.content).len().saturating_sub(s.os) {
                                        let mut c = Case::new("around", d, from, to);
                                        c.nums = vec![gf, gt, at];
                                        c.sl = s.clone();
                                        if !f(&c) {
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                    }
                    "C12" => {
                        let mut c = Case::new("replace", d, from, to);
                        c.flag = true;
                        if !f(&c) {
                            return;
                        }
                        for gf in from..=to.max(from) {
                            let mut c = Case::new("around", d, from, to);
                            c.flag = true;
                            c.nums = vec![gf, (gf + 1).min(to), 0];
                            if !f(&c) {
                                return;
                            }
                        }
                    }
                    _ => {
                        if p == "C17" {
                            for (flag, m) in [(false, M::Em), (true, M::Em), (false, M::Strong)] {
                                let mut c = Case::new("mark", d, from, to);
                                c.flag = flag;
                                c.mark = Some(m);
                                if !f(&c) {
                                    return;
                                }
                            }
                        }
                        for s in &self.slices {
                            let mut c = Case::new("replace", d, from, to);
                            c.sl = s.clone();
                            if !f(&c) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
}
pub fn small(p: &str, thorough: bool) -> Small {
    let (dmax, smax) = match (p, thorough) {
        ("C02", false) | ("C04", false) => (8, 0),
        ("C13", false) => (8, 0),
        ("C13", true) => (9, 0),
        ("C02", true) | ("C04", true) => (10, 0),
        ("C06", false) | ("C07", false) | ("C12", false) => (7, 0),
        ("C06", true) | ("C07", true) | ("C12", true) => (9, 0),
        ("C15", false) => (8, 0),
        ("C15", true) => (10, 0),
        ("C14", false) => (4, 0),
        ("C14", true) => (6, 0),
        ("C11", false) => (4, 3),
        ("C11", true) => (5, 4),
        (_, false) => (6, 4),
        (_, true) => (7, 6),
    };
    let mut docs = small_docs(dmax);
    let mut slices = vec![Sl::default()];
    let mut seen = std::collections::HashSet::new();
    if smax > 0 {
        for d in small_docs(smax) {
            let t = flat(kids(&d));
            for a in 0..=t.len() {
                for b in a + 1..=t.len() {
                    if let Some(s) = own_slice(&t, a, b) {
                        if !s.content.is_empty() && seen.insert(format!("{:?}", s)) {
                            slices.push(s);
                        }
                    }
                }
            }
        }
        for s in ["x", "😀"] {
            slices.push(Sl { content: vec![text(s, &[])], os: 0, oe: 0 });
        }
        slices.push(Sl { content: vec![], os: 1, oe: 1 });
        slices.push(Sl { content: vec![mk(&Head::Paragraph, vec![])], os: 2, oe: 0 });
    }
    let mut rule = format!("every document of up to {} positions over a small alphabet, every range", dmax);
    if p == "C08" {
        docs = vec![mk(&Head::Doc, vec![])];
        rule = "every list of up to three marks of four types, and every mark".into();
    } else if p == "C09" {
        // all children lists of up to three types, with and without marks
        let mut leafs: Vec<N> = vec![text("a", &[]), text("b", &[M::Em])];
        for h in [
            Head::Doc, Head::Heading(1), Head::CodeBlock("".into()), Head::Blockquote, Head::Paragraph, Head::BulletList(false),
            Head::OrderedList(1, false), Head::ListItem, Head::HorizontalRule, Head::HardBreak, Head::Image("s".into(), "".into(), "".into()),
        ] {
            leafs.push(mk(&h, vec![]));
        }
        slices = vec![Sl::default()];
        for a in &leafs {
            slices.push(Sl { content: vec![a.clone()], os: 0, oe: 0 });
            for b in &leafs {
                slices.push(Sl { content: vec![a.clone(), b.clone()], os: 0, oe: 0 });
                if thorough {
                    for c in &leafs {
                        slices.push(Sl { content: vec![a.clone(), b.clone(), c.clone()], os: 0, oe: 0 });
                    }
                }
            }
        }
        docs = vec![];
        for h in [
            Head::Doc, Head::Heading(1), Head::CodeBlock("".into()), Head::Blockquote, Head::Paragraph, Head::BulletList(false),
            Head::OrderedList(1, false), Head::ListItem, Head::HorizontalRule, Head::HardBreak, Head::Image("s".into(), "".into(), "".into()),
        ] {
            docs.push(mk(&h, vec![]));
            if frag(&mk(&h, vec![])).is_some() {
                for s in &slices {
                    if valid_content(hty(&h), &s.content) {
                        docs.push(mk(&h, s.content.clone()));
                    }
                }
            }
        }
        rule = "every pair of node types, every child list of up to two (thorough: three) of them, with and without marks".into();
    } else if smax > 0 {
        rule += &format!(", every slice of the documents of up to {} positions", smax);
    }
    if p == "C14" {
        let (t, m) = (text("a\"😀", &[M::Strong, M::Em, M::Code, M::Link { attrs: LinkAttrs { href: "u".into(), title: "".into() } }]), text("", &[M::Code]));
        let p = mk(&Head::Paragraph, vec![t.clone(), m, mk(&Head::HardBreak, vec![]), mk(&Head::Image("s".into(), "a".into(), "".into()), vec![])]);
        let li = mk(&Head::ListItem, vec![p.clone(), mk(&Head::Blockquote, vec![p.clone()])]);
        docs.push(mk(&Head::Doc, vec![mk(&Head::Heading(255), vec![t]), mk(&Head::CodeBlock("rs".into()), vec![]), mk(&Head::HorizontalRule, vec![])]));
        docs.push(mk(&Head::Doc, vec![mk(&Head::BulletList(true), vec![li.clone()]), mk(&Head::OrderedList(300, false), vec![li, p])]));
        rule = "every document of up to 4 (thorough: 6) positions over a small alphabet and two with everything in them, as a node, and as the content of a slice and of each kind of step; each also with every change of one place of its JSON".into();
    }
    if p == "C02" {
        docs.extend([text("a😀b", &[M::Em])]);
    }
    let mut groups: Vec<Vec<N>> = docs.into_iter().map(|d| vec![d]).collect();
    if p == "C15" {
        rule = format!("every document of up to {} positions over a small alphabet; every text of up to three of the pieces that Markdown is made of", dmax);
        groups.extend(crate::md::small_texts().into_iter().map(|s| vec![mk(&Head::Doc, vec![]), text(&s, &[])]));
    }
    Small { groups, slices, p: p.into(), rule }
}

pub fn random(p: &str, r: &mut Rng) -> Case {
    let doc = if p == "C05" || p == "C16" || (matches!(p, "C06" | "C07" | "C11") && !r.one_in(5)) { gen_doc(r) } else { gen_any_doc(r) };
    let doc = if p == "C17" { join_texts(&[doc]).remove(0) } else { doc };
    let t = flat(kids(&doc));
    let (from, to) = gen_range(r, &t);
    let mut c = Case::new("replace", &doc, from, to);
    match p {
        "C15" => {
            c = Case::new("doc", &mk(&Head::Doc, vec![]), 0, 0);
            if r.one_in(2) {
                c.kind = "text".into();
                c.kids = crate::md::gen_text(r);
            } else {
                c.doc = crate::md::gen_md(r);
            }
        }
        "C14" => {
            c.doc = if r.one_in(12) {
                gen_deep(r)
            } else {
                let d = r.below(4);
                gen_rich(r, d)
            };
            let num = |r: &mut Rng| if r.one_in(3) { *r.pick(&[0, 1, 255, 256, (1 << 53) + 1, i64::MAX as usize, usize::MAX]) } else { r.below(20) };
            c.from = num(r);
            c.to = num(r);
            c.nums = (0..3).map(|_| num(r)).collect();
            c.flag = r.one_in(2);
            c.kind = ["node", "slice", "mark", "around", "replace"][r.below(5)].into();
            if c.kind != "node" {
                c.sl.content = match c.doc {
                    N::Text(_) => vec![c.doc.clone()],
                    _ => kids(&c.doc).to_vec(),
                };
                c.doc = mk(&Head::Doc, vec![]);
                c.sl.os = num(r);
                c.sl.oe = num(r);
            }
            if c.kind == "mark" {
                c.sl = Sl::default();
                c.mark = Some(match gen_mark(r) {
                    M::Link { .. } => M::Link { attrs: LinkAttrs { href: gen_str(r), title: if r.one_in(2) { String::new() } else { gen_str(r) } } },
                    m => m,
                });
            }
            if r.one_in(2) {
                c.nums.push(r.below(200));
                c.nums.push(r.below(18));
                c.nums.push(r.below(1000));
            }
        }
        "C02" => {
            c.kind = if r.one_in(2) { "cut".into() } else { "slice".into() };
            c.flag = r.one_in(3);
        }
        "C06" | "C07" => {
            c.kind = "mark".into();
            c.flag = p == "C07";
            c.mark = Some(gen_mark(r));
        }
        "C08" => {
            let n = r.below(5);
            c.marks = (0..n).map(|_| gen_mark(r)).collect();
            c.mark = Some(gen_mark(r));
        }
        "C09" => {
            c.doc = gen_wild(r, 2);
            let n = kids(&c.doc).len();
            c.from = r.below(n + 1);
            c.to = r.range(c.from, n);
            c.marks = gen_marks(r);
            let k = r.below(5);
            c.kids = if r.one_in(2) { (0..k).map(|_| gen_wild(r, 1)).collect() } else { gen_blocks(r, 1) };
        }
        "C04" => {}
        "C13" => {
            c.kind = "visit".into();
            c.sl.os = r.below(4);
            let k = r.below(4);
            c.nums = (0..k).map(|_| r.below(8)).collect();
            if r.one_in(8) {
                c.to = t.len() + r.below(3);
            }
        }
        "C11" => fill_around(r, &mut c, &t),
        "C12" => {
            c.flag = !r.one_in(8);
            // prefer ranges of brackets
            if r.one_in(2) && !t.is_empty() {
                let mut a = r.below(t.len());
                let mut b = a;
                while a > 0 && !matches!(t[a - 1], Tok::Ch(..) | Tok::Leaf(_)) && !r.one_in(5) {
                    a -= 1;
                }
                while b < t.len() && !matches!(t[b], Tok::Ch(..) | Tok::Leaf(_)) && !r.one_in(5) {
                    b += 1;
                }
                c.from = a;
                c.to = b;
            }
            if r.one_in(2) {
                let fl = c.flag;
                let (a, b) = (c.from, c.to);
                fill_around(r, &mut c, &t);
                c.flag = fl;
                c.from = a;
                c.to = b;
                if a < b && b <= t.len() {
                    c.nums[0] = r.range(a, b);
                    c.nums[1] = r.range(c.nums[0], b);
                }
            } else {
                c.sl = gen_slice(r, &doc, c.from, c.to);
            }
        }
        "C03" | "C10" | "C05" | "C17" => {
            let k = r.below(10);
            match k {
                0..=1 => {
                    c.kind = "mark".into();
                    c.flag = r.one_in(2);
                    c.mark = Some(gen_mark(r));
                }
                2 if p == "C03" || p == "C17" => {
                    c.kind = "cut".into();
                }
                3 if p == "C03" || p == "C17" => {
                    c.kind = "append".into();
                    c.sl.content = gen_inline(r, &Head::Paragraph);
                    c.kids = gen_inline(r, &Head::Paragraph);
                }
                4 if p == "C03" => {
                    c.kind = "replace_child".into();
                    c.kids = gen_inline(r, &Head::Paragraph);
                    c.nums = vec![r.below(3)];
                }
                5..=6 if p != "C05" => fill_around(r, &mut c, &t),
                _ => {
                    c.sl = gen_slice(r, &doc, from, to);
                    c.flag = p == "C10" && r.one_in(3);
                    if p == "C10" && r.one_in(20) {
                        c.sl.os = *r.pick(&[0, 1, 5, usize::MAX, usize::MAX - 1]);
                    }
                    if p == "C10" && r.one_in(20) {
                        c.sl.oe = *r.pick(&[0, 1, 5, usize::MAX, usize::MAX - 1]);
                    }
                }
            }
        }
        _ => {
            c.sl = gen_slice(r, &doc, from, to);
        }
    }
    if p == "C17" {
        c.kids = join_texts(&c.kids);
        c.sl.content = join_texts(&c.sl.content);
    }
    c
}
fn fill_around(r: &mut Rng, c: &mut Case, t: &[Tok]) {
    c.kind = "around".into();
    c.flag = r.one_in(4);
    // a wrap, an unwrap or anything
    let k = r.below(4);
    if k < 3 && !t.is_empty() {
        // a flat range
        let a = r.below(t.len());
        let d = depth_at(t, a);
        let mut ends = vec![];
        for b in a + 1..=t.len() {
            let e = depth_at(t, b);
            if e < d {
                break;
            }
            if e == d {
                ends.push(b);
            }
        }
        if let Some(b) = if ends.is_empty() { None } else { Some(*r.pick(&ends)) } {
            match k {
                0 => {
                    // wrap
                    let h = r.pick(&[Head::Blockquote, Head::ListItem, Head::Paragraph, Head::BulletList(true)]).clone();
                    let inner = mk(&h, vec![]);
                    let (content, at) = if h == Head::ListItem { (mk(&Head::BulletList(false), vec![inner]), 2) } else { (inner, 1) };
                    c.from = a;
                    c.to = b;
                    c.nums = vec![a, b, at];
                    c.sl = Sl { content: vec![content], os: 0, oe: 0 };
                    return;
                }
                1 if a > 0 && b < t.len() => {
                    // unwrap
                    c.from = a - 1;
                    c.to = b + 1;
                    c.nums = vec![a, b, 0];
                    c.sl = Sl::default();
                    return;
                }
                _ => {
                    c.nums = vec![a, b];
                    c.from = a.saturating_sub(r.below(3));
                    c.to = (b + r.below(3)).min(t.len());
                    c.sl = gen_slice(r, &c.doc.clone(), c.from, c.to);
                    let l = flat(&c.sl.content).len();
                    let at = r.range(0, l).saturating_sub(c.sl.os);
                    c.nums.push(at);
                    return;
                }
            }
        }
    }
    let (a, b) = gen_range(r, t);
    c.nums = vec![a, b, r.below(5)];
    if r.one_in(30) {
        c.nums[2] = *r.pick(&[usize::MAX, usize::MAX - 1, 100]);
    }
    c.sl = gen_slice(r, &c.doc.clone(), c.from, c.to);
}

/// a smaller case that fails too
pub fn shrink(mut c: Case, mut e: String, fails: &dyn Fn(&Case) -> Option<String>) -> (Case, String) {
    let mut budget = 4000;
    loop {
        let mut progress = false;
        for d in smaller_case(&c) {
            if budget == 0 {
                return (c, e);
            }
            budget -= 1;
            if let Some(m) = fails(&d) {
                if d.weight() < c.weight() || (d.weight() == c.weight() && d.from + d.to < c.from + c.to) {
                    c = d;
                    e = m;
                    progress = true;
                    break;
                }
            }
        }
        if !progress {
            return (c, e);
        }
    }
}
fn smaller_list(s: &[N]) -> Vec<Vec<N>> {
    let mut r = vec![];
    for i in 0..s.len() {
        let mut v = s.to_vec();
        v.remove(i);
        r.push(v);
        for n in smaller(&s[i]) {
            let mut v = s.to_vec();
            v[i] = n;
            r.push(v);
        }
    }
    r
}
fn smaller(n: &N) -> Vec<N> {
    match n {
        N::Text(t) => {
            let m = marks_vec(&t.marks);
            let cs: Vec<char> = t.text.as_str().chars().collect();
            let mut r = vec![];
            if cs.len() > 1 {
                for i in 0..cs.len() {
                    let s: String = cs.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| *c).collect();
                    r.push(text(&s, &m));
                }
            }
            r
        }
        _ => match head(n) {
            Some(h) if frag(n).is_some() => smaller_list(kids(n)).into_iter().map(|k| mk(&h, k)).collect(),
            _ => vec![],
        },
    }
}
fn smaller_case(c: &Case) -> Vec<Case> {
    let mut r = vec![];
    for d in smaller(&c.doc) {
        let l = toks(&c.doc).len() - toks(&d).len();
        for (a, b) in [(0, 0), (l, l), (0, l)] {
            if c.from >= a && c.to >= b {
                let mut x = c.clone();
                x.doc = d.clone();
                x.from -= a;
                x.to -= b;
                if x.kind == "around" {
                    for (g, h) in [(0, 0), (l, l), (0, l)] {
                        if x.nums[0] >= g && x.nums[1] >= h {
                            let mut y = x.clone();
                            y.nums[0] -= g;
                            y.nums[1] -= h;
                            r.push(y);
                        }
                    }
                } else {
                    r.push(x);
                }
            }
        }
    }
    for s in smaller_list(&c.sl.content) {
        let mut x = c.clone();
        x.sl.content = s;
        r.push(x);
    }
    for s in smaller_list(&c.kids) {
        let mut x = c.clone();
        x.kids = s;
        r.push(x);
    }
    for i in 0..c.marks.len() {
        let mut x = c.clone();
        x.marks.remove(i);
        r.push(x);
    }
    r
}
