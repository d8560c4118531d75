//! Mechanical extraction of the Rust sources under /repo/src into one flat, first-order Rust file
//! that Verus accepts.  Nothing here is specific to the *content* of a function body: every rule is
//! a rewrite on syntax (see /verif/DESIGN.md, "What the extraction does").
//!
//! Output: plain Rust with marker macros (`vc_fn!`, `vc_loop!`, `vc_clo!`) that the driver replaces
//! by the contracts.  A log of every dropped item is written to stderr as `DROP <what> <why>`.

use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
struct World {
    /// schema-associated types: Node -> MarkdownNode, ...
    assoc: HashMap<String, String>,
    /// provided trait methods by trait name
    provided: HashMap<String, Vec<(TraitItemFn, String)>>,
    /// `util` functions (flattened with a prefix)
    util_fns: HashSet<String>,
    copy_types: HashSet<String>,
}

mod inline;
mod jser;

/// a field that a derived trait treats in a special way: `#[derivative(PartialEq = "ignore")]`
fn custom_field(ty: &Ident, attrs: &[Attribute]) {
    for a in attrs {
        if a.path().is_ident("derivative") {
            let s = a.meta.to_token_stream().to_string();
            if ["PartialEq", "Eq", "Clone", "Ord", "PartialOrd"].iter().any(|t| s.contains(t)) {
                eprintln!("CUSTOM {} {}", ty, s);
            }
        }
    }
}

fn attr_list(attrs: &[Attribute]) -> BTreeSet<String> {
    // names mentioned in derive(..) and derivative(..)
    let mut out = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") || a.path().is_ident("derivative") {
            fn walk(ts: TokenStream, out: &mut BTreeSet<String>) {
                let mut it = ts.into_iter().peekable();
                while let Some(t) = it.next() {
                    match t {
                        proc_macro2::TokenTree::Ident(i) => {
                            out.insert(i.to_string());
                            // skip the argument group: Clone(bound = "")
                            if let Some(proc_macro2::TokenTree::Group(_)) = it.peek() {
                                it.next();
                            }
                        }
                        _ => {}
                    }
                }
            }
            if let Meta::List(l) = &a.meta {
                walk(l.tokens.clone(), &mut out);
            }
        }
    }
    out
}

fn is_cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = a.meta.to_token_stream().to_string();
            s.contains("test") || (s.contains("feature") && std::env::var("VC_MD").is_err())
        }
    })
}

fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

const PRIMS: &[&str] = &["usize", "u8", "u32", "u64", "bool", "str", "char", "i32", "i64"];

struct Rw<'w> {
    w: &'w World,
    /// names of type parameters that are ranges (R: RangeBounds)
    range_params: HashSet<String>,
    /// type parameters replaced by a concrete type
    mono: HashMap<String, String>,
    /// locals of type Cow
    cows: HashSet<String>,
    /// the type `Self` stands for
    self_ty: String,
    /// parameters of type &str
    strs: HashSet<String>,
    loops: usize,
    closures: usize,
    closure_depth: usize,
    /// the function returns a Result
    result_fn: bool,
    /// parameters that are vectors, and iterators that stand for one
    owned: HashSet<String>,
    tmp: HashMap<String, usize>,
}

impl<'w> Rw<'w> {
    fn new(w: &'w World) -> Self {
        Rw {
            w,
            range_params: HashSet::new(),
            mono: HashMap::new(),
            cows: HashSet::new(),
            self_ty: String::new(),
            strs: HashSet::new(),
            loops: 0,
            closures: 0,
            closure_depth: 0,
            result_fn: false,
            owned: HashSet::new(),
            tmp: HashMap::new(),
        }
    }

    fn is_str(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.strs.contains(&i.to_string())),
            Expr::MethodCall(m) => m.method == "as_str" && m.args.is_empty(),
            Expr::Paren(p) => self.is_str(&p.expr),
            _ => false,
        }
    }

    fn is_schema_arg(a: &GenericArgument) -> bool {
        if let GenericArgument::Type(Type::Path(p)) = a {
            p.qself.is_none() && (p.path.is_ident("S") || p.path.is_ident("MD"))
        } else {
            false
        }
    }

    fn fix_path(&mut self, path: &mut Path) {
        for seg in path.segments.iter_mut() {
            if let PathArguments::AngleBracketed(ab) = &mut seg.arguments {
                let args: Vec<GenericArgument> = ab
                    .args
                    .iter()
                    .filter(|a| !Self::is_schema_arg(a))
                    .cloned()
                    .collect();
                if args.is_empty() {
                    seg.arguments = PathArguments::None;
                } else {
                    ab.args = args.into_iter().collect();
                }
            }
            if seg.ident == "r#type" {
                seg.ident = ident("type_");
            }
        }
        let segs: Vec<PathSegment> = path.segments.iter().cloned().collect();
        if segs.is_empty() {
            return;
        }
        let first = segs[0].ident.to_string();
        if segs.len() == 1 {
            if let Some(m) = self.mono.get(&first) {
                path.segments[0].ident = ident(m);
            } else if self.range_params.contains(&first) {
                path.segments[0].ident = ident("VRange");
            }
            return;
        }
        path.leading_colon = None;
        if first == "S" {
            let a = segs[1].ident.to_string();
            let conc = self.w.assoc.get(&a).cloned().unwrap_or(a);
            let mut new: Vec<PathSegment> = segs[1..].to_vec();
            new[0].ident = ident(&conc);
            path.segments = new.into_iter().collect();
            return;
        }
        if first == "std" || first == "core" {
            return;
        }
        if PRIMS.contains(&first.as_str()) {
            return;
        }
        // drop module prefixes
        let mut i = 0;
        let mut util = false;
        while i + 1 < segs.len() {
            let s = segs[i].ident.to_string();
            if s == "Self" || s.chars().next().unwrap().is_uppercase() {
                break;
            }
            util = s == "util";
            i += 1;
        }
        let mut new: Vec<PathSegment> = segs[i..].to_vec();
        if new.len() == 1 && util && self.w.util_fns.contains(&new[0].ident.to_string()) {
            new[0].ident = format_ident!("util_{}", new[0].ident);
        }
        if new.len() > 1 {
            let f = new[0].ident.to_string();
            if let Some(c) = self.w.assoc.get(&f) {
                new[0].ident = ident(c);
            }
        }
        path.segments = new.into_iter().collect();
    }

    fn fresh(&mut self, p: &str) -> Ident {
        let n = self.tmp.entry(p.to_string()).or_insert(0);
        *n += 1;
        format_ident!("{}_{}", p, *n)
    }
}

fn is_iter_chain(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            matches!(
                m.method.to_string().as_str(),
                "iter" | "into_iter" | "chars" | "iter_mut" | "enumerate" | "rev" | "zip" | "skip"
                    | "take" | "encode_utf16" | "windows" | "bytes"
            )
        }
        _ => false,
    }
}

/// Apply a closure or function path to an argument expression (beta reduction).
fn apply(f: &Expr, arg: TokenStream) -> Option<TokenStream> {
    match f {
        Expr::Closure(c) if c.inputs.len() == 1 => {
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            // a `return` or `?` in the body would change its meaning
            struct V(bool);
            impl<'a> visit::Visit<'a> for V {
                fn visit_expr_return(&mut self, _: &'a ExprReturn) {
                    self.0 = true
                }
                fn visit_expr_try(&mut self, _: &'a ExprTry) {
                    self.0 = true
                }
            }
            let mut v = V(false);
            visit::Visit::visit_expr(&mut v, &c.body);
            if v.0 {
                return None;
            }
            let body = &c.body;
            Some(quote!({ let #p = #arg; #body }))
        }
        Expr::Path(p) => Some(quote!(#p(#arg))),
        _ => None,
    }
}

impl<'w> VisitMut for Rw<'w> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        self.fix_path(p);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        // <S as Trait>::X does not occur; qself paths are left alone
    }

    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "r#type" {
            *i = ident("type_");
        }
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Type(pt) = &l.pat {
            if let (Pat::Ident(pi), Type::Path(tp)) = (&*pt.pat, &*pt.ty) {
                if tp.path.segments.last().map_or(false, |s| s.ident == "Cow") {
                    self.cows.insert(pi.ident.to_string());
                }
            }
            if let (Pat::Ident(pi), Type::Reference(tr)) = (&*pt.pat, &*pt.ty) {
                if matches!(&*tr.elem, Type::Path(tp) if tp.path.is_ident("str")) {
                    self.strs.insert(pi.ident.to_string());
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // matches!(expr, pat if guard): rewrite the paths within
        if m.path.is_ident("matches") {
            struct M(Expr, Pat, Option<Expr>);
            impl parse::Parse for M {
                fn parse(i: parse::ParseStream) -> Result<Self> {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<Token![,]>>()?;
                    Ok(M(e, p, g))
                }
            }
            if let Ok(M(mut e, mut p, mut g)) = parse2::<M>(m.tokens.clone()) {
                self.visit_expr_mut(&mut e);
                self.visit_pat_mut(&mut p);
                if let Some(g) = &mut g {
                    self.visit_expr_mut(g);
                }
                let g = g.map(|g| quote!(if #g));
                m.tokens = quote!(#e, #p #g);
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // --- before the children -------------------------------------------------------------
        if let Expr::ForLoop(_) = e {
            self.desugar_for(e);
            return;
        }
        if let Expr::Macro(m) = e {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            match name.as_str() {
                "vec" => {
                    if let Ok(elems) = m.mac.parse_body_with(
                        punctuated::Punctuated::<Expr, Token![,]>::parse_terminated,
                    ) {
                        if elems.is_empty() {
                            *e = parse_quote!(Vec::new());
                        } else {
                            let v = self.fresh("vec");
                            let els = elems.iter();
                            *e = parse_quote!({ let mut #v = Vec::new(); #(#v.push(#els);)* #v });
                        }
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
                "panic" | "unreachable" | "unimplemented" | "todo" => {
                    *e = parse_quote!(vpanic());
                    return;
                }
                "debug_assert" | "assert" | "assert_eq" | "debug_assert_eq" => {
                    if name.ends_with("_eq") {
                        if let Ok(el) = m.mac.parse_body_with(
                            punctuated::Punctuated::<Expr, Token![,]>::parse_terminated,
                        ) {
                            let (a, b) = (&el[0], &el[1]);
                            *e = parse_quote!(if !(#a == #b) { vpanic() });
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    } else if let Ok(el) = m.mac.parse_body_with(
                        punctuated::Punctuated::<Expr, Token![,]>::parse_terminated,
                    ) {
                        let a = &el[0];
                        *e = parse_quote!(if !(#a) { vpanic() });
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
                _ => {}
            }
        }
        if let Expr::While(w) = e {
            self.loops += 1;
            let k = proc_macro2::Literal::usize_unsuffixed(self.loops);
            visit_mut::visit_expr_while_mut(self, w);
            w.body.stmts.insert(0, parse_quote!(vc_loop!(#k);));
            return;
        }
        if let Expr::Loop(w) = e {
            self.loops += 1;
            let k = proc_macro2::Literal::usize_unsuffixed(self.loops);
            visit_mut::visit_expr_loop_mut(self, w);
            w.body.stmts.insert(0, parse_quote!(vc_loop!(#k);));
            return;
        }
        if let Expr::MethodCall(m) = e {
            if let Some(n) = self.desugar_method(m) {
                *e = n;
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::Closure(c) = e {
            self.closures += 1;
            let k = proc_macro2::Literal::usize_unsuffixed(self.closures);
            self.closure_depth += 1;
            visit_mut::visit_expr_closure_mut(self, c);
            self.closure_depth -= 1;
            for (i, p) in c.inputs.iter_mut().enumerate() {
                let unit = matches!(p, Pat::Tuple(t) if t.elems.is_empty());
                if unit || matches!(p, Pat::Wild(_)) {
                    let n = format_ident!("_c{}", i);
                    *p = parse_quote!(#n);
                }
            }
            let body = &c.body;
            let b: Block = match &**body {
                Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => {
                    let mut bl = b.block.clone();
                    bl.stmts.insert(0, parse_quote!(vc_clo!(#k);));
                    bl
                }
                o => parse_quote!({ vc_clo!(#k); #o }),
            };
            c.body = Box::new(Expr::Block(ExprBlock {
                attrs: vec![],
                label: None,
                block: b,
            }));
            return;
        }
        // range literals passed as arguments
        match e {
            Expr::Call(c) => {
                for a in c.args.iter_mut() {
                    range_arg(a);
                }
            }
            Expr::MethodCall(c) => {
                for a in c.args.iter_mut() {
                    range_arg(a);
                }
            }
            _ => {}
        }

        visit_mut::visit_expr_mut(self, e);

        // --- after the children --------------------------------------------------------------
        match e {
            Expr::Path(p) => {
                let s = p.path.to_token_stream().to_string().replace(' ', "");
                if s.ends_with("::EMPTY") || s.ends_with("::EMPTY_REF") {
                    *e = parse_quote!(#p());
                }
            }
            Expr::Try(t) if self.result_fn && self.closure_depth == 0 => {
                // `?` spelled out (the `vtry!` macro of the prelude), so that the conversion of the
                // error is the call of `From::from` it stands for
                let a = &t.expr;
                *e = parse_quote!(vtry!(#a));
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let s = p.path.to_token_stream().to_string().replace(' ', "");
                    if c.args.len() == 1
                        && (s == "Fragment::from" || (s == "Self::from" && self.self_ty == "Fragment"))
                    {
                        let n = match &c.args[0] {
                            Expr::Tuple(t) => format_ident!("from__tup{}", t.elems.len()),
                            _ => ident("from__Vec"),
                        };
                        p.path.segments.last_mut().unwrap().ident = n;
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    let s = p.path.to_token_stream().to_string().replace(' ', "");
                    let args = &c.args;
                    if s == "usize::min" {
                        *e = parse_quote!(vmin(#args));
                    } else if s == "usize::max" {
                        *e = parse_quote!(vmax(#args));
                    } else if s == "std::cmp::min" {
                        *e = parse_quote!(vmin(#args));
                    } else if s == "std::cmp::max" {
                        *e = parse_quote!(vmax(#args));
                    } else if s == "std::mem::take" || s == "core::mem::take" {
                        *e = parse_quote!(vmem_take(#args));
                    }
                }
            }
            Expr::Field(f) => {
                if let Expr::Path(p) = &*f.base {
                    if p.path.get_ident().map_or(false, |i| self.cows.contains(&i.to_string())) {
                        let b = &f.base;
                        f.base = Box::new(parse_quote!(cow_ref(&#b)));
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) => {
                if let Expr::MethodCall(m) = &*b.right {
                    if m.method == "as_str" && m.args.is_empty() {
                        let (l, r) = (&b.left, &b.right);
                        *e = parse_quote!(str_concat(#l, #r));
                    }
                }
            }
            Expr::MethodCall(m) if (m.method == "len" || m.method == "split_at") && self.is_str(&m.receiver) => {
                let (r, a) = (&m.receiver, &m.args);
                *e = if m.method == "len" { parse_quote!(str_len(#r)) } else { parse_quote!(str_split_at(#r, #a)) };
            }
            Expr::MethodCall(m) => {
                if m.method == "into_owned" && m.args.is_empty() {
                    let r = &m.receiver;
                    *e = parse_quote!(cow_into_owned(#r));
                } else if let Expr::Path(p) = &*m.receiver {
                    if p.path.get_ident().map_or(false, |i| self.cows.contains(&i.to_string())) {
                        let b = &m.receiver;
                        m.receiver = Box::new(parse_quote!(cow_ref(&#b)));
                    }
                }
            }
            _ => {}
        }
    }
}

fn range_arg(a: &mut Expr) {
    if let Expr::Paren(p) = a {
        range_arg(&mut p.expr);
        return;
    }
    if let Expr::Range(r) = a {
        let s = match &r.start {
            Some(x) => quote!(vbound_incl(#x)),
            None => quote!(vbound_none()),
        };
        let t = match (&r.end, &r.limits) {
            (Some(x), RangeLimits::HalfOpen(_)) => quote!(vbound_excl(#x)),
            (Some(x), RangeLimits::Closed(_)) => quote!(vbound_incl(#x)),
            (None, _) => quote!(vbound_none()),
        };
        *a = parse_quote!(VRange::new(#s, #t));
    }
}

impl<'w> Rw<'w> {
    fn desugar_method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let r = &m.receiver;
        let args: Vec<&Expr> = m.args.iter().collect();
        // iterator sums / all / any over slices
        if name == "sum" && args.is_empty() {
            if let Expr::MethodCall(mm) = &**r {
                if mm.method == "map" && mm.args.len() == 1 && is_iter_chain(&mm.receiver) {
                    let it = &mm.receiver;
                    let x = self.fresh("item");
                    let f = apply(&mm.args[0], quote!(#x))?;
                    let s = self.fresh("acc");
                    return Some(parse_quote!({
                        let mut #s: usize = 0;
                        for #x in #it { #s += #f; }
                        #s
                    }));
                }
            }
            return None;
        }
        if (name == "all" || name == "any") && args.len() == 1 && is_iter_chain(r) {
            let x = self.fresh("item");
            let f = apply(args[0], quote!(#x))?;
            let s = self.fresh("acc");
            return Some(if name == "all" {
                parse_quote!({
                    let mut #s: bool = true;
                    for #x in #r { if !#f { #s = false; break; } }
                    #s
                })
            } else {
                parse_quote!({
                    let mut #s: bool = false;
                    for #x in #r { if #f { #s = true; break; } }
                    #s
                })
            });
        }
        if name == "count" && args.is_empty() {
            if let Expr::MethodCall(mm) = &**r {
                if mm.method == "encode_utf16" {
                    let b = &mm.receiver;
                    return Some(parse_quote!(str_utf16_count(&#b)));
                }
            }
            return None;
        }
        if name == "binary_search_by_key" && args.len() == 2 {
            if let (Expr::Reference(k), Expr::Path(p)) = (args[0], args[1]) {
                let ps = p.path.to_token_stream().to_string().replace(' ', "");
                if ps == "Mark::r#type" {
                    let k = &k.expr;
                    return Some(parse_quote!(marks_binary_search(&#r, #k)));
                }
            }
            return None;
        }
        if ["sort_by_key", "sort_unstable_by_key", "dedup_by_key"].contains(&name.as_str()) && args.len() == 1 {
            let by_type = match args[0] {
                Expr::Path(p) => p.path.to_token_stream().to_string().replace(' ', "") == "Mark::r#type",
                Expr::Closure(c) if c.inputs.len() == 1 => {
                    let x = c.inputs[0].to_token_stream().to_string();
                    c.body.to_token_stream().to_string().replace(' ', "") == format!("{}.r#type()", x)
                }
                _ => false,
            };
            if by_type {
                let f = format_ident!("marks_{}", name);
                return Some(parse_quote!(#f(&mut #r)));
            }
            return None;
        }
        if name == "unwrap_or_default" && args.is_empty() {
            if let Expr::MethodCall(mm) = &**r {
                if mm.method == "map" && mm.args.len() == 1 {
                    if mm.args[0].to_token_stream().to_string().replace(' ', "") == "Cow::Borrowed" {
                        let b = &mm.receiver;
                        let x = self.fresh("x");
                        return Some(parse_quote!(match #b {
                            Some(#x) => Cow::Borrowed(#x),
                            None => cow_default_markset(),
                        }));
                    }
                }
            }
            return None;
        }
        if is_iter_chain(r) {
            return None;
        }
        if !["map", "and_then", "filter", "map_or", "map_or_else", "is_some_and", "unwrap_or_else", "ok_or_else"]
            .contains(&name.as_str())
        {
            return None;
        }
        let x = self.fresh("x");
        match (name.as_str(), args.len()) {
            ("map", 1) => {
                let f = apply(args[0], quote!(#x))?;
                Some(parse_quote!(match #r { Some(#x) => Some(#f), None => None }))
            }
            ("and_then", 1) => {
                let f = apply(args[0], quote!(#x))?;
                Some(parse_quote!(match #r { Some(#x) => #f, None => None }))
            }
            ("filter", 1) => {
                let f = apply(args[0], quote!(&#x))?;
                Some(parse_quote!(match #r { Some(#x) => if #f { Some(#x) } else { None }, None => None }))
            }
            ("map_or", 2) => {
                let d = args[0];
                let f = apply(args[1], quote!(#x))?;
                Some(parse_quote!(match #r { Some(#x) => #f, None => #d }))
            }
            ("map_or_else", 2) => {
                let f = apply(args[1], quote!(#x))?;
                if let Expr::Closure(c) = args[0] {
                    let d = &c.body;
                    return Some(parse_quote!(match #r { Some(#x) => #f, None => #d }));
                }
                None
            }
            ("is_some_and", 1) => {
                let f = apply(args[0], quote!(#x))?;
                Some(parse_quote!(match #r { Some(#x) => #f, None => false }))
            }
            ("unwrap_or_else", 1) => {
                if let Expr::Closure(c) = args[0] {
                    if c.inputs.is_empty() {
                        let d = &c.body;
                        return Some(parse_quote!(match #r { Some(#x) => #x, None => #d }));
                    }
                }
                None
            }
            ("ok_or_else", 1) => {
                if let Expr::Closure(c) = args[0] {
                    if c.inputs.is_empty() {
                        let d = &c.body;
                        return Some(parse_quote!(match #r { Some(#x) => Ok(#x), None => Err(#d) }));
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn desugar_for(&mut self, e: &mut Expr) {
        let f = if let Expr::ForLoop(f) = e { f.clone() } else { return };
        self.loops += 1;
        let k = self.loops;
        let idx = format_ident!("idx{}", k);
        let seq = format_ident!("seq{}", k);
        let hi = format_ident!("hi{}", k);
        let lo = format_ident!("lo{}", k);
        let live = format_ident!("live{}", k);
        let k = proc_macro2::Literal::usize_unsuffixed(k);
        let body = &f.body.stmts;
        let pat = &f.pat;
        let label = &f.label;
        fn strip(e: &Expr) -> &Expr {
            match e {
                Expr::Paren(p) => strip(&p.expr),
                Expr::Group(p) => strip(&p.expr),
                e => e,
            }
        }
        let it = strip(&f.expr);
        let mut out: Option<Expr> = None;
        if let Expr::Range(r) = it {
            if let (Some(a), Some(b)) = (&r.start, &r.end) {
                out = Some(match r.limits {
                    RangeLimits::HalfOpen(_) => parse_quote!({
                        let mut #idx: usize = #a;
                        let #hi: usize = #b;
                        #label while #idx < #hi {
                            vc_loop!(#k);
                            let #pat = #idx;
                            #idx += 1;
                            #(#body)*
                        }
                    }),
                    RangeLimits::Closed(_) => parse_quote!({
                        let mut #idx: usize = #a;
                        let #hi: usize = #b;
                        let mut #live: bool = #idx <= #hi;
                        #label while #live {
                            vc_loop!(#k);
                            let #pat = #idx;
                            if #idx == #hi { #live = false; } else { #idx += 1; }
                            #(#body)*
                        }
                    }),
                });
            }
        } else if let Expr::MethodCall(m) = it {
            if m.method == "rev" {
                if let Expr::Range(r) = strip(&m.receiver) {
                    if let (Some(a), Some(b)) = (&r.start, &r.end) {
                        out = Some(match r.limits {
                            RangeLimits::HalfOpen(_) => parse_quote!({
                                let #lo: usize = #a;
                                let mut #idx: usize = #b;
                                #label while #idx > #lo {
                                    vc_loop!(#k);
                                    #idx -= 1;
                                    let #pat = #idx;
                                    #(#body)*
                                }
                            }),
                            RangeLimits::Closed(_) => parse_quote!({
                                let #lo: usize = #a;
                                let mut #idx: usize = #b;
                                let mut #live: bool = #lo <= #idx;
                                #label while #live {
                                    vc_loop!(#k);
                                    let #pat = #idx;
                                    if #idx == #lo { #live = false; } else { #idx -= 1; }
                                    #(#body)*
                                }
                            }),
                        });
                    }
                }
            } else if m.method == "enumerate" {
                if let Expr::MethodCall(mm) = strip(&m.receiver) {
                    if mm.method == "iter" {
                        let r = &mm.receiver;
                        if let Pat::Tuple(t) = &**pat {
                            if t.elems.len() == 2 {
                                let (p1, p2) = (&t.elems[0], &t.elems[1]);
                                let p1 = match p1 {
                                    Pat::Wild(_) => quote!(),
                                    p => quote!(let #p = #idx;),
                                };
                                out = Some(parse_quote!({
                                    let #seq = &(#r)[..];
                                    let mut #idx: usize = 0;
                                    #label while #idx < #seq.len() {
                                        vc_loop!(#k);
                                        #p1
                                        let #p2 = &#seq[#idx];
                                        #idx += 1;
                                        #(#body)*
                                    }
                                }));
                            }
                        }
                    }
                }
            } else if m.method == "chars" {
                let r = &m.receiver;
                out = Some(parse_quote!({
                    let mut #seq = (#r).chars();
                    #label loop {
                        vc_loop!(#k);
                        match #seq.next() {
                            Some(#pat) => { #(#body)* }
                            None => break,
                        }
                    }
                }));
            } else if m.method == "iter" {
                let r = &m.receiver;
                out = Some(parse_quote!({
                    let #seq = &(#r)[..];
                    let mut #idx: usize = 0;
                    #label while #idx < #seq.len() {
                        vc_loop!(#k);
                        let #pat = &#seq[#idx];
                        #idx += 1;
                        #(#body)*
                    }
                }));
            } else if m.method == "into_iter" {
                out = Some(parse_quote!({
                    let #seq = #m;
                    let mut #idx: usize = 0;
                    #label while #idx < #seq.len() {
                        vc_loop!(#k);
                        let #pat = &#seq[#idx];
                        #idx += 1;
                        #(#body)*
                    }
                }));
            }
        }
        if let Expr::Path(p) = it {
            if p.path.get_ident().map_or(false, |i| self.owned.contains(&i.to_string())) {
                // the elements are moved out one by one
                out = Some(parse_quote!({
                    let #seq = vowned(#it);
                    let mut #idx: usize = 0;
                    #label while #idx < #seq.len() {
                        vc_loop!(#k);
                        let #pat = vec_move(&#seq, #idx);
                        #idx += 1;
                        #(#body)*
                    }
                }));
            }
        }
        let out = out.unwrap_or_else(|| {
            let it = match it {
                Expr::Reference(r) => match &*r.expr {
                    Expr::Index(_) => quote!(#r),
                    inner => quote!(&(#inner)[..]),
                },
                o => quote!(#o),
            };
            parse_quote!({
                let #seq = #it;
                let mut #idx: usize = 0;
                #label while #idx < #seq.len() {
                    vc_loop!(#k);
                    let #pat = &#seq[#idx];
                    #idx += 1;
                    #(#body)*
                }
            })
        });
        *e = out;
        // now visit the pieces, without treating the generated loop as a new one
        if let Expr::Block(b) = e {
            for s in b.block.stmts.iter_mut() {
                match s {
                    Stmt::Expr(Expr::While(w), _) => {
                        self.visit_expr_mut(&mut w.cond);
                        for s in w.body.stmts.iter_mut() {
                            self.visit_stmt_mut(s);
                        }
                    }
                    Stmt::Expr(Expr::Loop(w), _) => {
                        for s in w.body.stmts.iter_mut() {
                            self.visit_stmt_mut(s);
                        }
                    }
                    s => self.visit_stmt_mut(s),
                }
            }
        }
    }
}

fn bound_names(b: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> Vec<String> {
    b.iter()
        .filter_map(|b| match b {
            TypeParamBound::Trait(t) => {
                t.path.segments.last().map(|s| s.ident.to_string())
            }
            _ => None,
        })
        .collect()
}

/// Drop schema parameters, monomorphise range parameters.
fn fix_generics(g: &mut Generics, rw: &mut Rw) {
    let mut keep: punctuated::Punctuated<GenericParam, Token![,]> = Default::default();
    // bounds given in the where clause
    let mut wb: HashMap<String, Vec<String>> = HashMap::new();
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if let Type::Path(tp) = &t.bounded_ty {
                    if let Some(i) = tp.path.get_ident() {
                        wb.entry(i.to_string()).or_default().extend(bound_names(&t.bounds));
                    }
                }
            }
        }
    }
    let mut dropped: HashSet<String> = HashSet::new();
    for p in g.params.iter() {
        match p {
            GenericParam::Type(t) => {
                let n = t.ident.to_string();
                let mut bs = bound_names(&t.bounds);
                bs.extend(wb.get(&n).cloned().unwrap_or_default());
                if bs.iter().any(|b| b == "Schema") || n == "S" {
                    dropped.insert(n);
                } else if bs.iter().any(|b| b == "RangeBounds") {
                    rw.range_params.insert(n.clone());
                    dropped.insert(n);
                } else if bs.iter().any(|b| b == "Node") {
                    rw.mono.insert(n.clone(), rw.w.assoc["Node"].clone());
                    dropped.insert(n);
                } else if bs.iter().any(|b| b == "Into") {
                    // every `A: Into<Node>` in the extracted functions is used at A = Node
                    rw.mono.insert(n.clone(), rw.w.assoc["Node"].clone());
                    dropped.insert(n);
                } else {
                    let mut t = t.clone();
                    if !t.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(x) if x.path.segments.last().unwrap().ident.to_string().starts_with("Fn") || x.path.is_ident("VisitFn"))) {
                        t.bounds = t
                            .bounds
                            .iter()
                            .filter(|b| matches!(b, TypeParamBound::Trait(x) if x.path.is_ident("Clone")))
                            .cloned()
                            .collect();
                    }
                    keep.push(GenericParam::Type(t));
                }
            }
            p => keep.push(p.clone()),
        }
    }
    g.params = keep;
    if let Some(w) = &mut g.where_clause {
        w.predicates = w
            .predicates
            .iter()
            .filter(|p| {
                if let WherePredicate::Type(t) = p {
                    if let Type::Path(tp) = &t.bounded_ty {
                        if let Some(i) = tp.path.get_ident() {
                            return !dropped.contains(&i.to_string());
                        }
                    }
                }
                true
            })
            .cloned()
            .collect();
        if w.predicates.is_empty() {
            g.where_clause = None;
        }
    }
    if g.params.is_empty() {
        g.lt_token = None;
        g.gt_token = None;
    }
}

/// `FnMut(&Node, usize) -> bool` becomes the trait `VisitFn` of the contracts; its method is the call
fn visitor_bounds(bs: &mut punctuated::Punctuated<TypeParamBound, Token![+]>) -> bool {
    let mut hit = false;
    for b in bs.iter_mut() {
        if let TypeParamBound::Trait(t) = b {
            let last = t.path.segments.last().unwrap();
            if last.ident == "FnMut" {
                if let PathArguments::Parenthesized(a) = &last.arguments {
                    if a.inputs.len() == 2 {
                        t.path = parse_quote!(VisitFn);
                        t.lifetimes = None;
                        hit = true;
                    }
                }
            }
        }
    }
    hit
}

/// the type parameters that are visitors
fn visitor_params(g: &mut Generics) -> HashSet<String> {
    let mut out = HashSet::new();
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            if visitor_bounds(&mut t.bounds) {
                out.insert(t.ident.to_string());
            }
        }
    }
    if let Some(w) = &mut g.where_clause {
        for p in w.predicates.iter_mut() {
            if let WherePredicate::Type(t) = p {
                if visitor_bounds(&mut t.bounds) {
                    out.insert(t.bounded_ty.to_token_stream().to_string());
                }
            }
        }
    }
    out
}

/// `f(a, b)` for a visitor `f` becomes `f.call(a, b)`
struct CallVisitor(HashSet<String>);
impl VisitMut for CallVisitor {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let mut fun = &*c.func;
            while let Expr::Paren(p) = fun {
                fun = &p.expr;
            }
            if let Expr::Unary(u) = fun {
                if matches!(u.op, UnOp::Deref(_)) {
                    fun = &u.expr;
                }
            }
            if let Expr::Path(p) = fun {
                if p.path.get_ident().map_or(false, |i| self.0.contains(&i.to_string())) {
                    let args = &c.args;
                    *e = parse_quote!(#p.call(#args));
                }
            }
        }
    }
}

thread_local! {
    /// closures that became structures: (id, items)
    static VISITS: std::cell::RefCell<Vec<(String, TokenStream)>> = Default::default();
}

/// Closures of two parameters that carry state become a structure of what they capture (parameters
/// of the function), with the body as a method.
struct LiftVisitor<'a, 'w> {
    w: &'w World,
    outer: &'a mut Rw<'w>,
    id: &'a str,
    params: Vec<(Ident, bool, Type)>,
    n: usize,
    whole: String,
}
impl<'a, 'w> LiftVisitor<'a, 'w> {
    fn lift(&mut self, c: &ExprClosure) -> Option<Expr> {
        #[derive(Default)]
        struct Uses {
            used: BTreeMap<String, usize>,
            bound: HashSet<String>,
            macros: bool,
        }
        impl<'b> visit::Visit<'b> for Uses {
            fn visit_path(&mut self, p: &'b Path) {
                if let Some(i) = p.get_ident() {
                    *self.used.entry(i.to_string()).or_default() += 1;
                }
                visit::visit_path(self, p);
            }
            fn visit_pat_ident(&mut self, p: &'b PatIdent) {
                self.bound.insert(p.ident.to_string());
                visit::visit_pat_ident(self, p);
            }
            fn visit_macro(&mut self, _: &'b Macro) {
                self.macros = true;
            }
        }
        let mut u = Uses::default();
        visit::Visit::visit_expr(&mut u, &c.body);
        if u.macros || u.used.contains_key("self") {
            return None;
        }
        let mut names = vec![];
        for p in &c.inputs {
            match p {
                Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() => names.push(i.ident.clone()),
                Pat::Type(t) => match &*t.pat {
                    Pat::Ident(i) => names.push(i.ident.clone()),
                    _ => return None,
                },
                Pat::Wild(_) => names.push(format_ident!("_arg{}", names.len())),
                _ => return None,
            }
        }
        if names.len() != 2 {
            return None;
        }
        self.n += 1;
        let sname = format_ident!("VClo_{}_{}", self.id.split("::").last().unwrap(), self.n);
        let mname = format_ident!("visit{}", self.n);
        let (mut fields, mut inits, mut pro) = (TokenStream::new(), TokenStream::new(), vec![]);
        let mut by_self: HashSet<String> = HashSet::new();
        for (p, is_mut, t) in &self.params {
            let n = p.to_string();
            if !u.used.contains_key(&n) || names.iter().any(|x| *x == n) {
                continue;
            }
            // used before it is bound in the body: too intricate
            struct L;
            impl VisitMut for L {
                fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
                    t.lifetime = Some(parse_quote!('a));
                    visit_mut::visit_type_reference_mut(self, t);
                }
            }
            let mut ty = t.clone();
            self.outer.visit_type_mut(&mut ty);
            L.visit_type_mut(&mut ty);
            fields.extend(quote!(pub #p: #ty,));
            inits.extend(quote!(#p: #p,));
            if *is_mut {
                if u.bound.contains(&n) {
                    return None;
                }
                if c.capture.is_none() {
                    // captured by reference: the same as by value if nobody else looks at it
                    let all = self.whole.split_whitespace().filter(|x| *x == n).count();
                    let here = c.to_token_stream().to_string().split_whitespace().filter(|x| *x == n).count();
                    if all != here {
                        return None;
                    }
                }
                by_self.insert(n);
            } else if matches!(t, Type::Reference(r) if r.mutability.is_some()) {
                pro.push(quote!(let #p = &mut *self.#p;));
            } else {
                let s = t.to_token_stream().to_string().replace(' ', "");
                if !(s == "usize" || s == "bool" || s.starts_with('&') || s.starts_with("Option<&") && !s.contains("mut")) {
                    return None;
                }
                pro.push(quote!(let #p = self.#p;));
            }
        }
        struct S(HashSet<String>);
        impl VisitMut for S {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Path(p) = e {
                    if let Some(i) = p.path.get_ident() {
                        if self.0.contains(&i.to_string()) {
                            let i = i.clone();
                            *e = parse_quote!(self.#i);
                        }
                    }
                }
            }
            fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
                f.colon_token = Some(Default::default());
                self.visit_expr_mut(&mut f.expr);
            }
        }
        let mut body = (*c.body).clone();
        S(by_self).visit_expr_mut(&mut body);
        let (a, b) = (&names[0], &names[1]);
        let sig: Signature = parse_quote!(fn #mname(&mut self, #a: &MarkdownNode, #b: usize) -> bool);
        let stmts: Vec<Stmt> = match body {
            Expr::Block(b) if b.label.is_none() => b.block.stmts,
            e => vec![Stmt::Expr(e, None)],
        };
        let blk: Block = parse_quote!({ #(#pro)* #(#stmts)* });
        let id = format!("{}::{}", self.id, mname);
        let mut rw = Rw::new(self.w);
        rw.mono = self.outer.mono.clone();
        let m = do_fn(self.w, &mut rw, &sig, &blk, &id, false);
        let items = quote! {
            pub struct #sname<'a> { #fields pub vc_life: core::marker::PhantomData<&'a ()> }
            impl<'a> #sname<'a> { #m }
        };
        VISITS.with(|v| v.borrow_mut().push((id, items)));
        Some(parse_quote!(#sname { #inits vc_life: core::marker::PhantomData }))
    }
}
impl<'a, 'w> VisitMut for LiftVisitor<'a, 'w> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(c) = e {
            if c.inputs.len() == 2 {
                if let Some(n) = self.lift(c) {
                    *e = n;
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn do_fn(
    w: &World,
    outer: &mut Rw,
    sig: &Signature,
    block: &Block,
    id: &str,
    is_trait_impl: bool,
) -> TokenStream {
    let mut rw = Rw::new(w);
    rw.mono = outer.mono.clone();
    rw.range_params = outer.range_params.clone();
    rw.self_ty = outer.self_ty.clone();
    let mut sig = sig.clone();
    let mut block = block.clone();
    let vis_params = visitor_params(&mut sig.generics);
    let mut vis_names = HashSet::new();
    let mut params = vec![];
    for i in sig.inputs.iter() {
        if let FnArg::Typed(t) = i {
            if let Pat::Ident(pi) = &*t.pat {
                let base = match &*t.ty {
                    Type::Reference(r) => &*r.elem,
                    o => o,
                };
                if vis_params.contains(&base.to_token_stream().to_string()) {
                    vis_names.insert(pi.ident.to_string());
                } else {
                    params.push((pi.ident.clone(), pi.mutability.is_some(), (*t.ty).clone()));
                }
            }
        }
    }
    if !vis_names.is_empty() {
        CallVisitor(vis_names).visit_block_mut(&mut block);
    }
    let whole = block.to_token_stream().to_string();
    LiftVisitor { w, outer: &mut rw, id, params, n: 0, whole }.visit_block_mut(&mut block);
    fix_generics(&mut sig.generics, &mut rw);
    for i in sig.inputs.iter() {
        if let FnArg::Typed(t) = i {
            if let (Pat::Ident(pi), Type::Reference(tr)) = (&*t.pat, &*t.ty) {
                if let Type::Path(tp) = &*tr.elem {
                    if tp.path.is_ident("str") {
                        rw.strs.insert(pi.ident.to_string());
                    }
                }
            }
            if let (Pat::Ident(pi), Type::Path(tp)) = (&*t.pat, &*t.ty) {
                if tp.path.segments.last().map_or(false, |s| s.ident == "Cow") {
                    rw.cows.insert(pi.ident.to_string());
                }
                if tp.path.segments.last().map_or(false, |s| s.ident == "Vec" || s.ident == "Parser") {
                    rw.owned.insert(pi.ident.to_string());
                }
            }
        }
    }
    rw.result_fn = matches!(&sig.output, ReturnType::Type(_, t)
        if matches!(&**t, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident.to_string().ends_with("Result"))));
    rw.visit_signature_mut(&mut sig);
    rw.visit_block_mut(&mut block);
    // parameter patterns: (a,): (A,)  ->  arg0, let (a,) = arg0
    let mut pre: Vec<Stmt> = vec![];
    for (n, i) in sig.inputs.iter_mut().enumerate() {
        match i {
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(pi) if pi.by_ref.is_none() => {
                    if pi.mutability.is_some() {
                        let name = &pi.ident;
                        let nm = format_ident!("{}_p", name);
                        pre.push(parse_quote!(let mut #name = #nm;));
                        t.pat = parse_quote!(#nm);
                    }
                }
                Pat::Wild(_) => {
                    let name = format_ident!("_arg{}", n);
                    t.pat = parse_quote!(#name);
                }
                p => {
                    let name = format_ident!("arg{}", n);
                    let p = p.clone();
                    pre.push(parse_quote!(let #p = #name;));
                    t.pat = parse_quote!(#name);
                }
            },
            FnArg::Receiver(_) => {}
        }
    }
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            // mut self
            r.mutability = None;
            struct S2;
            impl VisitMut for S2 {
                fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                    if p.path.is_ident("self") {
                        *p = parse_quote!(self_);
                    }
                }
            }
            S2.visit_block_mut(&mut block);
            pre.push(parse_quote!(let mut self_ = self;));
        }
    }
    if let ReturnType::Type(_, t) = &mut sig.output {
        let tt = t.clone();
        **t = parse_quote!(VcRet<#tt>);
    }
    let stmts = &block.stmts;
    let vis = if is_trait_impl { quote!() } else { quote!(pub) };
    // elided lifetimes in paths: Cow<Self> -> Cow<'_, Self>
    quote! {
        #vis #sig {
            vc_fn!(#id);
            #(#pre)*
            #(#stmts)*
        }
    }
}

fn ty_name(t: &Type) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn main() {
    let root = std::env::args().nth(1).expect("src dir");
    let skip: HashSet<String> = std::env::args()
        .nth(2)
        .map(|f| {
            std::fs::read_to_string(f)
                .unwrap()
                .lines()
                .map(|l| l.trim().to_string())
                .filter(|l| !l.is_empty() && !l.starts_with('#'))
                .collect()
        })
        .unwrap_or_default();
    let files = [
        "util.rs",
        "model/util.rs",
        "model/content.rs",
        "model/marks.rs",
        "model/schema.rs",
        "model/node.rs",
        "model/fragment.rs",
        "model/resolved_pos.rs",
        "model/replace.rs",
        "markdown/attrs.rs",
        "markdown/content.rs",
        "markdown/schema.rs",
        "markdown/mod.rs",
        "transform/util.rs",
        "transform/step.rs",
        "transform/mark_step.rs",
        "transform/replace_step.rs",
        "transform/mod.rs",
    ];
    // any other source file that exists is reported; new modules are picked up
    let mut all: Vec<String> = files.iter().map(|s| s.to_string()).collect();
    for dir in ["", "model/", "markdown/", "transform/"] {
        if let Ok(rd) = std::fs::read_dir(format!("{}/{}", root, dir)) {
            let mut v: Vec<String> = rd
                .filter_map(|e| e.ok())
                .map(|e| format!("{}{}", dir, e.file_name().to_string_lossy()))
                .filter(|f| f.ends_with(".rs") && !all.contains(f))
                .collect();
            v.sort();
            for f in v {
                if f == "de.rs" && std::env::var("VC_SERDE").is_ok() {
                    all.push(f);
                } else if f.ends_with("_markdown.rs") && std::env::var("VC_MD").is_ok() {
                    all.push(f);
                } else if [
                    "lib.rs",
                    "de.rs",
                    "model/mod.rs",
                    "markdown/helper.rs",
                    "markdown/from_markdown.rs",
                    "markdown/to_markdown.rs",
                ]
                .contains(&f.as_str())
                {
                    eprintln!("DROP file {} outside the extracted set", f);
                } else {
                    all.push(f);
                }
            }
        }
    }
    let mut parsed: Vec<(String, File)> = vec![];
    for f in &all {
        let p = format!("{}/{}", root, f);
        match std::fs::read_to_string(&p) {
            Ok(src) => match parse_file(&src) {
                Ok(a) => parsed.push((f.clone(), a)),
                Err(e) => {
                    eprintln!("ERROR parse {}: {}", p, e);
                    std::process::exit(3)
                }
            },
            Err(_) => eprintln!("DROP file {} missing", f),
        }
    }
    if let Some(f) = std::env::args().nth(3) {
        let known: HashSet<String> = std::fs::read_to_string(f).unwrap().lines().map(|l| l.trim().to_string()).chain(skip.iter().cloned()).collect();
        inline::run(&mut parsed, &known, &|a| is_cfg_off(a));
    }
    let mut w = World::default();
    // pass 1
    for (f, file) in &parsed {
        for it in &file.items {
            match it {
                Item::Impl(im) => {
                    if let Some((_, tr, _)) = &im.trait_ {
                        if tr.segments.last().unwrap().ident == "Schema" {
                            for ii in &im.items {
                                if let ImplItem::Type(t) = ii {
                                    w.assoc.insert(t.ident.to_string(), ty_name(&t.ty));
                                }
                            }
                        }
                    }
                }
                Item::Trait(t) => {
                    for ti in &t.items {
                        if let TraitItem::Fn(m) = ti {
                            if m.default.is_some() {
                                w.provided
                                    .entry(t.ident.to_string())
                                    .or_default()
                                    .push((m.clone(), f.clone()));
                            }
                        }
                    }
                }
                Item::Fn(x) if f == "model/util.rs" => {
                    w.util_fns.insert(x.sig.ident.to_string());
                }
                Item::Struct(s) => {
                    if attr_list(&s.attrs).contains("Copy") {
                        w.copy_types.insert(s.ident.to_string());
                    }
                }
                Item::Enum(s) => {
                    if attr_list(&s.attrs).contains("Copy") {
                        w.copy_types.insert(s.ident.to_string());
                    }
                }
                _ => {}
            }
        }
    }
    if let Ok(f) = std::env::var("VC_SERDE") {
        let (text, errors) = jser::generate(&w, &parsed, &["MarkdownNode", "Slice", "Step"]);
        std::fs::write(f, text).unwrap();
        for e in errors {
            eprintln!("SERDE {}", e);
        }
        jser::concrete(&mut parsed, true);
    } else if std::env::var("VC_SETS").is_ok() {
        jser::concrete(&mut parsed, false);
    }
    let mut out = TokenStream::new();
    let mut ids: BTreeMap<String, String> = BTreeMap::new();
    let emit_id = |id: String, f: &str, ids: &mut BTreeMap<String, String>| -> bool {
        if skip.contains(&id) {
            eprintln!("DROP fn {} in {}: listed as outside the extraction", id, f);
            return false;
        }
        if ids.contains_key(&id) {
            eprintln!("ERROR duplicate id {}", id);
        }
        ids.insert(id, f.to_string());
        true
    };
    for (f, file) in &parsed {
        for it in &file.items {
            let attrs: &[Attribute] = match it {
                Item::Fn(x) => &x.attrs,
                Item::Mod(x) => &x.attrs,
                Item::Struct(x) => &x.attrs,
                Item::Enum(x) => &x.attrs,
                Item::Impl(x) => &x.attrs,
                Item::Trait(x) => &x.attrs,
                Item::Type(x) => &x.attrs,
                Item::Use(x) => &x.attrs,
                Item::Const(x) => &x.attrs,
                _ => &[],
            };
            if is_cfg_off(attrs) {
                continue;
            }
            match it {
                Item::Use(_) | Item::Mod(_) => {}
                Item::Trait(_) => {}
                Item::Const(c) => {
                    let mut c = c.clone();
                    c.attrs.clear();
                    let mut rw = Rw::new(&w);
                    rw.visit_item_const_mut(&mut c);
                    c.vis = parse_quote!(pub);
                    out.extend(c.to_token_stream());
                }
                Item::Type(t) => {
                    let mut t = t.clone();
                    t.attrs.clear();
                    t.vis = parse_quote!(pub);
                    let mut rw = Rw::new(&w);
                    fix_generics(&mut t.generics, &mut rw);
                    rw.visit_item_type_mut(&mut t);
                    out.extend(t.to_token_stream());
                }
                Item::Fn(x) => {
                    let n = x.sig.ident.to_string();
                    let n = if f == "model/util.rs" { format!("util_{}", n) } else { n };
                    if !emit_id(n.clone(), f, &mut ids) {
                        continue;
                    }
                    let mut sig = x.sig.clone();
                    sig.ident = ident(&n);
                    let mut rw = Rw::new(&w);
                    out.extend(do_fn(&w, &mut rw, &sig, &x.block, &n, false));
                }
                Item::Struct(s) => {
                    let d = attr_list(&s.attrs);
                    let mut s = s.clone();
                    let mut rw = Rw::new(&w);
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    fix_generics(&mut s.generics, &mut rw);
                    for fl in s.fields.iter_mut() {
                        custom_field(&s.ident, &fl.attrs);
                        fl.attrs.clear();
                        fl.vis = parse_quote!(pub);
                    }
                    rw.visit_fields_mut(&mut s.fields);
                    let mut dflt = TokenStream::new();
                    if d.contains("Default") {
                        let mut fs = TokenStream::new();
                        for fl in s.fields.iter() {
                            let n = &fl.ident;
                            let t = &fl.ty;
                            let ts = ty_name(t);
                            let v = if ts.starts_with("Vec<") {
                                quote!(Vec::new())
                            } else if ts == "usize" {
                                quote!(0)
                            } else if ts == "bool" {
                                quote!(false)
                            } else if ts == "String" {
                                quote!(String::new())
                            } else {
                                quote!(<#t>::default())
                            };
                            fs.extend(quote!(#n: #v,));
                        }
                        let name = &s.ident;
                        let id = format!("{}::default", name);
                        if s.generics.params.is_empty() && emit_id(id.clone(), f, &mut ids) {
                            dflt = quote!(impl #name { pub fn default() -> VcRet<Self> { vc_fn!(#id); #name { #fs } } });
                        }
                    }
                    out.extend(s.to_token_stream());
                    out.extend(dflt);
                    derives(&mut out, &s.ident, &s.generics, &d, false);
                }
                Item::Enum(s) => {
                    let d = attr_list(&s.attrs);
                    let mut s = s.clone();
                    let mut rw = Rw::new(&w);
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    fix_generics(&mut s.generics, &mut rw);
                    let mut froms = TokenStream::new();
                    for v in s.variants.iter_mut() {
                        custom_field(&s.ident, &v.attrs);
                        v.attrs.clear();
                        for fl in v.fields.iter_mut() {
                            custom_field(&s.ident, &fl.attrs);
                            if fl.attrs.iter().any(|a| a.path().is_ident("from")) {
                                let mut ty = fl.ty.clone();
                                let mut rw = Rw::new(&w);
                                rw.visit_type_mut(&mut ty);
                                let (e, vn) = (&s.ident, &v.ident);
                                froms.extend(quote! {
                                    vc_from!{#e, #vn, #ty}
                                });
                            }
                            fl.attrs.clear();
                        }
                    }
                    for v in s.variants.iter_mut() {
                        rw.visit_fields_mut(&mut v.fields);
                    }
                    let clike = s.variants.iter().all(|v| v.fields.is_empty());
                    out.extend(s.to_token_stream());
                    derives(&mut out, &s.ident, &s.generics, &d, clike);
                    if clike {
                        let mut arms = TokenStream::new();
                        for (i, v) in s.variants.iter().enumerate() {
                            let n = &v.ident;
                            let e = &s.ident;
                            let k = proc_macro2::Literal::usize_unsuffixed(i);
                            arms.extend(quote!(#e::#n => #k,));
                        }
                        let e = &s.ident;
                        out.extend(quote!(vc_rank!{#e, #arms}));
                    }
                    out.extend(froms);
                }
                Item::Impl(im) => {
                    let mut rw = Rw::new(&w);
                    let mut im = im.clone();
                    fix_generics(&mut im.generics, &mut rw);
                    rw.visit_type_mut(&mut im.self_ty);
                    let selfname = ty_name(&im.self_ty);
                    let selfid: String = selfname
                        .split('<')
                        .next()
                        .unwrap()
                        .trim_start_matches('&')
                        .trim_start_matches("'a")
                        .to_string();
                    rw.self_ty = selfid.clone();
                    let tr = im.trait_.clone().map(|(_, mut p, _)| {
                        rw.visit_path_mut(&mut p);
                        p
                    });
                    let trname = tr.as_ref().map(|p| p.segments.last().unwrap().ident.to_string());
                    let (mut body, mut as_trait) = (TokenStream::new(), false);
                    match trname.as_deref() {
                        None => {}
                        Some("Serialize") | Some("Deserialize") | Some("Debug") | Some("Display")
                        | Some("MarkType") | Some("Schema") => {
                            eprintln!("DROP impl {} for {} in {}", trname.unwrap(), selfname, f);
                            continue;
                        }
                        Some("From") if selfid == "Fragment" => {}
                        Some("From") | Some("Clone") | Some("PartialEq") | Some("TryFrom") => as_trait = true,
                        Some("Default") | Some("IntoIterator") => {}
                        Some("Node") | Some("Mark") | Some("NodeType") | Some("ContentMatch")
                        | Some("StepKind") => {}
                        Some(o) => {
                            if !["Hash", "Eq", "Ord", "PartialOrd", "Copy"].contains(&o) {
                                // an unknown trait: its methods become inherent ones
                                eprintln!("NOTE impl {} for {} in {} made inherent", o, selfname, f);
                            } else {
                                eprintln!("DROP impl {} for {} in {}", o, selfname, f);
                                if o == "Ord" || o == "PartialOrd" {
                                    eprintln!("CUSTOM {} impl {}", selfname, o);
                                }
                                continue;
                            }
                        }
                    }
                    if !as_trait {
                        // `Self::Item` in a trait whose functions become inherent ones
                        let tys: HashMap<String, Type> = im.items.iter().filter_map(|i| if let ImplItem::Type(t) = i { Some((t.ident.to_string(), t.ty.clone())) } else { None }).collect();
                        struct Own(HashMap<String, Type>);
                        impl VisitMut for Own {
                            fn visit_type_mut(&mut self, t: &mut Type) {
                                visit_mut::visit_type_mut(self, t);
                                if let Type::Path(p) = t {
                                    let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                                    if p.qself.is_none() && seg.len() == 2 && seg[0] == "Self" {
                                        if let Some(n) = self.0.get(&seg[1]) {
                                            *t = n.clone();
                                        }
                                    }
                                }
                            }
                        }
                        let mut own = Own(tys);
                        for ii in im.items.iter_mut() {
                            if let ImplItem::Fn(m) = ii {
                                own.visit_signature_mut(&mut m.sig);
                            }
                        }
                    }
                    let mut have: HashSet<String> = HashSet::new();
                    let argid = if as_trait || trname.as_deref() == Some("From") {
                        let last = tr.as_ref().unwrap().segments.last().unwrap().clone();
                        let a = last.arguments.to_token_stream().to_string().replace(' ', "");
                        if trname.as_deref() == Some("From") || trname.as_deref() == Some("TryFrom") {
                            format!("@{}", a.trim_start_matches('<').trim_end_matches('>').replace("A", "MarkdownNode").replace("B","MarkdownNode"))
                        } else {
                            "@".to_string()
                        }
                    } else {
                        String::new()
                    };
                    for ii in &im.items {
                        match ii {
                            ImplItem::Fn(m) => {
                                if is_cfg_off(&m.attrs) {
                                    continue;
                                }
                                have.insert(m.sig.ident.to_string());
                                let nm = m.sig.ident.to_string().replace("r#type", "type_");
                                let id = format!("{}::{}{}", selfid, nm, argid);
                                if !emit_id(id.clone(), f, &mut ids) {
                                    continue;
                                }
                                if trname.as_deref() == Some("IntoIterator") {
                                    // `self.content.iter()` as a slice
                                    let mut blk = m.block.clone();
                                    struct It;
                                    impl VisitMut for It {
                                        fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
                                            visit_mut::visit_expr_method_call_mut(self, m);
                                            if m.method == "iter" {
                                                m.method = ident("as_slice");
                                            }
                                        }
                                    }
                                    It.visit_block_mut(&mut blk);
                                    let sig: Signature = parse_quote!(fn into_iter(&self) -> &[MarkdownMark]);
                                    body.extend(do_fn(&w, &mut rw, &sig, &blk, &id, false));
                                    continue;
                                }
                                if !as_trait && trname.as_deref() == Some("From") {
                                    // overloads of Fragment::from become functions of their own
                                    let mut sig = m.sig.clone();
                                    let mut blk = m.block.clone();
                                    let a = &tr.as_ref().unwrap().segments.last().unwrap().arguments;
                                    let mut nm = ident("from__Vec");
                                    if let PathArguments::AngleBracketed(ab) = a {
                                        if let Some(GenericArgument::Type(Type::Tuple(t))) = ab.args.first() {
                                            nm = format_ident!("from__tup{}", t.elems.len());
                                        }
                                    }
                                    sig.ident = nm;
                                    struct NoInto;
                                    impl VisitMut for NoInto {
                                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                                            visit_mut::visit_expr_mut(self, e);
                                            if let Expr::MethodCall(m) = e {
                                                if m.method == "into" && m.args.is_empty() {
                                                    *e = (*m.receiver).clone();
                                                }
                                            }
                                        }
                                        fn visit_macro_mut(&mut self, m: &mut Macro) {
                                            if let Ok(mut el) = m.parse_body_with(
                                                punctuated::Punctuated::<Expr, Token![,]>::parse_terminated,
                                            ) {
                                                for e in el.iter_mut() {
                                                    self.visit_expr_mut(e);
                                                }
                                                m.tokens = el.to_token_stream();
                                            }
                                        }
                                    }
                                    NoInto.visit_block_mut(&mut blk);
                                    body.extend(do_fn(&w, &mut rw, &sig, &blk, &id, false));
                                    continue;
                                }
                                body.extend(do_fn(&w, &mut rw, &m.sig, &m.block, &id, as_trait));
                            }
                            ImplItem::Const(c) => {
                                let n = &c.ident;
                                let id = format!("{}::{}", selfid, n);
                                if !emit_id(id.clone(), f, &mut ids) {
                                    continue;
                                }
                                let mut ty = c.ty.clone();
                                let mut ex = c.expr.clone();
                                rw.visit_type_mut(&mut ty);
                                rw.visit_expr_mut(&mut ex);
                                body.extend(quote!(pub fn #n() -> VcRet<#ty> { vc_fn!(#id); #ex }));
                            }
                            ImplItem::Type(t) => {
                                if as_trait {
                                    let mut t = t.clone();
                                    rw.visit_impl_item_type_mut(&mut t);
                                    body.extend(t.to_token_stream());
                                }
                            }
                            _ => {}
                        }
                    }
                    if let Some(t) = &trname {
                        if let Some(ps) = w.provided.get(t) {
                            for (m, pf) in ps {
                                let n = m.sig.ident.to_string();
                                if have.contains(&n) {
                                    continue;
                                }
                                let id = format!("{}::{}", selfid, n.replace("r#type", "type_"));
                                if !emit_id(id.clone(), pf, &mut ids) {
                                    continue;
                                }
                                body.extend(do_fn(&w, &mut rw, &m.sig, m.default.as_ref().unwrap(), &id, false));
                            }
                        }
                    }
                    let g = &im.generics;
                    let st = match &*im.self_ty {
                        Type::Reference(r) if trname.as_deref() == Some("IntoIterator") => (*r.elem).clone(),
                        t => t.clone(),
                    };
                    let g = if trname.as_deref() == Some("IntoIterator") { Generics::default() } else { g.clone() };
                    let (ig, wc) = (g.clone(), g.where_clause.clone());
                    if body.is_empty() || !body.to_string().contains("vc_fn") {
                        continue;
                    }
                    if as_trait {
                        let t = tr.unwrap();
                        out.extend(quote!(impl #ig #t for #st #wc { #body }));
                    } else {
                        out.extend(quote!(impl #ig #st #wc { #body }));
                    }
                }
                _ => eprintln!("DROP item in {}", f),
            }
        }
    }
    VISITS.with(|v| {
        for (i, t) in v.borrow().iter() {
            out.extend(t.clone());
            ids.insert(i.clone(), "a closure".to_string());
        }
    });
    println!("{}", out);
    for (i, f) in ids {
        eprintln!("FN {} {}", i, f);
    }
}

fn derives(out: &mut TokenStream, name: &Ident, g: &Generics, d: &BTreeSet<String>, clike: bool) {
    let ds: Vec<Ident> = d.iter().filter(|x| *x != "bound").map(|x| ident(x)).collect();
    let gp = g.clone();
    let c = clike;
    let (ig, tg, wc) = gp.split_for_impl();
    let _ = (ig.to_token_stream(), wc.to_token_stream());
    let ps = &g.params;
    out.extend(quote!(vc_derive!{#name, [#ps], [#tg], #c, #(#ds)*}));
}
