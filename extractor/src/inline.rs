//! Functions without a contract are put in place of their calls, before anything else is rewritten: a helper
//! that was extracted from a function under contract is then verified as a part of that function.
//! `h(a, b)` becomes `{ let p: T = a; let q: U = b; body }`.  A helper stays a function when it is recursive, when it has
//! type parameters of its own, or when it can return early and the call is not where the caller returns, too.
use proc_macro2::Ident;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Helper {
    sig: Signature,
    block: Block,
    self_ty: Option<Type>,
    self_name: String,
    early: bool,
    err: Option<String>,
    binds: HashSet<String>,
    calls: HashSet<String>,
}

struct Scan {
    early: bool,
    calls: HashSet<String>,
    binds: HashSet<String>,
    nested: bool,
}
impl<'a> Visit<'a> for Scan {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.early = true;
    }
    fn visit_expr_try(&mut self, e: &'a ExprTry) {
        self.early = true;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        // what returns in a closure, returns from it
        let e = self.early;
        visit::visit_expr_closure(self, c);
        self.early = e;
    }
    fn visit_item(&mut self, _: &'a Item) {
        self.nested = true;
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.calls.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        self.calls.insert(c.method.to_string());
        visit::visit_expr_method_call(self, c);
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.binds.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        // the names in a macro, whatever they are
        fn walk(ts: proc_macro2::TokenStream, out: &mut HashSet<String>, early: &mut bool) {
            for t in ts {
                match t {
                    proc_macro2::TokenTree::Ident(i) => {
                        if i == "return" {
                            *early = true;
                        }
                        out.insert(i.to_string());
                    }
                    proc_macro2::TokenTree::Punct(p) if p.as_char() == '?' => *early = true,
                    proc_macro2::TokenTree::Group(g) => walk(g.stream(), out, early),
                    _ => {}
                }
            }
        }
        walk(m.tokens.clone(), &mut self.calls, &mut self.early);
    }
}
fn scan(b: &Block) -> Scan {
    let mut s = Scan { early: false, calls: HashSet::new(), binds: HashSet::new(), nested: false };
    s.visit_block(b);
    s
}

/// `if c { ..; return x; } rest` -> `if c { ..; x } else { rest }`, where that takes all early returns away
fn unreturn(b: &Block) -> Option<Block> {
    let mut stmts = b.stmts.clone();
    for k in 0..stmts.len() {
        let last = k + 1 == stmts.len();
        match &stmts[k] {
            Stmt::Expr(Expr::Return(r), _) => {
                if !last {
                    return None;
                }
                let e: Expr = r.expr.as_ref().map(|x| (**x).clone())?;
                stmts[k] = Stmt::Expr(e, None);
            }
            Stmt::Expr(Expr::If(i), _) if !last && i.else_branch.is_none() && scan(&i.then_branch).early => {
                if !matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) {
                    return None;
                }
                let mut i = i.clone();
                i.then_branch = unreturn(&i.then_branch)?;
                let rest = unreturn(&Block { brace_token: b.brace_token, stmts: stmts[k + 1..].to_vec() })?;
                i.else_branch = Some((Default::default(), parse_quote!(#rest)));
                stmts.truncate(k);
                stmts.push(Stmt::Expr(Expr::If(i), None));
                break;
            }
            Stmt::Expr(Expr::If(i), None) if last && scan(b).early => {
                let mut i = i.clone();
                i.then_branch = unreturn(&i.then_branch)?;
                if let Some((_, e)) = &mut i.else_branch {
                    match &mut **e {
                        Expr::Block(x) => x.block = unreturn(&x.block)?,
                        Expr::If(_) => {
                            let x = e.clone();
                            let n = unreturn(&parse_quote!({ #x }))?;
                            if let Some(Stmt::Expr(y, None)) = n.stmts.first() {
                                *e = Box::new(y.clone());
                            }
                        }
                        _ => return None,
                    }
                }
                stmts[k] = Stmt::Expr(Expr::If(i), None);
            }
            _ => {}
        }
    }
    let r = Block { brace_token: b.brace_token, stmts };
    if scan(&r).early {
        None
    } else {
        Some(r)
    }
}

fn err_ty(o: &ReturnType) -> Option<String> {
    if let ReturnType::Type(_, t) = o {
        if let Type::Path(p) = &**t {
            let l = p.path.segments.last()?;
            if l.ident == "Result" {
                if let PathArguments::AngleBracketed(a) = &l.arguments {
                    return a.args.iter().nth(1).map(|x| x.to_token_stream().to_string());
                }
            } else if l.ident == "StepResult" {
                return Some("StepError < S >".to_string());
            }
        }
    }
    None
}

/// `'a` taken out of a type
struct NoLt;
impl VisitMut for NoLt {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        r.lifetime = None;
        visit_mut::visit_type_reference_mut(self, r);
    }
    fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) {
        a.args = a.args.iter().filter(|x| !matches!(x, GenericArgument::Lifetime(_))).cloned().collect();
        visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a);
    }
    fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
        visit_mut::visit_path_segment_mut(self, s);
        if let PathArguments::AngleBracketed(a) = &s.arguments {
            if a.args.is_empty() {
                s.arguments = PathArguments::None;
            }
        }
    }
}
fn annot(t: &Type, self_ty: &Option<Type>) -> Option<Type> {
    let mut t = t.clone();
    if t.to_token_stream().to_string().contains("impl ") {
        return None;
    }
    NoLt.visit_type_mut(&mut t);
    if let Some(s) = self_ty {
        SelfTy(s.clone()).visit_type_mut(&mut t);
    }
    Some(t)
}
struct SelfTy(Type);
impl VisitMut for SelfTy {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if let Some(s) = p.segments.first_mut() {
            if s.ident == "Self" {
                if let Type::Path(t) = &self.0 {
                    s.ident = t.path.segments.last().unwrap().ident.clone();
                }
            }
        }
    }
}

/// a `&mut` parameter replaced by the place it borrows; any other by a name
struct Subst {
    name: String,
    place: Expr,
    is_mut_borrow: bool,
}
impl Subst {
    fn hit(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.get_ident().map_or(false, |i| *i == self.name))
    }
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.is_mut_borrow {
            match e {
                Expr::MethodCall(m) if self.hit(&m.receiver) => {
                    m.receiver = Box::new(self.place.clone());
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
                Expr::Field(f) if self.hit(&f.base) => {
                    f.base = Box::new(self.place.clone());
                    return;
                }
                Expr::Index(f) if self.hit(&f.expr) => {
                    f.expr = Box::new(self.place.clone());
                    self.visit_expr_mut(&mut f.index);
                    return;
                }
                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.hit(&u.expr) => {
                    *e = self.place.clone();
                    return;
                }
                _ => {}
            }
            if self.hit(e) {
                let p = &self.place;
                *e = parse_quote!(&mut #p);
                return;
            }
        } else if self.hit(e) {
            *e = self.place.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut el) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for e in el.iter_mut() {
                self.visit_expr_mut(e);
            }
            m.tokens = el.to_token_stream();
        } else if let (Ok(i), true) = (parse_str::<Ident>(&self.name), true) {
            let (i, p) = (i.to_string(), self.place.to_token_stream());
            fn walk(ts: proc_macro2::TokenStream, i: &str, p: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
                ts.into_iter()
                    .flat_map(|t| match t {
                        proc_macro2::TokenTree::Ident(x) if x == i => p.clone(),
                        proc_macro2::TokenTree::Group(g) => {
                            let mut n = proc_macro2::Group::new(g.delimiter(), walk(g.stream(), i, p));
                            n.set_span(g.span());
                            proc_macro2::TokenTree::Group(n).into()
                        }
                        t => t.into(),
                    })
                    .collect()
            }
            m.tokens = walk(m.tokens.clone(), &i, &p);
        }
    }
}

pub struct Inliner<'h> {
    pub helpers: &'h BTreeMap<String, Vec<Helper>>,
    cur_self: String,
    cur_self_arg: bool,
    cur_err: Option<String>,
    /// the expression is where the function returns
    tail: bool,
    in_closure: bool,
    pub done: usize,
    pub names: HashSet<String>,
}
impl<'h> Inliner<'h> {
    fn find(&self, name: &str, q: Option<&str>, method: bool) -> Option<&'h Helper> {
        let hs = self.helpers.get(name)?;
        let ok: Vec<&Helper> = hs
            .iter()
            .filter(|h| match (&h.self_ty, q) {
                (None, None) => !method,
                (None, Some(q)) => !method && q.chars().next().map_or(false, |c| c.is_lowercase()),
                (Some(_), None) => method,
                (Some(_), Some(q)) => q == h.self_name || (q == "Self" && h.self_name == self.cur_self) || (method && q == h.self_name),
            })
            .collect();
        if ok.len() == 1 {
            Some(ok[0])
        } else {
            None
        }
    }
    /// the call, inlined; None if it has to stay
    fn expand(&mut self, h: &Helper, mut args: Vec<Expr>, tail: bool, tried: bool) -> Option<Expr> {
        if h.early && !(tail && !self.in_closure) {
            if !(tried && !self.in_closure && h.err.is_some() && h.err == self.cur_err) {
                return None;
            }
        }
        let mut block = h.block.clone();
        let mut lets: Vec<(Pat, Option<Type>, Expr)> = vec![];
        let mut renames: Vec<Subst> = vec![];
        let recv = h.sig.receiver().cloned();
        if let Some(r) = &recv {
            if args.is_empty() {
                return None;
            }
            let a = args.remove(0);
            let is_self = matches!(&a, Expr::Path(p) if p.path.is_ident("self"));
            if !is_self {
                let place: Expr = parse_quote!(this__);
                let st = annot(h.self_ty.as_ref()?, &None)?;
                match (&r.reference, &r.mutability) {
                    (Some(_), Some(_)) => {
                        if !simple(&a) {
                            return None;
                        }
                        renames.push(Subst { name: "self".into(), place: a, is_mut_borrow: true });
                    }
                    (Some(_), None) => {
                        let a = if let Expr::Reference(_) = a { a } else { parse_quote!(&#a) };
                        lets.push((parse_quote!(this__), Some(parse_quote!(&#st)), a));
                        renames.push(Subst { name: "self".into(), place, is_mut_borrow: false });
                    }
                    _ => {
                        lets.push((parse_quote!(this__), None, a));
                        renames.push(Subst { name: "self".into(), place, is_mut_borrow: false });
                    }
                }
            } else if r.reference.is_none() && !self.cur_self_arg {
                return None;
            }
        }
        let ps: Vec<PatType> = h.sig.inputs.iter().filter_map(|i| if let FnArg::Typed(t) = i { Some(t.clone()) } else { None }).collect();
        if ps.len() != args.len() {
            return None;
        }
        for (p, a) in ps.iter().zip(args) {
            let mutref = matches!(&*p.ty, Type::Reference(r) if r.mutability.is_some());
            if mutref {
                let Pat::Ident(pi) = &*p.pat else { return None };
                let (place, borrow) = match &a {
                    Expr::Reference(r) if r.mutability.is_some() && simple(&r.expr) => ((*r.expr).clone(), true),
                    Expr::Path(x) if x.path.get_ident().is_some() => (a.clone(), false),
                    _ => return None,
                };
                // a local of the helper with the name of the place would capture it
                if names_of(&place).iter().any(|n| h.binds.contains(n) || ps.iter().any(|q| q.pat.to_token_stream().to_string() == *n && n != &pi.ident.to_string())) {
                    return None;
                }
                renames.push(Subst { name: pi.ident.to_string(), place, is_mut_borrow: borrow });
                continue;
            }
            if a.to_token_stream().to_string() == p.pat.to_token_stream().to_string() && matches!(&*p.pat, Pat::Ident(i) if i.mutability.is_none()) {
                continue; // the same name
            }
            lets.push(((*p.pat).clone(), annot(&p.ty, &h.self_ty), a));
        }
        for r in renames.iter_mut() {
            r.visit_block_mut(&mut block);
        }
        if let Some(s) = &h.self_ty {
            if h.self_name != self.cur_self {
                SelfTy(s.clone()).visit_block_mut(&mut block);
            }
        }
        // does an argument mention a name that an earlier one binds?
        let mut bound: HashSet<String> = HashSet::new();
        let mut clash = false;
        for (p, _, a) in &lets {
            clash |= names_of(a).iter().any(|n| bound.contains(n));
            bound.extend(names_of_pat(p));
        }
        let mut stmts: Vec<Stmt> = vec![];
        if clash {
            for (k, (p, t, a)) in lets.into_iter().enumerate() {
                let n = format_ident!("arg__{}", k);
                stmts.push(match &t {
                    Some(t) => parse_quote!(let #n: #t = #a;),
                    None => parse_quote!(let #n = #a;),
                });
                stmts.push(parse_quote!(let #p = #n;));
            }
            // all of the first kind before all of the second
            let (a, b): (Vec<_>, Vec<_>) = stmts.into_iter().enumerate().partition(|(k, _)| k % 2 == 0);
            stmts = a.into_iter().chain(b).map(|x| x.1).collect();
        } else {
            for (p, t, a) in lets {
                stmts.push(match &t {
                    Some(t) => parse_quote!(let #p: #t = #a;),
                    None => parse_quote!(let #p = #a;),
                });
            }
        }
        stmts.extend(block.stmts);
        self.done += 1;
        self.names.insert(h.sig.ident.to_string());
        if stmts.len() == 1 {
            if let Stmt::Expr(e, None) = &stmts[0] {
                return Some(parse_quote!((#e)));
            }
        }
        Some(parse_quote!({ #(#stmts)* }))
    }
    fn call(&mut self, e: &Expr, tail: bool, tried: bool) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let n = p.path.segments.len();
                let name = p.path.segments[n - 1].ident.to_string();
                let q = if n > 1 { Some(p.path.segments[n - 2].ident.to_string()) } else { None };
                let h = self.find(&name, q.as_deref(), false)?;
                self.expand(h, c.args.iter().cloned().collect(), tail, tried)
            }
            Expr::MethodCall(m) => {
                let h = self.find(&m.method.to_string(), None, true)?;
                h.sig.receiver()?;
                let mut a = vec![(*m.receiver).clone()];
                a.extend(m.args.iter().cloned());
                self.expand(h, a, tail, tried)
            }
            _ => None,
        }
    }
    fn off<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        let t = std::mem::replace(&mut self.tail, false);
        let r = f(self);
        self.tail = t;
        r
    }
}
fn ok_of(e: &Expr) -> Option<Expr> {
    if let Expr::Call(c) = e {
        if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) && c.args.len() == 1 {
            return Some(c.args[0].clone());
        }
    }
    None
}
fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => simple(&f.base),
        _ => false,
    }
}
fn names_of(e: &Expr) -> Vec<String> {
    fn walk(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()),
                proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                _ => {}
            }
        }
    }
    let mut v = vec![];
    walk(quote!(#e), &mut v);
    v
}
fn names_of_pat(p: &Pat) -> Vec<String> {
    let e: Vec<String> = {
        let mut s = Scan { early: false, calls: HashSet::new(), binds: HashSet::new(), nested: false };
        s.visit_pat(p);
        s.binds.into_iter().collect()
    };
    e
}
impl<'h> VisitMut for Inliner<'h> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (k, s) in b.stmts.iter_mut().enumerate() {
            if k + 1 == n && matches!(s, Stmt::Expr(_, None)) {
                self.visit_stmt_mut(s);
            } else {
                self.off(|v| v.visit_stmt_mut(s));
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `return h(..)` is a return of the function
        if let Expr::Return(r) = e {
            if let Some(x) = &mut r.expr {
                let t = std::mem::replace(&mut self.tail, true);
                self.visit_expr_mut(x);
                self.tail = t;
            }
            return;
        }
        if let Expr::Try(t) = e {
            match self.call(&t.expr, false, true) {
                // `{ ..; Ok(x) }?` is `{ ..; x }`, and `{ ..; e }?` is `{ ..; e? }`
                Some(Expr::Block(mut b)) if matches!(b.block.stmts.last(), Some(Stmt::Expr(_, None))) => {
                    if let Some(Stmt::Expr(l, None)) = b.block.stmts.last_mut() {
                        *l = match ok_of(l) {
                            Some(x) => x,
                            None => parse_quote!(#l?),
                        };
                    }
                    *e = Expr::Block(b);
                    self.off(|v| v.visit_expr_mut(e));
                    return;
                }
                Some(x) => *t.expr = x,
                None => {}
            }
            self.off(|v| visit_mut::visit_expr_try_mut(v, t));
            return;
        }
        if let Some(x) = self.call(e, self.tail, false) {
            *e = x;
            // the body of the helper may call others
        }
        match e {
            // what is in tail position when this is
            Expr::Block(b) => return self.visit_block_mut(&mut b.block),
            Expr::Paren(p) => return self.visit_expr_mut(&mut p.expr),
            Expr::If(i) => {
                self.off(|v| v.visit_expr_mut(&mut i.cond));
                self.visit_block_mut(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.visit_expr_mut(x);
                }
                return;
            }
            Expr::Match(m) => {
                self.off(|v| v.visit_expr_mut(&mut m.expr));
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard {
                        self.off(|v| v.visit_expr_mut(g));
                    }
                    self.visit_expr_mut(&mut a.body);
                }
                return;
            }
            Expr::Closure(c) => {
                let i = std::mem::replace(&mut self.in_closure, true);
                self.off(|v| visit_mut::visit_expr_closure_mut(v, c));
                self.in_closure = i;
                return;
            }
            _ => {}
        }
        self.off(|v| visit_mut::visit_expr_mut(v, e));
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // `matches!(e, ..)`, `vec![..]`: expressions only
        if m.path.is_ident("matches") {
            struct M(Expr, proc_macro2::TokenStream);
            impl parse::Parse for M {
                fn parse(i: parse::ParseStream) -> Result<Self> {
                    let e: Expr = i.parse()?;
                    Ok(M(e, i.parse()?))
                }
            }
            if let Ok(M(mut e, r)) = parse2::<M>(m.tokens.clone()) {
                self.off(|v| v.visit_expr_mut(&mut e));
                m.tokens = quote!(#e #r);
            }
        } else if let Ok(mut el) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for e in el.iter_mut() {
                self.off(|v| v.visit_expr_mut(e));
            }
            m.tokens = el.to_token_stream();
        }
    }
}

const COMMON: [&str; 30] = [
    "map", "get", "len", "iter", "push", "pop", "first", "last", "clone", "into", "from", "new", "is_empty", "insert", "remove", "find", "filter", "and_then", "unwrap_or", "ok_or", "as_ref",
    "as_str", "contains", "extend", "rev", "next", "min", "max", "eq", "default",
];

fn own_generics(g: &Generics) -> bool {
    g.params.iter().any(|p| match p {
        GenericParam::Type(t) => t.ident != "S",
        GenericParam::Const(_) => true,
        GenericParam::Lifetime(_) => false,
    })
}

/// returns (name of the type in the ids, is it a trait the extraction resolves)
fn impl_name(im: &ItemImpl, assoc: &dyn Fn(&str) -> Option<String>) -> Option<String> {
    if let Some((_, t, _)) = &im.trait_ {
        let t = t.segments.last().unwrap().ident.to_string();
        if !["Node", "Mark", "NodeType", "ContentMatch", "StepKind"].contains(&t.as_str()) {
            return None;
        }
    }
    let _ = assoc;
    match &*im.self_ty {
        Type::Path(p) => Some(p.path.segments.last().unwrap().ident.to_string()),
        _ => None,
    }
}

pub fn run(parsed: &mut Vec<(String, File)>, known: &HashSet<String>, off: &dyn Fn(&[Attribute]) -> bool) {
    // Node -> MarkdownNode, and so on
    let mut assoc: BTreeMap<String, String> = BTreeMap::new();
    for (_, file) in parsed.iter() {
        for it in &file.items {
            if let Item::Impl(im) = it {
                if let (Some((_, t, _)), Type::Path(p)) = (&im.trait_, &*im.self_ty) {
                    assoc.insert(t.segments.last().unwrap().ident.to_string(), p.path.segments.last().unwrap().ident.to_string());
                }
            }
        }
    }
    let known_last: HashSet<String> = known.iter().map(|k| k.split('@').next().unwrap().split("::").last().unwrap().to_string()).collect();
    let mut helpers: BTreeMap<String, Vec<Helper>> = BTreeMap::new();
    let mut add = |name: String, sig: &Signature, block: &Block, self_ty: Option<Type>, self_name: String| {
        let mut s = scan(block);
        let mut block = block.clone();
        if s.early {
            if let Some(b) = unreturn(&block) {
                block = b;
                s.early = false;
            }
        }
        let bad = if s.calls.contains(&name) {
            "recursive"
        } else if own_generics(&sig.generics) {
            "generic"
        } else if s.nested {
            "has items"
        } else {
            ""
        };
        if !bad.is_empty() {
            eprintln!("NOTE fn {} has no contract, and stays a function: {}", name, bad);
            return;
        }
        if sig.receiver().is_some() && (known_last.contains(&name) || COMMON.contains(&name.as_str())) {
            eprintln!("NOTE fn {} has no contract, and stays a function: the name is not unique", name);
            return;
        }
        let e = err_ty(&sig.output);
        helpers.entry(name).or_default().push(Helper { sig: sig.clone(), block, self_ty, self_name, early: s.early, err: e, binds: s.binds, calls: s.calls });
    };
    for (f, file) in parsed.iter() {
        for it in &file.items {
            match it {
                Item::Fn(x) if !off(&x.attrs) => {
                    let n = x.sig.ident.to_string();
                    let id = if f == "model/util.rs" { format!("util_{}", n) } else { n.clone() };
                    if !known.contains(&id) {
                        add(n, &x.sig, &x.block, None, String::new());
                    }
                }
                Item::Impl(im) if !off(&im.attrs) => {
                    if let Some(s) = impl_name(im, &|_| None) {
                        for ii in &im.items {
                            if let ImplItem::Fn(m) = ii {
                                let n = m.sig.ident.to_string();
                                if !off(&m.attrs) && !known.contains(&format!("{}::{}", s, n.replace("r#type", "type_"))) && im.trait_.is_none() {
                                    add(n, &m.sig, &m.block, Some((*im.self_ty).clone()), s.clone());
                                }
                            }
                        }
                    }
                }
                Item::Trait(t) => {
                    if let Some(s) = assoc.get(&t.ident.to_string()) {
                        for ti in &t.items {
                            if let TraitItem::Fn(m) = ti {
                                if let Some(b) = &m.default {
                                    let n = m.sig.ident.to_string();
                                    if !known.contains(&format!("{}::{}", s, n.replace("r#type", "type_"))) {
                                        let ty: Ident = format_ident!("{}", s);
                                        add(n, &m.sig, b, Some(parse_quote!(#ty)), s.clone());
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    // those that call each other in a circle stay as they are
    let reach = |n: &String| {
        let mut seen: HashSet<String> = HashSet::new();
        let mut todo = vec![n.clone()];
        while let Some(x) = todo.pop() {
            for h in helpers.get(&x).into_iter().flatten() {
                for c in &h.calls {
                    if helpers.contains_key(c) && seen.insert(c.clone()) {
                        todo.push(c.clone());
                    }
                }
            }
        }
        seen.contains(n)
    };
    let circular: Vec<String> = helpers.keys().filter(|n| reach(n)).cloned().collect();
    for n in circular {
        eprintln!("NOTE fn {} has no contract, and stays a function: recursive", n);
        helpers.remove(&n);
    }
    if helpers.is_empty() {
        return;
    }
    let mut names = HashSet::new();
    for _ in 0..4 {
        let mut done = 0;
        for (_, file) in parsed.iter_mut() {
            for it in file.items.iter_mut() {
                let go = |sig: &Signature, block: &mut Block, s: &str, done: &mut usize, names: &mut HashSet<String>| {
                    let mut v = Inliner {
                        helpers: &helpers,
                        cur_self: s.to_string(),
                        cur_self_arg: sig.receiver().map_or(false, |r| r.reference.is_none()),
                        cur_err: err_ty(&sig.output),
                        tail: true,
                        in_closure: false,
                        done: 0,
                        names: HashSet::new(),
                    };
                    v.visit_block_mut(block);
                    *done += v.done;
                    names.extend(v.names);
                };
                match it {
                    Item::Fn(x) if !off(&x.attrs) => go(&x.sig.clone(), &mut x.block, "", &mut done, &mut names),
                    Item::Impl(im) if !off(&im.attrs) => {
                        let s = match &*im.self_ty {
                            Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                            _ => String::new(),
                        };
                        for ii in im.items.iter_mut() {
                            if let ImplItem::Fn(m) = ii {
                                go(&m.sig.clone(), &mut m.block, &s, &mut done, &mut names);
                            }
                        }
                    }
                    Item::Trait(t) => {
                        let s = assoc.get(&t.ident.to_string()).cloned().unwrap_or_default();
                        for ti in t.items.iter_mut() {
                            if let TraitItem::Fn(m) = ti {
                                let sig = m.sig.clone();
                                if let Some(b) = &mut m.default {
                                    go(&sig, b, &s, &mut done, &mut names);
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        if done == 0 {
            break;
        }
    }
    let mut names: Vec<String> = names.into_iter().collect();
    names.sort();
    for n in names {
        eprintln!("NOTE fn {} has no contract: its body is put in place of its calls", n);
    }
}
