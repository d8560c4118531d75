//! What `derive(Serialize, Deserialize)` makes of the declarations and their `serde` attributes, as
//! specification functions over JSON values, with the lemmas that connect the two.
use super::*;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Default)]
struct Attrs {
    ren_ser: Option<String>,
    ren_de: Option<String>,
    all_ser: Option<String>,
    all_de: Option<String>,
    alias: Vec<String>,
    default: bool,
    flatten: bool,
    tag: Option<String>,
    from: Option<String>,
    try_from: Option<String>,
    de_with: Option<String>,
    skip_ser: bool,
    skip_de: bool,
}

struct Gen<'w> {
    w: &'w World,
    structs: BTreeMap<String, ItemStruct>,
    enums: BTreeMap<String, ItemEnum>,
    /// types with an `impl Serialize` / `impl Deserialize` / `impl Default` of their own
    hand_ser: HashSet<String>,
    hand_de: HashSet<String>,
    hand_default: HashSet<String>,
    names: Vec<String>,
    done: HashSet<String>,
    out: String,
    errors: Vec<String>,
}

fn parse_attrs(attrs: &[Attribute], what: &str, errors: &mut Vec<String>) -> Attrs {
    let mut r = Attrs::default();
    for a in attrs {
        if a.path().is_ident("cfg_attr") && a.to_token_stream().to_string().contains("serde") {
            errors.push(format!("{}: a conditional attribute is not modelled", what));
        }
        if !a.path().is_ident("serde") {
            continue;
        }
        let res = a.parse_nested_meta(|m| {
            let k = m.path.to_token_stream().to_string();
            let lit = |m: &meta::ParseNestedMeta| -> Result<String> { Ok(m.value()?.parse::<LitStr>()?.value()) };
            match k.as_str() {
                "bound" => {
                    lit(&m)?;
                }
                "rename" | "rename_all" => {
                    let (mut s, mut d) = (None, None);
                    if m.input.peek(Token![=]) {
                        let v = lit(&m)?;
                        s = Some(v.clone());
                        d = Some(v);
                    } else {
                        m.parse_nested_meta(|n| {
                            let v = n.value()?.parse::<LitStr>()?.value();
                            if n.path.is_ident("serialize") {
                                s = Some(v);
                            } else {
                                d = Some(v);
                            }
                            Ok(())
                        })?;
                    }
                    if k == "rename" {
                        r.ren_ser = s;
                        r.ren_de = d;
                    } else {
                        r.all_ser = s;
                        r.all_de = d;
                    }
                }
                "alias" => r.alias.push(lit(&m)?),
                "default" => {
                    if m.input.peek(Token![=]) {
                        return Err(m.error("default with a path"));
                    }
                    r.default = true;
                }
                "flatten" => r.flatten = true,
                "tag" => r.tag = Some(lit(&m)?),
                "from" => r.from = Some(lit(&m)?),
                "try_from" => r.try_from = Some(lit(&m)?),
                "deserialize_with" => r.de_with = Some(lit(&m)?),
                "skip" => {
                    r.skip_ser = true;
                    r.skip_de = true;
                }
                "skip_serializing" => r.skip_ser = true,
                "skip_deserializing" => r.skip_de = true,
                _ => return Err(m.error(format!("serde({})", k))),
            }
            Ok(())
        });
        if let Err(e) = res {
            errors.push(format!("{}: {} is not modelled", what, e));
        }
    }
    r
}

fn words(s: &str, pascal: bool) -> Vec<String> {
    if pascal {
        let mut r: Vec<String> = vec![];
        for c in s.chars() {
            if c.is_uppercase() || r.is_empty() {
                r.push(String::new());
            }
            r.last_mut().unwrap().push(c.to_ascii_lowercase());
        }
        r
    } else {
        s.split('_').map(|x| x.to_string()).collect()
    }
}
fn cap(s: &str) -> String {
    let mut c = s.chars();
    c.next().map(|x| x.to_ascii_uppercase().to_string() + c.as_str()).unwrap_or_default()
}
fn case(s: &str, pascal: bool, rule: &Option<String>, errors: &mut Vec<String>) -> String {
    let w = words(s, pascal);
    match rule.as_deref() {
        None => s.to_string(),
        Some("lowercase") => s.to_ascii_lowercase(),
        Some("UPPERCASE") => s.to_ascii_uppercase(),
        Some("PascalCase") => w.iter().map(|x| cap(x)).collect(),
        Some("camelCase") => w.iter().enumerate().map(|(i, x)| if i == 0 { x.clone() } else { cap(x) }).collect(),
        Some("snake_case") => w.join("_"),
        Some("SCREAMING_SNAKE_CASE") => w.join("_").to_ascii_uppercase(),
        Some("kebab-case") => w.join("-"),
        Some(o) => {
            errors.push(format!("rename_all {} is not modelled", o));
            s.to_string()
        }
    }
}

fn suffix(t: &str) -> String {
    let mut r = String::new();
    for c in t.chars() {
        if c.is_alphanumeric() {
            r.push(c);
        } else if c == '<' || c == ',' {
            r.push('_');
        }
    }
    r
}
const NUMS: [&str; 5] = ["u8", "u16", "u32", "u64", "usize"];

struct Field {
    name: String,
    ty: String,
    key_ser: String,
    keys_de: Vec<String>,
    a: Attrs,
}

impl<'w> Gen<'w> {
    fn key(&mut self, s: &str) -> String {
        let i = match self.names.iter().position(|x| x == s) {
            Some(i) => i,
            None => {
                self.names.push(s.to_string());
                self.names.len() - 1
            }
        };
        format!("jname({} /*{}*/)", i, s)
    }
    /// (name, argument) of `Name<Arg>`
    fn split(t: &str) -> (String, Option<String>) {
        match t.find('<') {
            Some(i) => (t[..i].to_string(), Some(t[i + 1..t.len() - 1].to_string())),
            None => (t.to_string(), None),
        }
    }
    fn fields(&mut self, owner: &str, fs: &Fields, all: &Attrs, sub: &Option<(String, String)>) -> Vec<Field> {
        let mut r = vec![];
        for f in fs.iter() {
            let name = match &f.ident {
                Some(i) => i.to_string().trim_start_matches("r#").to_string(),
                None => {
                    self.errors.push(format!("{}: unnamed fields are not modelled", owner));
                    continue;
                }
            };
            let a = parse_attrs(&f.attrs, &format!("{}.{}", owner, name), &mut self.errors);
            let mut ty = f.ty.clone();
            Rw::new(self.w).visit_type_mut(&mut ty);
            let mut ty = ty_name(&ty);
            if let Some((p, v)) = sub {
                if ty == *p {
                    ty = v.clone();
                } else if ty.contains(&format!("<{}>", p)) {
                    ty = ty.replace(&format!("<{}>", p), &format!("<{}>", v));
                }
            }
            let key_ser = a.ren_ser.clone().unwrap_or_else(|| case(&name, false, &all.all_ser, &mut self.errors));
            let mut keys_de = vec![a.ren_de.clone().unwrap_or_else(|| case(&name, false, &all.all_de, &mut self.errors))];
            keys_de.extend(a.alias.iter().cloned());
            if keys_de.len() > 1 {
                self.errors.push(format!("{}.{}: alias is not modelled", owner, name));
            }
            r.push(Field { name, ty, key_ser, keys_de, a });
        }
        r
    }
    /// the names of the fields, those of flattened ones included
    fn all_keys(&mut self, owner: &str, fs: &[Field], ser: bool) -> Vec<String> {
        let mut r = vec![];
        for f in fs {
            if f.a.flatten {
                let g = self.struct_fields(&f.ty);
                r.extend(self.all_keys(&f.ty.clone(), &g, ser));
            } else if ser && !f.a.skip_ser {
                r.push(f.key_ser.clone());
            } else if !ser && !f.a.skip_de {
                r.extend(f.keys_de.iter().cloned());
            }
        }
        let mut s = HashSet::new();
        for k in &r {
            if !s.insert(k.clone()) {
                self.errors.push(format!("{}: the name {} is used twice", owner, k));
            }
        }
        r
    }
    fn struct_fields(&mut self, ty: &str) -> Vec<Field> {
        let (n, arg) = Self::split(ty);
        let s = match self.structs.get(&n) {
            Some(s) => s.clone(),
            None => {
                self.errors.push(format!("{} is not a structure", ty));
                return vec![];
            }
        };
        let a = parse_attrs(&s.attrs, &n, &mut self.errors);
        let sub = self.sub(&s.generics, arg);
        self.fields(ty, &s.fields, &a, &sub)
    }
    fn sub(&self, g: &Generics, arg: Option<String>) -> Option<(String, String)> {
        let p = g
            .params
            .iter()
            .filter_map(|p| match p {
                GenericParam::Type(t) if t.ident != "S" && !bound_names(&t.bounds).iter().any(|b| b == "Schema") => Some(t.ident.to_string()),
                _ => None,
            })
            .next();
        match (p, arg) {
            (Some(p), Some(a)) => Some((p, a)),
            _ => None,
        }
    }
    fn dft(&mut self, ty: &str) -> String {
        match ty {
            "bool" => "false".into(),
            "String" => "str_of(Seq::empty())".into(),
            t if NUMS.contains(&t) => format!("0{}", t),
            t if t.starts_with("Vec<") => "vec_of(Seq::empty())".into(),
            t if t.starts_with("Option<") => "None".into(),
            t => {
                self.need_dft(t);
                format!("dft_{}()", suffix(t))
            }
        }
    }
    fn enc(&mut self, ty: &str, e: &str) -> String {
        if ty == "bool" {
            format!("JVal::Bool({})", e)
        } else if NUMS.contains(&ty) {
            format!("JVal::Num({} as int)", e)
        } else if ty == "String" {
            format!("JVal::Str({}@)", e)
        } else if ty.starts_with("Vec<") {
            let t = &ty[4..ty.len() - 1];
            self.need(t);
            format!("JVal::Arr(encs_{}({}@))", suffix(t), e)
        } else {
            self.need(ty);
            format!("enc_{}({})", suffix(ty), e)
        }
    }
    fn dec(&mut self, ty: &str, e: &str) -> String {
        if ty == "bool" || NUMS.contains(&ty) || ty == "String" {
            format!("dec_{}({})", ty, e)
        } else if ty.starts_with("Vec<") {
            let t = &ty[4..ty.len() - 1];
            self.need(t);
            format!("decv_{}({})", suffix(t), e)
        } else {
            self.need(ty);
            format!("dec_{}({})", suffix(ty), e)
        }
    }
    /// what a value has to be to come back as it was
    fn jx(&mut self, ty: &str, e: &str) -> String {
        if ty == "bool" || NUMS.contains(&ty) || ty == "String" {
            "true".into()
        } else if ty.starts_with("Vec<") {
            format!("jxs_{}({}@)", suffix(&ty[4..ty.len() - 1]), e)
        } else {
            format!("jx_{}({})", suffix(ty), e)
        }
    }
    fn rt(&mut self, ty: &str, e: &str) -> String {
        if ty == "bool" || NUMS.contains(&ty) {
            String::new()
        } else if ty == "String" {
            format!("axiom_str_of({});", e)
        } else if ty.starts_with("Vec<") {
            let t = suffix(&ty[4..ty.len() - 1]);
            format!("lemma_rts_{}({}@); axiom_vec_of_{}({});", t, e, t, e)
        } else {
            format!("lemma_rt_{}({});", suffix(ty), e)
        }
    }
    fn lx(&mut self, ty: &str, e: &str) -> String {
        if ty == "bool" || NUMS.contains(&ty) || ty == "String" {
            String::new()
        } else if ty.starts_with("Vec<") {
            format!("lemma_jxv_{}({});", suffix(&ty[4..ty.len() - 1]), e)
        } else {
            format!("lemma_jx_{}({});", suffix(ty), e)
        }
    }

    fn is_prim(ty: &str) -> bool {
        ty == "bool" || NUMS.contains(&ty) || ty == "String"
    }
    /// its default value
    fn need_dft(&mut self, ty: &str) {
        if !self.done.insert(format!("dft {}", ty)) {
            return;
        }
        let t = suffix(ty);
        let (n, arg) = Self::split(ty);
        if self.hand_default.contains(&n) {
            self.out.push_str(&format!("pub open spec fn dft_{t}() -> {ty} {{ dft_hand_{t}() }}\n"));
            return;
        }
        let s = match self.structs.get(&n) {
            Some(s) => s.clone(),
            None => {
                self.errors.push(format!("the default of {} is not modelled", ty));
                return;
            }
        };
        if !attr_list(&s.attrs).contains("Default") {
            self.errors.push(format!("the default of {} is not modelled", ty));
            return;
        }
        let a = parse_attrs(&s.attrs, &n, &mut self.errors);
        let sub = self.sub(&s.generics, arg);
        let fs = self.fields(ty, &s.fields, &a, &sub);
        let v: Vec<String> = fs.iter().map(|f| format!("{}: {}", f.name, self.dft(&f.ty))).collect();
        self.out.push_str(&format!("pub open spec fn dft_{t}() -> {ty} {{ {n} {{ {} }} }}\n", v.join(", ")));
        if a.from.is_none() && a.try_from.is_none() {
            let mut b = String::new();
            for f in fs.iter() {
                if !(Self::is_prim(&f.ty) || f.ty.starts_with("Vec<")) {
                    b.push_str(&format!("lemma_dft_{}();", suffix(&f.ty)));
                }
            }
            self.out.push_str(&format!("pub proof fn lemma_dft_{t}() ensures jx_{t}(dft_{t}()) {{ {b} }}\n"));
        }
    }

    fn need(&mut self, ty: &str) {
        if !self.done.insert(ty.to_string()) {
            return;
        }
        let t = suffix(ty);
        if Self::is_prim(ty) {
            return;
        }
        let (n, arg) = Self::split(ty);
        // sequences of it
        if ["MarkdownNode", "MarkdownMark"].contains(&ty) {
            self.out.push_str(&format!(
                "pub open spec fn encs_{t}(s: Seq<{ty}>) -> Seq<JVal> decreases s, s.len() {{ if s.len() == 0 {{ Seq::empty() }} else {{ encs_{t}(s.drop_last()).push(enc_{t}(s.last())) }} }}\n\
                 pub open spec fn decs_{t}(s: Seq<JVal>) -> Option<Seq<{ty}>> decreases s, s.len() {{ if s.len() == 0 {{ Some(Seq::empty()) }} else {{ match (decs_{t}(s.drop_last()), dec_{t}(s.last())) {{ (Some(a), Some(b)) => Some(a.push(b)), _ => None }} }} }}\n\
                 pub open spec fn decv_{t}(v: JVal) -> Option<Vec<{ty}>> decreases v, 9nat {{ match v {{ JVal::Arr(s) => match decs_{t}(s) {{ Some(x) => if jfits_{t}(x) {{ Some(vec_of(x)) }} else {{ None }}, None => None }}, _ => None }} }}\n\
                 pub open spec fn jxs_{t}(s: Seq<{ty}>) -> bool decreases s, s.len() {{ s.len() == 0 || (jxs_{t}(s.drop_last()) && jx_{t}(s.last())) }}\n\
                 pub proof fn lemma_rts_{t}(s: Seq<{ty}>) requires jxs_{t}(s) ensures decs_{t}(encs_{t}(s)) == Some(s), encs_{t}(s).len() == s.len() decreases s, s.len() {{\n\
                   if s.len() > 0 {{ lemma_rts_{t}(s.drop_last()); lemma_rt_{t}(s.last()); let e = encs_{t}(s); assert(e.drop_last() =~= encs_{t}(s.drop_last())); assert(e.last() == enc_{t}(s.last())); assert(decs_{t}(e) == Some(s.drop_last().push(s.last()))); assert(s.drop_last().push(s.last()) =~= s); }} else {{ assert(s =~= Seq::<{ty}>::empty()); }}\n\
                 }}\n\
                 pub proof fn lemma_jxs_{t}(s: Seq<JVal>) ensures decs_{t}(s) matches Some(x) ==> jxs_{t}(x) && x.len() == s.len() decreases s, s.len() {{\n\
                   if s.len() > 0 {{ lemma_jxs_{t}(s.drop_last()); lemma_jx_{t}(s.last()); if let Some(x) = decs_{t}(s) {{ assert(x.drop_last() =~= decs_{t}(s.drop_last())->0); assert(x.last() == dec_{t}(s.last())->0); }} }}\n\
                 }}\n\
                 pub proof fn lemma_jxv_{t}(v: JVal) ensures decv_{t}(v) matches Some(x) ==> jxs_{t}(x@) decreases v, 9nat {{ if let JVal::Arr(s) = v {{ lemma_jxs_{t}(s); if let Some(x) = decs_{t}(s) {{ if jfits_{t}(x) {{ axiom_vec_of_view_{t}(x); }} }} }} }}\n"
            ));
        }
        if let Some(s) = self.structs.get(&n).cloned() {
            let a = parse_attrs(&s.attrs, &n, &mut self.errors);
            let d = attr_list(&s.attrs);
            let sub = self.sub(&s.generics, arg);
            let ser = d.contains("Serialize");
            let hand = self.hand_ser.contains(&n);
            if !ser && !hand {
                self.errors.push(format!("{} is not written", n));
            }
            if self.hand_de.contains(&n) || !d.contains("Deserialize") {
                self.errors.push(format!("{} is read by code that is not modelled", n));
            }
            let conv = a.from.clone().map(|x| (x, "conv")).or(a.try_from.clone().map(|x| (x, "tryconv")));
            if hand || conv.is_some() {
                // written or read through another type: the specification is with the contracts
                if !hand || conv.is_none() || !["Fragment", "Text", "MarkSet"].contains(&n.as_str()) {
                    self.errors.push(format!("{} is written in one form and read in another that is not modelled", n));
                    return;
                }
                let (x, k) = conv.unwrap();
                let x: Type = match parse_str(&x) {
                    Ok(x) => x,
                    Err(_) => {
                        self.errors.push(format!("{}: {} is not a type", n, x));
                        return;
                    }
                };
                let mut x = x;
                Rw::new(self.w).visit_type_mut(&mut x);
                let x = ty_name(&x);
                let k = format!("{k}_{n}_{}", suffix(&x));
                if !["conv_Fragment_Vec_MarkdownNode", "conv_Text_String", "tryconv_MarkSet_Vec_MarkdownMark"].contains(&k.as_str()) {
                    self.errors.push(format!("{} is read through {}, which is not modelled", n, x));
                    return;
                }
                let dx = self.dec(&x, "v");
                self.out.push_str(&format!(
                    "pub open spec fn enc_{t}(x: {ty}) -> JVal decreases x, 9nat {{ enc_hand_{t}(x) }}\n\
                     pub open spec fn dec_{t}(v: JVal) -> Option<{ty}> decreases v, 10nat {{ match {dx} {{ Some(x) => {k}(x), None => None }} }}\n"
                ));
                return;
            }
            let fs = self.fields(ty, &s.fields, &a, &sub);
            let sk = self.all_keys(ty, &fs, true);
            self.all_keys(ty, &fs, false);
            let depth = self.depth(&fs);
            let flatten = fs.iter().any(|f| f.a.flatten);
            // writing
            let mut e = "o".to_string();
            for f in &fs {
                if f.a.skip_ser {
                    continue;
                }
                let x = format!("x.{}", f.name);
                if f.a.flatten {
                    self.need(&f.ty);
                    e = format!("encf_{}({e}, {x})", suffix(&f.ty));
                } else {
                    let v = self.enc(&f.ty, &x);
                    let k = self.key(&f.key_ser);
                    e = format!("{e}.push(({k}, {v}))");
                }
            }
            // reading: from an object, and from an array of the fields in their order
            let (mut lets, mut letq) = (String::new(), String::new());
            let (mut jxf, mut jxq) = (String::new(), String::new());
            let mut some = vec!["true".to_string()];
            let mut build = vec![];
            let (mut rt, mut jxs) = (String::new(), vec!["true".to_string()]);
            let mut at = 0;
            for (i, f) in fs.iter().enumerate() {
                let x = format!("x.{}", f.name);
                some.push(format!("f{i} is Some"));
                build.push(format!("{}: f{i}->0", f.name));
                jxs.push(self.jx(&f.ty, &x));
                if f.a.flatten {
                    lets.push_str(&format!("let f{i} = decf_{}(o);\n", suffix(&f.ty)));
                    jxf.push_str(&format!("lemma_jxf_{}(o);", suffix(&f.ty)));
                    continue;
                }
                rt.push_str(&self.rt(&f.ty, &x));
                if f.a.skip_de {
                    let v = self.dft(&f.ty);
                    lets.push_str(&format!("let f{i} = Some({v});\n"));
                    letq.push_str(&format!("let f{i} = Some({v});\n"));
                    if !(Self::is_prim(&f.ty) || f.ty.starts_with("Vec<")) {
                        jxf.push_str(&format!("lemma_dft_{}();", suffix(&f.ty)));
                        jxq.push_str(&format!("lemma_dft_{}();", suffix(&f.ty)));
                    }
                    continue;
                }
                let k = self.key(&f.keys_de[0].clone());
                self.out.push_str(&format!("pub open spec fn jk_{t}_{}() -> Seq<char> {{ {k} }}\n", f.name));
                let missing = if f.a.default { format!("Some({})", self.dft(&f.ty)) } else { format!("None::<{}>", f.ty) };
                let mut d = |e: &str| match &f.a.de_with {
                    None => self.dec(&f.ty, e),
                    Some(p) => format!("decwith_{}_{}({e})", p.split("::").last().unwrap_or("").trim(), suffix(&f.ty)),
                };
                let (dm, dq) = (d("o[i].1"), d(&format!("s[off + {at}]")));
                lets.push_str(&format!("let f{i} = {{ let i = jfind(o, {k}); if 0 <= i < o.len() {{ {dm} }} else if i == -1 {{ {missing} }} else {{ None::<{}> }} }};\n", f.ty));
                letq.push_str(&format!("let f{i} = if 0 <= off && off + {at} < s.len() {{ {dq} }} else {{ {missing} }};\n"));
                if let Some(p) = &f.a.de_with {
                    if f.ty != "String" {
                        self.errors.push(format!("{}.{}: {} of {} is not modelled", n, f.name, p, f.ty));
                    }
                    rt.push_str(&format!("axiom_decwith_{}_{}(JVal::Str({x}@));", p.split("::").last().unwrap_or("").trim(), suffix(&f.ty)));
                } else {
                    let l = self.lx(&f.ty, "o[i].1");
                    if !l.is_empty() {
                        jxf.push_str(&format!("{{ let i = jfind(o, {k}); if 0 <= i < o.len() {{ {l} }} }}\n"));
                        let l = self.lx(&f.ty, &format!("s[off + {at}]"));
                        jxq.push_str(&format!("if 0 <= off && off + {at} < s.len() {{ {l} }}\n"));
                    }
                }
                if f.a.default && !(Self::is_prim(&f.ty) || f.ty.starts_with("Vec<")) {
                    jxf.push_str(&format!("lemma_dft_{}();\n", suffix(&f.ty)));
                    jxq.push_str(&format!("lemma_dft_{}();\n", suffix(&f.ty)));
                }
                at += 1;
            }
            let some = some.join(" && ");
            let build = build.join(", ");
            let jxs = jxs.join(" && ");
            // the names are new in `o`
            let mut req = vec!["true".to_string()];
            for k in &sk {
                let k = self.key(k);
                req.push(format!("jfind(o, {k}) == -1"));
            }
            let req = req.join(" && ");
            let (decq, lq) = if flatten {
                (format!("None::<{ty}>"), String::new())
            } else {
                (format!("{letq} if {some} {{ Some({n} {{ {build} }}) }} else {{ None::<{ty}> }}"), jxq)
            };
            self.out.push_str(&format!(
                "pub open spec fn encf_{t}(o: JObj, x: {ty}) -> JObj decreases x, 8nat {{ {e} }}\n\
                 pub open spec fn enc_{t}(x: {ty}) -> JVal decreases x, 9nat {{ JVal::Obj(encf_{t}(Seq::empty(), x)) }}\n\
                 pub open spec fn decf_{t}(o: JObj) -> Option<{ty}> decreases o, {depth}nat {{ {lets} if {some} {{ Some({n} {{ {build} }}) }} else {{ None::<{ty}> }} }}\n\
                 pub open spec fn decq_{t}(s: Seq<JVal>, off: int) -> Option<{ty}> decreases s, {depth}nat {{ {decq} }}\n\
                 pub open spec fn dec_{t}(v: JVal) -> Option<{ty}> decreases v, 9nat {{ match v {{ JVal::Obj(o) => decf_{t}(o), JVal::Arr(s) => decq_{t}(s, 0), _ => None }} }}\n\
                 pub open spec fn jx_{t}(x: {ty}) -> bool decreases x, 9nat {{ {jxs} }}\n\
                 pub proof fn lemma_rtf_{t}(o: JObj, x: {ty}) requires jx_{t}(x), {req} ensures decf_{t}(encf_{t}(o, x)) == Some(x) decreases x, 8nat {{ broadcast use group_json; {rt} }}\n\
                 pub proof fn lemma_rt_{t}(x: {ty}) requires jx_{t}(x) ensures dec_{t}(enc_{t}(x)) == Some(x) decreases x, 9nat {{ broadcast use group_json; lemma_rtf_{t}(Seq::empty(), x); }}\n\
                 pub proof fn lemma_jxf_{t}(o: JObj) ensures decf_{t}(o) matches Some(x) ==> jx_{t}(x) decreases o, {depth}nat {{ {jxf} }}\n\
                 pub proof fn lemma_jxq_{t}(s: Seq<JVal>, off: int) ensures decq_{t}(s, off) matches Some(x) ==> jx_{t}(x) decreases s, {depth}nat {{ {lq} }}\n\
                 pub proof fn lemma_jx_{t}(v: JVal) ensures dec_{t}(v) matches Some(x) ==> jx_{t}(x) decreases v, 9nat {{ match v {{ JVal::Obj(o) => {{ lemma_jxf_{t}(o); }}, JVal::Arr(s) => {{ lemma_jxq_{t}(s, 0); }}, _ => {{}} }} }}\n"
            ));
            return;
        }
        if let Some(s) = self.enums.get(&n).cloned() {
            let a = parse_attrs(&s.attrs, &n, &mut self.errors);
            let d = attr_list(&s.attrs);
            if !d.contains("Serialize") || !d.contains("Deserialize") || a.from.is_some() || a.try_from.is_some() {
                self.errors.push(format!("{} is not written and read by derived code", n));
                return;
            }
            let tag = match &a.tag {
                Some(t) => t.clone(),
                None => {
                    self.errors.push(format!("{}: an enumeration without a tag is not modelled", n));
                    return;
                }
            };
            let tk = self.key(&tag);
            let mut known = vec!["false".to_string()];
            let (mut enc, mut dec, mut deq, mut jx, mut rt, mut lx, mut lq) =
                (String::new(), format!("None::<{ty}>"), format!("None::<{ty}>"), String::new(), String::new(), String::new(), String::new());
            let mut seen = HashSet::new();
            for (num, v) in s.variants.iter().enumerate().collect::<Vec<_>>().into_iter().rev() {
                let va = parse_attrs(&v.attrs, &format!("{}::{}", n, v.ident), &mut self.errors);
                if va.skip_ser || va.skip_de || !va.alias.is_empty() {
                    self.errors.push(format!("{}::{}: its attributes are not modelled", n, v.ident));
                }
                let vn = v.ident.to_string();
                let ks = va.ren_ser.clone().unwrap_or_else(|| case(&vn, true, &a.all_ser, &mut self.errors));
                let kd = va.ren_de.clone().unwrap_or_else(|| case(&vn, true, &a.all_de, &mut self.errors));
                if !seen.insert(kd.clone()) {
                    self.errors.push(format!("{}: the name {} is used twice", n, kd));
                }
                let (ks, kd) = (self.key(&ks), self.key(&kd));
                let kd = format!("jis(k, {kd}, {num})");
                known.push(kd.clone());
                let head = format!("Seq::empty().push(({tk}, JVal::Str({ks})))");
                match &v.fields {
                    Fields::Unit => {
                        enc.push_str(&format!("{n}::{vn} => JVal::Obj({head}),\n"));
                        dec = format!("if {kd} {{ Some({n}::{vn}) }} else {{ {dec} }}");
                        deq = format!("if {kd} {{ Some({n}::{vn}) }} else {{ {deq} }}");
                        jx.push_str(&format!("{n}::{vn} => true,\n"));
                        rt.push_str(&format!("{n}::{vn} => {{}},\n"));
                    }
                    Fields::Unnamed(f) if f.unnamed.len() == 1 => {
                        let mut ty = f.unnamed[0].ty.clone();
                        Rw::new(self.w).visit_type_mut(&mut ty);
                        let fty = ty_name(&ty);
                        let g = self.struct_fields(&fty);
                        for ser in [true, false] {
                            if self.all_keys(&fty, &g, ser).contains(&tag) {
                                self.errors.push(format!("{}::{}: a field has the name of the tag", n, vn));
                            }
                        }
                        self.need(&fty);
                        let u = suffix(&fty);
                        enc.push_str(&format!("{n}::{vn}(y) => JVal::Obj(encf_{u}({head}, y)),\n"));
                        dec = format!("if {kd} {{ match decf_{u}(o) {{ Some(y) => Some({n}::{vn}(y)), None => None }} }} else {{ {dec} }}");
                        deq = format!("if {kd} {{ match decq_{u}(s, 1) {{ Some(y) => Some({n}::{vn}(y)), None => None }} }} else {{ {deq} }}");
                        jx.push_str(&format!("{n}::{vn}(y) => jx_{u}(y),\n"));
                        rt.push_str(&format!("{n}::{vn}(y) => {{ lemma_rtf_{u}({head}, y); lemma_encf_{u}({head}, y, {tk}); }},\n"));
                        lx.push_str(&format!("lemma_jxf_{u}(o);"));
                        lq.push_str(&format!("lemma_jxq_{u}(s, 1);"));
                        self.keep(&fty);
                    }
                    Fields::Named(_) => {
                        let all = Attrs { all_ser: va.all_ser.clone(), all_de: va.all_de.clone(), ..Default::default() };
                        let fs = self.fields(&format!("{}::{}", n, vn), &v.fields, &all, &None);
                        let (mut e, mut lets, mut letq, mut some, mut build, mut j, mut r) =
                            (head.clone(), String::new(), String::new(), vec!["true".to_string()], vec![], vec!["true".to_string()], String::new());
                        for (i, f) in fs.iter().enumerate() {
                            if f.a.skip_ser || f.a.skip_de || f.a.flatten || f.a.default || f.a.de_with.is_some() || f.key_ser == tag || f.keys_de[0] == tag {
                                self.errors.push(format!("{}::{}.{}: its attributes are not modelled", n, vn, f.name));
                            }
                            let v = self.enc(&f.ty, &f.name);
                            let k = self.key(&f.key_ser);
                            e = format!("{e}.push(({k}, {v}))");
                            let k = self.key(&f.keys_de[0].clone());
                            self.out.push_str(&format!("pub open spec fn jk_{t}_{vn}_{}() -> Seq<char> {{ {k} }}\n", f.name));
                            let d = self.dec(&f.ty, "o[i].1");
                            lets.push_str(&format!("let f{i} = {{ let i = jfind(o, {k}); if 0 <= i < o.len() {{ {d} }} else {{ None::<{}> }} }};\n", f.ty));
                            let d = self.dec(&f.ty, &format!("s[{}]", i + 1));
                            letq.push_str(&format!("let f{i} = if {} < s.len() {{ {d} }} else {{ None::<{}> }};\n", i + 1, f.ty));
                            some.push(format!("f{i} is Some"));
                            build.push(format!("{}: f{i}->0", f.name));
                            j.push(self.jx(&f.ty, &f.name));
                            r.push_str(&self.rt(&f.ty, &f.name));
                            let l = self.lx(&f.ty, "o[i].1");
                            if !l.is_empty() {
                                lx.push_str(&format!("{{ let i = jfind(o, {k}); if 0 <= i < o.len() {{ {l} }} }}\n"));
                                let l = self.lx(&f.ty, &format!("s[{}]", i + 1));
                                lq.push_str(&format!("if {} < s.len() {{ {l} }}\n", i + 1));
                            }
                        }
                        let ns: Vec<String> = fs.iter().map(|f| f.name.clone()).collect();
                        let ns = ns.join(", ");
                        enc.push_str(&format!("{n}::{vn} {{ {ns} }} => JVal::Obj({e}),\n"));
                        let (some, build) = (some.join(" && "), build.join(", "));
                        dec = format!("if {kd} {{ {lets} if {some} {{ Some({n}::{vn} {{ {build} }}) }} else {{ None }} }} else {{ {dec} }}");
                        deq = format!("if {kd} {{ {letq} if {some} {{ Some({n}::{vn} {{ {build} }}) }} else {{ None }} }} else {{ {deq} }}");
                        jx.push_str(&format!("{n}::{vn} {{ {ns} }} => {},\n", j.join(" && ")));
                        rt.push_str(&format!("{n}::{vn} {{ {ns} }} => {{ {r} }},\n"));
                    }
                    _ => self.errors.push(format!("{}::{}: this kind of variant is not modelled", n, vn)),
                }
            }
            let known = known.join(" || ");
            self.out.push_str(&format!("pub open spec fn jtag_{t}() -> Seq<char> {{ {tk} }}\npub open spec fn jknown_{t}(k: JVal) -> bool {{ {known} }}\n"));
            self.out.push_str(&format!(
                "pub open spec fn enc_{t}(x: {ty}) -> JVal decreases x, 9nat {{ match x {{ {enc} }} }}\n\
                 pub open spec fn dec_{t}(v: JVal) -> Option<{ty}> decreases v, 9nat {{ match v {{ JVal::Obj(o) => {{ let i = jfind(o, {tk}); if 0 <= i < o.len() {{ let k = o[i].1; {dec} }} else {{ None }} }}, JVal::Arr(s) => {{ if s.len() > 0 {{ let k = s[0]; {deq} }} else {{ None }} }}, _ => None }} }}\n\
                 pub open spec fn jx_{t}(x: {ty}) -> bool decreases x, 9nat {{ match x {{ {jx} }} }}\n\
                 pub proof fn lemma_rt_{t}(x: {ty}) requires jx_{t}(x) ensures dec_{t}(enc_{t}(x)) == Some(x) decreases x, 9nat {{ broadcast use group_json; match x {{ {rt} }} }}\n\
                 pub proof fn lemma_jx_{t}(v: JVal) ensures dec_{t}(v) matches Some(x) ==> jx_{t}(x) decreases v, 9nat {{ match v {{ JVal::Obj(o) => {{ {lx} }}, JVal::Arr(s) => {{ {lq} }}, _ => {{}} }} }}\n"
            ));
            return;
        }
        self.errors.push(format!("the type {} is not modelled", ty));
    }
    /// writing the fields leaves the other entries of the object
    fn keep(&mut self, ty: &str) {
        if !self.done.insert(format!("keep {}", ty)) {
            return;
        }
        let t = suffix(ty);
        let fs = self.struct_fields(ty);
        let ks = self.all_keys(ty, &fs, true);
        let mut r = vec!["true".to_string()];
        for k in ks {
            r.push(format!("k != {}", self.key(&k)));
        }
        let mut b = String::new();
        for f in fs.iter().filter(|f| f.a.flatten) {
            self.keep(&f.ty);
            b.push_str(&format!("lemma_encf_{}(o, x.{}, k);", suffix(&f.ty), f.name));
        }
        self.out.push_str(&format!(
            "pub proof fn lemma_encf_{t}(o: JObj, x: {ty}, k: Seq<char>) requires {} ensures jsame(o, encf_{t}(o, x), k) {{ broadcast use group_json; {b} }}\n",
            r.join(" && ")
        ));
    }
    fn depth(&mut self, fs: &[Field]) -> usize {
        let mut d = 1;
        for f in fs {
            if f.a.flatten {
                let g = self.struct_fields(&f.ty);
                d = d.max(1 + self.depth(&g));
            }
        }
        d
    }
}

pub fn generate(w: &World, files: &[(String, File)], roots: &[&str]) -> (String, Vec<String>) {
    let mut g = Gen {
        w,
        structs: Default::default(),
        enums: Default::default(),
        hand_ser: Default::default(),
        hand_de: Default::default(),
        hand_default: Default::default(),
        names: vec![],
        done: Default::default(),
        out: String::new(),
        errors: vec![],
    };
    for (_, f) in files {
        for it in &f.items {
            match it {
                Item::Struct(s) if !is_cfg_off(&s.attrs) => {
                    g.structs.insert(s.ident.to_string(), s.clone());
                }
                Item::Enum(s) if !is_cfg_off(&s.attrs) => {
                    g.enums.insert(s.ident.to_string(), s.clone());
                }
                Item::Impl(im) => {
                    if let Some((_, p, _)) = &im.trait_ {
                        let t = p.segments.last().unwrap().ident.to_string();
                        let n = ty_name(&im.self_ty).split('<').next().unwrap().to_string();
                        match t.as_str() {
                            "Serialize" => {
                                g.hand_ser.insert(n);
                            }
                            "Deserialize" => {
                                g.hand_de.insert(n);
                            }
                            "Default" => {
                                g.hand_default.insert(n);
                            }
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
    }
    for r in roots {
        g.need(r);
    }
    (g.out, g.errors)
}

struct Subst(HashMap<String, String>);
impl VisitMut for Subst {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let t = p.to_token_stream().to_string().replace(' ', "");
        if let Some(x) = self.0.get(&t) {
            *p = parse_str(x).unwrap();
        } else if p.segments.len() > 1 {
            if let Some(x) = self.0.get(&p.segments[0].ident.to_string()) {
                p.segments[0].ident = Ident::new(x, Span::call_site());
            }
        }
    }
}

/// The parameters `Serializer` and `Deserializer` of hand-written functions become the stand-ins of
/// the contracts, and `impl Serialize`, `impl TryFrom` become inherent.  Without `all` only `TryFrom` does.
pub fn concrete(files: &mut Vec<(String, File)>, all: bool) {
    fn params(sig: &mut Signature) -> HashMap<String, String> {
        let mut m = HashMap::new();
        let mut bounds: Vec<(String, Vec<String>)> = vec![];
        for p in sig.generics.params.iter() {
            if let GenericParam::Type(t) = p {
                bounds.push((t.ident.to_string(), bound_names(&t.bounds)));
            }
        }
        if let Some(w) = &sig.generics.where_clause {
            for p in &w.predicates {
                if let WherePredicate::Type(t) = p {
                    bounds.push((t.bounded_ty.to_token_stream().to_string(), bound_names(&t.bounds)));
                }
            }
        }
        for (n, b) in bounds {
            let has = |x: &str| b.iter().any(|y| y == x);
            if has("Serializer") {
                m.insert(n.clone(), "VSerializer".to_string());
                m.insert(format!("{}::Ok", n), "VJson".to_string());
                m.insert(format!("{}::Error", n), "VJsonError".to_string());
            } else if has("Deserializer") {
                m.insert(n.clone(), "VDeserializer".to_string());
                m.insert(format!("{}::Error", n), "VJsonError".to_string());
            } else if has("Deserialize") {
                // the fields that use it are strings; the generator checks that
                m.insert(n.clone(), "String".to_string());
            }
        }
        if !m.is_empty() {
            sig.generics = Generics::default();
        }
        m
    }
    for (_, f) in files.iter_mut() {
        for it in f.items.iter_mut() {
            match it {
                Item::Fn(x) if all => {
                    let m = params(&mut x.sig);
                    if !m.is_empty() {
                        Subst(m).visit_item_fn_mut(x);
                    }
                }
                Item::Impl(im) => {
                    let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    if tr.as_deref() != Some("TryFrom") && !(all && tr.as_deref() == Some("Serialize")) {
                        continue;
                    }
                    im.trait_ = None;
                    let mut own = HashMap::new();
                    for ii in im.items.iter() {
                        if let ImplItem::Type(t) = ii {
                            own.insert(format!("Self::{}", t.ident), t.ty.to_token_stream().to_string());
                        }
                    }
                    im.items.retain(|i| !matches!(i, ImplItem::Type(_)));
                    for ii in im.items.iter_mut() {
                        if let ImplItem::Fn(m) = ii {
                            let mut s = params(&mut m.sig);
                            s.extend(own.clone());
                            Subst(s).visit_impl_item_fn_mut(m);
                        }
                    }
                }
                _ => {}
            }
        }
    }
}
