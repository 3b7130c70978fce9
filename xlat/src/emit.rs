use crate::contracts::*;
use crate::model::*;
use crate::passes::*;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Output {
    pub text: String,
    pub json: String,
}
type R<T> = std::result::Result<T, String>;

#[derive(Default)]
struct FnRec {
    path: String,
    props: Vec<String>,
    status: String,
    reason: String,
    inlined: Vec<String>,
    module: String,
}

struct Glob<'a> {
    krate: &'a Crate,
    c: &'a Contracts,
    prelude_fns: BTreeSet<String>,
    prelude_mem: BTreeSet<String>,
    mem_methods: BTreeSet<String>,
    emitted: BTreeMap<String, BTreeSet<String>>, // module -> names
    mask_len: i128,
    mask_align: i128,
}

fn scan_prelude(t: &str) -> (BTreeSet<String>, BTreeSet<String>) {
    let mut all = BTreeSet::new();
    let mut mem = BTreeSet::new();
    let b: Vec<char> = t.chars().collect();
    let s: String = t.to_string();
    let mut idx = 0;
    while let Some(p) = s[idx..].find("fn ") {
        let st = idx + p;
        idx = st + 3;
        if st > 0 && (s.as_bytes()[st - 1].is_ascii_alphanumeric() || s.as_bytes()[st - 1] == b'_') {
            continue;
        }
        let line_start = s[..st].rfind('\n').map(|x| x + 1).unwrap_or(0);
        let pre = &s[line_start..st];
        if pre.contains("spec ") || pre.contains("proof ") || pre.contains("//") {
            continue;
        }
        let name: String = s[idx..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        if name.is_empty() {
            continue;
        }
        // parameter list
        let rest = &s[idx..];
        let sig: String = {
            let mut depth = 0;
            let mut o = String::new();
            for ch in rest.chars() {
                if ch == '(' {
                    depth += 1;
                }
                o.push(ch);
                if ch == ')' {
                    depth -= 1;
                    if depth == 0 {
                        break;
                    }
                }
            }
            o
        };
        if sig.contains("mem: &") {
            mem.insert(name.clone());
        }
        all.insert(name);
    }
    let _ = b;
    (all, mem)
}

pub fn emit_crate(krate: &Crate, c: &Contracts, cfg: &str, external: &BTreeSet<String>) -> Output {
    let (pf, pm) = scan_prelude(&c.prelude);
    let mut item_txt = String::new();
    for (_, t) in &c.items {
        item_txt.push_str(t);
    }
    let (pf2, pm2) = scan_prelude(&item_txt);
    let mut mem_methods: BTreeSet<String> = pm.union(&pm2).cloned().collect();
    let mut g = Glob {
        krate,
        c,
        prelude_fns: pf,
        prelude_mem: pm,
        mem_methods: BTreeSet::new(),
        emitted: BTreeMap::new(),
        mask_len: -1,
        mask_align: 1,
    };
    let _ = pf2;
    for f in c.fns.values() {
        let name = f.path.rsplit("::").next().unwrap().to_string();
        if !f.pure_ {
            mem_methods.insert(name);
        } else {
            mem_methods.remove(&name);
        }
    }
    g.mem_methods = mem_methods;
    // the tile buffer type
    if let Some((m, s)) = krate.structs.get("gemm::MaskBuffer") {
        for f in &s.fields {
            if let Type::Array(a) = &f.ty {
                if let Some(v) = krate.eval(m, &a.len, &Env::default(), 0) {
                    g.mask_len = v;
                }
            }
        }
        for a in &s.attrs {
            let t = a.to_token_stream().to_string().replace(' ', "");
            if let Some(i) = t.find("repr(align(") {
                let n: String = t[i + 11..].chars().take_while(|c| c.is_ascii_digit()).collect();
                g.mask_align = n.parse().unwrap_or(1);
            }
        }
    }
    // names emitted per module
    let mut modules: BTreeSet<String> = BTreeSet::new();
    let item_names = |t: &str| -> Vec<String> {
        let mut v = vec![];
        let toks: Vec<&str> = t.split(|ch: char| !(ch.is_alphanumeric() || ch == '_')).filter(|s| !s.is_empty()).collect();
        for w in toks.windows(2) {
            if ["fn", "struct", "trait", "type", "enum", "const"].contains(&w[0]) {
                v.push(w[1].to_string());
            }
        }
        v
    };
    for p in c.fns.keys() {
        if let Some(f) = find_fn(krate, p) {
            if f.self_ty.is_none() && f.in_trait.is_none() {
                g.emitted.entry(f.module.clone()).or_default().insert(c.fns[p].rename.clone().unwrap_or(f.sig.ident.to_string()));
            }
            modules.insert(f.module.clone());
        }
    }
    for p in c.structs.keys() {
        if let Some((m, _)) = krate.structs.get(p) {
            g.emitted.entry(m.clone()).or_default().insert(p.rsplit("::").next().unwrap().into());
            modules.insert(m.clone());
        }
        if let Some((m, _)) = krate.enums.get(p) {
            g.emitted.entry(m.clone()).or_default().insert(p.rsplit("::").next().unwrap().into());
            modules.insert(m.clone());
        }
    }
    for p in c.traits.keys() {
        if let Some((m, _)) = krate.traits.get(p) {
            g.emitted.entry(m.clone()).or_default().insert(p.rsplit("::").next().unwrap().into());
            modules.insert(m.clone());
        }
    }
    for (p, (m, _)) in &krate.types {
        if c.prelude.contains(&format!("pub struct {} ", p.rsplit("::").next().unwrap())) {
            continue;
        }
        g.emitted.entry(m.clone()).or_default().insert(p.rsplit("::").next().unwrap().into());
    }
    for (m, t) in &c.items {
        modules.insert(m.clone());
        for n in item_names(t) {
            g.emitted.entry(m.clone()).or_default().insert(n);
        }
    }
    let mut out = String::new();
    let mut recs: Vec<FnRec> = vec![];
    out.push_str("// GENERATED by /verif/xlat from /repo's macro-expanded source -- do not edit\n");
    out.push_str("#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, unused_assignments, dead_code, non_snake_case, non_camel_case_types, unreachable_code, unused_unsafe, unused_must_use, private_interfaces)]\n");
    out.push_str("use vstd::prelude::*;\n");
    out.push_str("pub mod prelude {\n");
    for (n, _) in &c.parts {
        out.push_str(&format!("pub use crate::{}::*;\n", n));
    }
    out.push_str("}\n");
    for (n, t) in &c.parts {
        out.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse vstd::std_specs::ops::*;\nuse crate::prelude::*;\nuse vstd::arithmetic::mul::*;\nuse vstd::arithmetic::div_mod::*;\nverus! {{\n{}\n}} // verus!\n}}\n", n, t));
    }
    let mut missing: Vec<(String, Vec<String>)> = vec![];
    for (p, fc) in &c.fns {
        // every contract needs its function (trait methods without body are fine)
        if find_fn(krate, p).is_none() && !trait_method_exists(krate, p) && !is_default_copy(krate, c, p) {
            missing.push((p.clone(), fc.props.clone()));
        }
    }
    for m in &modules {
        if m.contains("::") {
            continue;
        }
        let mname = if m.is_empty() { "root_".to_string() } else { m.clone() };
        out.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse vstd::std_specs::ops::*;\n#[allow(unused_imports)] use crate::prelude::*;\n", mname));
        // imports
        if let Some(us) = krate.uses.get(m) {
            for (alias, path) in us {
                let segs: Vec<String> = path.split("::").map(|s| s.to_string()).collect();
                let abs = {
                    let mut s = segs.clone();
                    if s[0] != "crate" && s[0] != "super" && s[0] != "self" && krate.modules.contains(&s[0]) {
                        s.insert(0, "crate".into());
                    }
                    krate.resolve(m, &s)
                };
                if abs.len() == 2 {
                    if g.emitted.get(&abs[0]).map_or(false, |e| e.contains(&abs[1])) && abs[0] != *m {
                        out.push_str(&format!("use crate::{}::{} as {};\n", abs[0], abs[1], alias));
                    }
                } else if abs.len() == 1 && modules.contains(&abs[0]) {
                    out.push_str(&format!("use crate::{} as {};\n", abs[0], alias));
                }
            }
        }
        out.push_str("verus! {\n");
        for (p, (tm, t)) in &krate.types {
            let nm = p.rsplit("::").next().unwrap();
            if c.prelude.contains(&format!("pub struct {} ", nm)) {
                continue;
            }
            if tm == m {
                if let Ok(ts) = ty_s(t) {
                    out.push_str(&format!("pub type {} = {};\n", p.rsplit("::").next().unwrap(), ts));
                }
            }
        }
        for (im, t) in &c.items {
            if im == m {
                out.push_str(t);
                out.push('\n');
            }
        }
        for (p, extra) in &c.structs {
            if let Some((sm, s)) = krate.structs.get(p) {
                if sm == m {
                    match emit_struct(krate, s, m, extra) {
                        Ok(t) => out.push_str(&t),
                        Err(e) => missing.push((format!("struct {}: {}", p, e), vec![])),
                    }
                }
            } else if let Some((sm, s)) = krate.enums.get(p) {
                if sm == m {
                    out.push_str(&emit_enum(krate, s, m));
                }
            }
        }
        for (p, ic) in &c.traits {
            if let Some((tm, t)) = krate.traits.get(p) {
                if tm == m {
                    out.push_str(&emit_trait(&g, m, t, ic, &mut recs));
                }
            }
        }
        // impls of contracted traits
        for im in &krate.impls {
            if im.module != *m {
                continue;
            }
            if let Some(tn) = &im.trait_name {
                let segs: Vec<String> =
                    im.item.trait_.as_ref().unwrap().1.segments.iter().map(|s| s.ident.to_string()).collect();
                let tp = krate.resolve(m, &segs).join("::");
                if c.traits.contains_key(&tp) && krate.traits.contains_key(&tp) {
                    out.push_str(&emit_impl(&g, im, &tp, tn, external, &mut recs));
                }
            }
        }
        // free functions and inherent / foreign-trait methods
        let mut by_type: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for p in c.fns.keys() {
            let f = match find_fn(krate, p) {
                Some(f) => f,
                None => continue,
            };
            if f.module != *m {
                continue;
            }
            if let Some(tn) = &f.in_trait {
                let tp = krate.resolve(m, &[tn.clone()]).join("::");
                if c.traits.contains_key(&tp) {
                    continue;
                }
            }
            if f.self_ty.is_some() {
                let ids = p.rsplit_once("::").unwrap().0.to_string();
                by_type.entry(ids).or_default().push(p.clone());
                continue;
            }
            if f.in_trait.is_some() {
                continue;
            }
            out.push_str(&emit_fn(&g, p, &f, &c.fns[p], None, external, &mut recs, false));
        }
        for (_tp, ps) in by_type {
            // group by identical generics (one impl block per method keeps it simple)
            for p in ps {
                let f = find_fn(krate, &p).unwrap();
                let st = f.self_ty.clone().unwrap();
                let gens = gen_params(&f.impl_generics);
                let sts = ty_s(&st).unwrap_or("UNSUPPORTED".into());
                let hdr = c.fns[&p].where_.clone().unwrap_or(format!("impl{} {}", gens, strip_lts(&sts)));
                out.push_str(&format!("{} {{\n", hdr));
                out.push_str(&emit_fn(&g, &p, &f, &c.fns[&p], None, external, &mut recs, false));
                out.push_str("}\n");
            }
        }
        out.push_str("} // verus!\n}\n");
    }
    out.push_str("fn main() {}\n");
    // ---- json
    let mut j = String::from("{\n");
    let jp = |v: &Vec<String>| -> String {
        format!("[{}]", v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","))
    };
    j.push_str(&format!("\"cfg\": \"{}\",\n\"functions\": [\n", cfg));
    let lines: Vec<&str> = out.lines().collect();
    let mut starts: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for (i, l) in lines.iter().enumerate() {
        if let Some(p) = l.strip_prefix("//@BEGIN ") {
            starts.insert(p.to_string(), (i + 1, 0));
        }
        if let Some(p) = l.strip_prefix("//@END ") {
            if let Some(e) = starts.get_mut(p) {
                e.1 = i + 1;
            }
        }
    }
    let mut first = true;
    for r in &recs {
        let (a, b) = starts.get(&r.path).cloned().unwrap_or((0, 0));
        if !first {
            j.push_str(",\n");
        }
        first = false;
        j.push_str(&format!(
            "{{\"path\":\"{}\",\"module\":\"{}\",\"lines\":[{},{}],\"props\":{},\"status\":\"{}\",\"reason\":\"{}\",\"inlined\":{}}}",
            esc(&r.path),
            esc(&r.module),
            a,
            b,
            jp(&r.props),
            r.status,
            esc(&r.reason),
            jp(&r.inlined)
        ));
    }
    j.push_str("\n],\n\"missing\": [");
    j.push_str(
        &missing
            .iter()
            .map(|(p, pr)| format!("{{\"path\":\"{}\",\"props\":{}}}", esc(p), jp(pr)))
            .collect::<Vec<_>>()
            .join(","),
    );
    j.push_str("],\n\"clauses\": {\n");
    let mut first = true;
    for (i, l) in lines.iter().enumerate() {
        if let Some(k) = l.rfind("/*@") {
            if let Some(e) = l[k..].find("*/") {
                let body = &l[k + 3..k + e];
                if !first {
                    j.push_str(",\n");
                }
                first = false;
                j.push_str(&format!("\"{}\": \"{}\"", i + 1, esc(body)));
            }
        }
    }
    j.push_str("\n}\n}\n");
    Output { text: out, json: j }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ").replace('\t', " ")
}
fn strip_lts(s: &str) -> String {
    s.to_string()
}

/// functions, nested functions, consts and statics as functions
pub fn find_fn(k: &Crate, p: &str) -> Option<FnDef> {
    if let Some(f) = k.fns.get(p) {
        return Some(f.clone());
    }
    // nested fn
    if let Some((outer, inner)) = p.rsplit_once("::") {
        if let Some(f) = k.fns.get(outer) {
            for s in &f.block.stmts {
                if let Stmt::Item(Item::Fn(nf)) = s {
                    if nf.sig.ident == inner {
                        return Some(FnDef {
                            path: p.into(),
                            module: f.module.clone(),
                            sig: nf.sig.clone(),
                            block: (*nf.block).clone(),
                            self_ty: None,
                            in_trait: None,
                            impl_generics: Generics::default(),
                            attrs: nf.attrs.clone(),
                        });
                    }
                }
            }
        }
    }
    let (m, t, e) = if let Some(x) = k.consts.get(p) {
        x.clone()
    } else if let Some(x) = k.statics.get(p) {
        x.clone()
    } else {
        return None;
    };
    let mut e = e;
    let mut t = t;
    if let Expr::Reference(r) = &e {
        e = (*r.expr).clone();
    }
    if let Type::Reference(r) = &t {
        t = (*r.elem).clone();
    }
    if let Expr::Call(c) = &e {
        let l = last_seg(&c.func).unwrap_or_default();
        if l == "new" && c.args.len() == 1 {
            if let Expr::Closure(cl) = &c.args[0] {
                e = (*cl.body).clone();
                if let Type::Path(tp) = &t {
                    if let PathArguments::AngleBracketed(a) = &tp.path.segments.last().unwrap().arguments {
                        if let Some(GenericArgument::Type(x)) = a.args.first() {
                            t = x.clone();
                        }
                    }
                }
            }
        }
    }
    let name = p.rsplit("::").next().unwrap();
    let ts = t.to_token_stream();
    let id = Ident::new(name, proc_macro2::Span::call_site());
    let sig: Signature = syn::parse2(quote::quote!(fn #id() -> #ts)).ok()?;
    let block = match e {
        Expr::Block(b) => b.block,
        x => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(x, None)] },
    };
    Some(FnDef {
        path: p.into(),
        module: m,
        sig,
        block,
        self_ty: None,
        in_trait: None,
        impl_generics: Generics::default(),
        attrs: vec![],
    })
}
fn trait_method_exists(k: &Crate, p: &str) -> bool {
    if let Some((t, n)) = p.rsplit_once("::") {
        if let Some((_, tr)) = k.traits.get(t) {
            return tr.items.iter().any(|i| match i {
                TraitItem::Fn(f) => f.sig.ident == n,
                TraitItem::Const(c) => c.ident == n,
                _ => false,
            });
        }
    }
    false
}
/// contract for a trait default method copied into an impl, or an impl const
fn is_default_copy(k: &Crate, c: &Contracts, p: &str) -> bool {
    if let Some((ty, n)) = p.rsplit_once("::") {
        let (m, tyn) = match ty.rsplit_once("::") {
            Some(x) => x,
            None => return false,
        };
        for i in &k.impls {
            if i.module == m && i.self_name == tyn {
                if let Some(tn) = &i.trait_name {
                    let tp = k.resolve(m, &[tn.clone()]).join("::");
                    if c.traits.contains_key(&tp) && trait_method_exists(k, &format!("{}::{}", tp, n)) {
                        return true;
                    }
                }
            }
        }
    }
    false
}

// ---------------------------------------------------------------- types
pub fn ty_s(t: &Type) -> R<String> {
    Ok(match t {
        Type::Path(p) => {
            if let Some(q) = &p.qself {
                let qt = ty_s(&q.ty)?;
                if p.path.segments.len() >= 2 && q.position > 0 {
                    let tr = p.path.segments[q.position - 1].ident.to_string();
                    return Ok(format!("<{} as {}>::{}", qt, tr, p.path.segments.last().unwrap().ident));
                }
                return Ok(format!("<{}>::{}", qt, p.path.segments.last().unwrap().ident));
            }
            let segs = &p.path.segments;
            let last = segs.last().unwrap();
            let id = last.ident.to_string();
            let args: Vec<String> = match &last.arguments {
                PathArguments::AngleBracketed(a) => {
                    let mut v = vec![];
                    for x in &a.args {
                        match x {
                            GenericArgument::Type(t) => v.push(ty_s(t)?),
                            GenericArgument::Lifetime(_) => {}
                            GenericArgument::AssocType(at) => v.push(format!("{} = {}", at.ident, ty_s(&at.ty)?)),
                            other => return Err(format!("type argument {}", other.to_token_stream())),
                        }
                    }
                    v
                }
                _ => vec![],
            };
            if segs.len() >= 2 {
                let first = segs[0].ident.to_string();
                if first == "Self" || first.len() <= 2 && first.chars().next().unwrap().is_uppercase() {
                    let v: Vec<String> = segs.iter().map(|s| s.ident.to_string()).collect();
                    return Ok(v.join("::"));
                }
            }
            match id.as_str() {
                "f32" => "F32".into(),
                "f64" => "F64".into(),
                "__m256" => "V8".into(),
                "__m256d" => "V4d".into(),
                "__m128" => "V4".into(),
                "__m128d" => "V2d".into(),
                "float32x4_t" => "V4".into(),
                "float64x2_t" => "V2d".into(),
                "Ptr" if args.len() == 1 => args[0].clone(),
                "Box" if args.len() == 1 => args[0].clone(),
                _ => {
                    if args.is_empty() {
                        id
                    } else {
                        format!("{}<{}>", id, args.join(", "))
                    }
                }
            }
        }
        Type::Ptr(p) => format!("P<{}>", ty_s(&p.elem)?),
        Type::Reference(r) => match &*r.elem {
            Type::Slice(s) => format!("Sl<{}>", ty_s(&s.elem)?),
            Type::Path(p) if p.path.is_ident("str") => "Str".into(),
            e => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, ty_s(e)?),
        },
        Type::Array(a) => {
            let e = ty_s(&a.elem)?;
            if (e == "F32" || e == "F64") && as_int(&a.len) == Some(2) {
                format!("Cx<{}>", e)
            } else {
                format!("[{}; {}]", e, a.len.to_token_stream())
            }
        }
        Type::Tuple(t) => {
            let v: R<Vec<String>> = t.elems.iter().map(ty_s).collect();
            let v = v?;
            if v.len() == 1 {
                format!("({},)", v[0])
            } else {
                format!("({})", v.join(", "))
            }
        }
        Type::Paren(p) => ty_s(&p.elem)?,
        Type::Group(p) => ty_s(&p.elem)?,
        Type::Infer(_) => "_".into(),
        Type::Never(_) => "!".into(),
        Type::BareFn(b) if b.inputs.is_empty() && matches!(b.output, ReturnType::Default) => "NopFn".into(),
        other => return Err(format!("type {}", other.to_token_stream())),
    })
}
fn bounds_s(b: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> String {
    let mut v = vec![];
    for x in b {
        if let TypeParamBound::Trait(t) = x {
            let tp = Type::Path(TypePath { qself: None, path: t.path.clone() });
            if let Ok(s) = ty_s(&tp) {
                if ["Sync", "Send", "Clone", "Debug"].contains(&s.as_str()) || s.starts_with("Fn") {
                    continue;
                }
                v.push(s);
            }
        }
    }
    v.join(" + ")
}
fn gen_params(g: &Generics) -> String {
    let mut v = vec![];
    for p in &g.params {
        if let GenericParam::Type(t) = p {
            let b = bounds_s(&t.bounds);
            if b.is_empty() {
                v.push(t.ident.to_string());
            } else {
                v.push(format!("{}: {}", t.ident, b));
            }
        }
    }
    if v.is_empty() {
        String::new()
    } else {
        format!("<{}>", v.join(", "))
    }
}
fn where_s(g: &Generics) -> String {
    let mut v = vec![];
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                let b = bounds_s(&t.bounds);
                if b.is_empty() {
                    continue;
                }
                if let Ok(s) = ty_s(&t.bounded_ty) {
                    v.push(format!("{}: {}", s, b));
                }
            }
        }
    }
    if v.is_empty() {
        String::new()
    } else {
        format!(" where {}", v.join(", "))
    }
}
fn is_copy(k: &Crate, m: &str, n: &str) -> bool {
    k.impls.iter().any(|i| i.module == m && i.self_name == n && i.trait_name.as_deref() == Some("Copy"))
}
fn emit_struct(k: &Crate, s: &ItemStruct, m: &str, extra: &str) -> R<String> {
    let n = s.ident.to_string();
    let mut o = String::new();
    if is_copy(k, m, &n) {
        o.push_str("#[derive(Clone, Copy)]\n");
    }
    let gens = gen_params(&s.generics);
    let mut used = false;
    let mut fs = vec![];
    for (i, f) in s.fields.iter().enumerate() {
        used = true;
        let t = ty_s(&f.ty)?;
        match &f.ident {
            Some(id) => fs.push(format!("pub {}: {}", id, t)),
            None => fs.push(format!("pub x{}: {}", i, t)),
        }
    }
    for l in extra.lines() {
        let l = l.trim().trim_end_matches(',');
        if !l.is_empty() {
            fs.push(l.to_string());
            used = true;
        }
    }
    for p in s.generics.type_params() {
        o.push_str(&format!("#[verifier::reject_recursive_types({})]\n", p.ident));
    }
    if !used {
        o.push_str(&format!("pub struct {}{};\n", n, gens));
    } else {
        o.push_str(&format!("pub struct {}{} {{ {} }}\n", n, gens, fs.join(", ")));
    }
    Ok(o)
}
fn emit_enum(k: &Crate, s: &ItemEnum, m: &str) -> String {
    let n = s.ident.to_string();
    let mut o = String::new();
    if is_copy(k, m, &n) {
        o.push_str("#[derive(Clone, Copy)]\n");
    }
    let v: Vec<String> = s
        .variants
        .iter()
        .map(|v| match &v.fields {
            Fields::Unnamed(u) => {
                let t: Vec<String> = u.unnamed.iter().map(|f| ty_s(&f.ty).unwrap_or("UNSUPPORTED".into())).collect();
                format!("{}({})", v.ident, t.join(", "))
            }
            _ => v.ident.to_string(),
        })
        .collect();
    o.push_str(&format!("pub enum {} {{ {} }}\n", n, v.join(", ")));
    o
}

fn clause_lines(kind: &str, fnp: &str, props: &[String], cl: &[Clause]) -> String {
    let mut o = String::new();
    if cl.is_empty() {
        return o;
    }
    if !kind.is_empty() {
        o.push_str(&format!("    {}\n", kind_kw(kind)));
    }
    for c in cl {
        let tags = if c.tags.is_empty() { props } else { &c.tags };
        o.push_str(&format!("        {}, /*@{} {} [{}]*/\n", c.text, kind, fnp, tags.join(" ")));
    }
    o
}
fn kind_kw(k: &str) -> &str {
    match k {
        "req" => "requires",
        "ens" => "ensures",
        "inv" => "invariant",
        "invx" => "invariant_except_break",
        "lens" => "ensures",
        x => x,
    }
}

fn emit_trait(g: &Glob, m: &str, t: &ItemTrait, ic: &ImplC, recs: &mut Vec<FnRec>) -> String {
    let _ = recs;
    let tp = Crate_join(m, &t.ident.to_string());
    let copy = t.supertraits.to_token_stream().to_string().contains("Copy");
    let mut o = format!(
        "pub trait {}{}: Sized{}{} {{\n",
        t.ident,
        ic.igen.clone().unwrap_or(gen_params(&t.generics)),
        if copy { " + Copy" } else { "" },
        if ic.sup.is_empty() { String::new() } else { format!(" + {}", ic.sup) }
    );
    for (a, _, ty) in &ic.specval {
        o.push_str(&format!("    spec fn {}() -> {};\n", a, ty));
    }
    for i in &t.items {
        if let TraitItem::Type(a) = i {
            let b = bounds_s(&a.bounds);
            o.push_str(&format!("    type {}{};\n", a.ident, if b.is_empty() { String::new() } else { format!(": {}", b) }));
        }
    }
    o.push_str(&ic.spec);
    for i in &t.items {
        match i {
            TraitItem::Const(c) => {
                let p = format!("{}::{}", tp, c.ident);
                if let Some(fc) = g.c.fns.get(&p) {
                    o.push_str(&format!("    fn {}_() -> (r: {})\n", c.ident, ty_s(&c.ty).unwrap_or_default()));
                    o.push_str(&clause_lines("req", &p, &fc.props, &fc.req));
                    o.push_str(&clause_lines("ens", &p, &fc.props, &fc.ens));
                    o.push_str("    ;\n");
                }
            }
            TraitItem::Fn(f) => {
                let p = format!("{}::{}", tp, f.sig.ident);
                if let Some(fc) = g.c.fns.get(&p) {
                    match header(g, m, &f.sig, fc, &p, true, &[]) {
                        Ok(h) => {
                            o.push_str(&h);
                            o.push_str("    ;\n");
                        }
                        Err(e) => o.push_str(&format!("    UNSUPPORTED {}\n", e)),
                    }
                }
            }
            _ => {}
        }
    }
    o.push_str("}\n");
    o
}
#[allow(non_snake_case)]
fn Crate_join(m: &str, n: &str) -> String {
    if m.is_empty() {
        n.into()
    } else {
        format!("{}::{}", m, n)
    }
}

fn emit_impl(g: &Glob, im: &ImplDef, tp: &str, tn: &str, external: &BTreeSet<String>, recs: &mut Vec<FnRec>) -> String {
    let (tmod, tr) = &g.krate.traits[tp];
    let key = format!("{}::{} as {}", im.module, im.self_name, tn);
    let ic = g.c.impls.get(&key).cloned().unwrap_or_default();
    let st = match ty_s(&im.self_ty) {
        Ok(s) => s,
        Err(e) => format!("UNSUPPORTED {}", e),
    };
    let targs: Vec<String> = match &im.item.trait_.as_ref().unwrap().1.segments.last().unwrap().arguments {
        PathArguments::AngleBracketed(a) => a
            .args
            .iter()
            .filter_map(|x| if let GenericArgument::Type(t) = x { ty_s(t).ok() } else { None })
            .collect(),
        _ => vec![],
    };
    let ta = if targs.is_empty() { String::new() } else { format!("<{}>", targs.join(", ")) };
    let mut o = format!(
        "impl{} {}{} for {}{} {{\n",
        ic.igen.clone().unwrap_or(gen_params(&im.item.generics)),
        tn,
        ta,
        st,
        where_s(&im.item.generics)
    );
    let mut have: BTreeSet<String> = BTreeSet::new();
    for it in &im.item.items {
        if let ImplItem::Type(t) = it {
            o.push_str(&format!("    type {} = {};\n", t.ident, ty_s(&t.ty).unwrap_or("UNSUPPORTED".into())));
        }
    }
    o.push_str(&ic.spec);
    if let Some(tc) = g.c.traits.get(tp) {
        for (a, meth, ty) in &tc.specval {
            let v = spec_val(g.krate, im, tn, meth, 0);
            let body = match (v, ty.as_str()) {
                (Some(v), "bool") => format!("{}", v != 0),
                (Some(v), _) => format!("{}", v),
                (None, _) => "arbitrary()".to_string(),
            };
            o.push_str(&format!("    open spec fn {}() -> {} {{ {} }}\n", a, ty, body));
        }
    }
    let mut do_const = |name: &Ident, ty: &Type, e: &Expr, module: &str, o: &mut String| {
        let tpth = format!("{}::{}", tp, name);
        if let Some(tfc) = g.c.fns.get(&tpth) {
            let p = format!("{}::{}::{}", im.module, im.self_name, name);
            let fnc = merged(g, &p, tfc);
            let id = Ident::new(&format!("{}_", name), name.span());
            let sig: Signature = syn::parse2(quote::quote!(fn #id() -> #ty)).unwrap();
            let f = FnDef {
                path: p.clone(),
                module: module.to_string(),
                sig,
                block: Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] },
                self_ty: Some(im.self_ty.clone()),
                in_trait: Some(tn.into()),
                impl_generics: Generics::default(),
                attrs: vec![],
            };
            o.push_str(&emit_fn(g, &p, &f, &fnc, Some(im), external, recs, true));
        }
    };
    for it in &im.item.items {
        if let ImplItem::Const(c) = it {
            have.insert(c.ident.to_string());
            do_const(&c.ident, &c.ty, &c.expr, &im.module, &mut o);
        }
    }
    for ti in &tr.items {
        if let TraitItem::Const(c) = ti {
            if !have.contains(&c.ident.to_string()) {
                if let Some((_, e)) = &c.default {
                    // evaluated in the impl, so that `Self` is the implementing type
                    do_const(&c.ident, &c.ty, e, tmod, &mut o);
                }
            }
        }
    }
    for it in &im.item.items {
        if let ImplItem::Fn(f) = it {
            have.insert(f.sig.ident.to_string());
            let tpth = format!("{}::{}", tp, f.sig.ident);
            if let Some(tfc) = g.c.fns.get(&tpth) {
                let p = format!("{}::{}::{}", im.module, im.self_name, f.sig.ident);
                let fnc = merged(g, &p, tfc);
                let fd = FnDef {
                    path: p.clone(),
                    module: im.module.clone(),
                    sig: f.sig.clone(),
                    block: f.block.clone(),
                    self_ty: Some(im.self_ty.clone()),
                    in_trait: Some(tn.into()),
                    impl_generics: Generics::default(),
                    attrs: f.attrs.clone(),
                };
                o.push_str(&emit_fn(g, &p, &fd, &fnc, Some(im), external, recs, true));
            }
        }
    }
    for ti in &tr.items {
        if let TraitItem::Fn(f) = ti {
            if !have.contains(&f.sig.ident.to_string()) {
                let tpth = format!("{}::{}", tp, f.sig.ident);
                if let (Some(b), Some(tfc)) = (&f.default, g.c.fns.get(&tpth)) {
                    let p = format!("{}::{}::{}", im.module, im.self_name, f.sig.ident);
                    let fnc = merged(g, &p, tfc);
                    let fd = FnDef {
                        path: p.clone(),
                        module: tmod.clone(),
                        sig: f.sig.clone(),
                        block: b.clone(),
                        self_ty: Some(im.self_ty.clone()),
                        in_trait: Some(tn.into()),
                        impl_generics: Generics::default(),
                        attrs: f.attrs.clone(),
                    };
                    o.push_str(&emit_fn(g, &p, &fd, &fnc, Some(im), external, recs, true));
                }
            }
        }
    }
    o.push_str("}\n");
    o
}
/// value of an argument-less trait method of this impl, if it is a constant of the source
fn spec_val(k: &Crate, im: &ImplDef, tn: &str, meth: &str, depth: u32) -> Option<i128> {
    if depth > 8 {
        return None;
    }
    let mut body: Option<(String, Block)> = None;
    let blk = |e: &Expr| Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] };
    for it in &im.item.items {
        if let ImplItem::Const(c) = it {
            if c.ident == meth {
                body = Some((im.module.clone(), blk(&c.expr)));
            }
        }
        if let ImplItem::Fn(f) = it {
            if f.sig.ident == meth {
                body = Some((im.module.clone(), f.block.clone()));
            }
        }
    }
    if body.is_none() {
        let segs: Vec<String> = im.item.trait_.as_ref()?.1.segments.iter().map(|s| s.ident.to_string()).collect();
        let tp = k.resolve(&im.module, &segs).join("::");
        let (tm, t) = k.traits.get(&tp)?;
        for it in &t.items {
            if let TraitItem::Const(c) = it {
                if c.ident == meth {
                    body = c.default.as_ref().map(|(_, e)| (tm.clone(), blk(e)));
                }
            }
            if let TraitItem::Fn(f) = it {
                if f.sig.ident == meth {
                    body = f.default.clone().map(|b| (tm.clone(), b));
                }
            }
        }
    }
    let (m, b) = body?;
    let e = match &b.stmts[..] {
        [Stmt::Expr(e, None)] => e.clone(),
        _ => return None,
    };
    if let Expr::Call(c) = &e {
        if let (Expr::Path(p), 0) = (&*c.func, c.args.len()) {
            let name = p.path.segments.last()?.ident.to_string();
            let ty = match &p.qself {
                Some(q) => type_name(&q.ty),
                None if p.path.segments.len() == 2 => p.path.segments[0].ident.to_string(),
                _ => return None,
            };
            let o = k.impls.iter().find(|i| {
                i.module == im.module
                    && (i.self_name == ty || ty == "Self" && i.self_name == im.self_name)
                    && i.trait_name.as_deref() == Some(tn)
            })?;
            return spec_val(k, o, tn, &name, depth + 1);
        }
    }
    let mut env = Env::with_self(&im.self_ty);
    env.self_module = Some(im.module.clone());
    k.eval(&m, &e, &env, 0)
}
/// contract of an impl method: its own proof text, the trait's purity and properties
fn merged(g: &Glob, p: &str, tfc: &FnC) -> FnC {
    match g.c.fns.get(p) {
        Some(f) => {
            let mut f = f.clone();
            f.pure_ = tfc.pure_;
            if f.props.is_empty() {
                f.props = tfc.props.clone();
            }
            f.ret = tfc.ret.clone();
            f
        }
        None => FnC {
            path: p.into(),
            props: tfc.props.clone(),
            pure_: tfc.pure_,
            ret: tfc.ret.clone(),
            ..Default::default()
        },
    }
}

fn param_name(p: &Pat, i: usize) -> String {
    match p {
        Pat::Ident(pi) => {
            let s = pi.ident.to_string();
            if s == "_" {
                format!("_p{}", i)
            } else {
                s
            }
        }
        _ => format!("_p{}", i),
    }
}
/// `#[target_feature(enable = "..")]`: the CPU must have them when the function is entered
pub fn target_feats(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        let t = a.to_token_stream().to_string().replace(' ', "");
        if let Some(i) = t.find("target_feature(enable=\"") {
            let s: String = t[i + 23..].chars().take_while(|c| *c != '"').collect();
            for f in s.split(',') {
                v.push(f.replace('.', "_"));
            }
        }
    }
    v
}
fn header(_g: &Glob, _m: &str, sig: &Signature, fc: &FnC, p: &str, in_trait: bool, feats: &[String]) -> R<String> {
    let mut ps = vec![];
    for (i, a) in sig.inputs.iter().enumerate() {
        match a {
            FnArg::Receiver(r) => {
                let s = if r.reference.is_some() {
                    if r.mutability.is_some() {
                        "&mut self"
                    } else {
                        "&self"
                    }
                } else {
                    "self"
                };
                ps.push(s.to_string());
            }
            FnArg::Typed(pt) => {
                ps.push(format!("{}: {}", param_name(&pt.pat, i), ty_s(&pt.ty)?));
            }
        }
    }
    if !fc.pure_ {
        ps.push("mem: &mut Mem".into());
    }
    let ret = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => match &**t {
            Type::Never(_) => " -> !".into(),
            Type::Tuple(tt) if tt.elems.is_empty() => String::new(),
            t => format!(" -> ({}: {})", fc.ret.clone().unwrap_or("r".into()), ty_s(t)?),
        },
    };
    let mut o = String::new();
    for l in fc.attrs.lines() {
        o.push_str(l);
        o.push('\n');
    }
    let vis = if in_trait { "" } else { "pub " };
    let name = fc.rename.clone().unwrap_or(sig.ident.to_string());
    if let Some(sg) = &fc.sig {
        o.push_str(&format!("{}fn {}{}\n", vis, name, sg));
    } else {
    o.push_str(&format!(
        "{}fn {}{}({}){}{}\n",
        vis,
        name,
        fc.gen.clone().unwrap_or(gen_params(&sig.generics)),
        ps.join(", "),
        ret,
        where_s(&sig.generics)
    ));
    }
    let mut req = fc.req.clone();
    for tf in feats {
        req.push(Clause { tags: vec!["C11".into()], text: format!("old(mem).v@.cpu.{}", tf) });
    }
    o.push_str(&clause_lines("req", p, &fc.props, &req));
    o.push_str(&clause_lines("ens", p, &fc.props, &fc.ens));
    if let Some(d) = &fc.dec {
        o.push_str(&format!("    decreases {}\n", d));
    }
    Ok(o)
}

fn emit_fn(
    g: &Glob,
    p: &str,
    f: &FnDef,
    fc: &FnC,
    im: Option<&ImplDef>,
    external: &BTreeSet<String>,
    recs: &mut Vec<FnRec>,
    in_trait: bool,
) -> String {
    let lies_in = im.map(|i| i.module.clone()).unwrap_or(f.module.clone()); // inherited trait methods are emitted in the impl
    let mut rec = FnRec { path: p.into(), props: fc.props.clone(), module: lies_in, ..Default::default() };
    let body: R<String> = if external.contains(p) {
        Err("excluded after a compile error".into())
    } else if let Some(t) = &fc.trusted {
        Err(format!("trusted: {}", t))
    } else {
        let mut em = Em::new(g, f, fc, im);
        let r = em.function();
        rec.inlined = em.inlined.clone();
        r
    };
    let mut o = format!("//@BEGIN {}\n", p);
    let mut sig = f.sig.clone();
    sig.unsafety = None;
    let h = match header(g, &f.module, &sig, fc, p, in_trait, &target_feats(&f.attrs)) {
        Ok(h) => h,
        Err(e) => {
            rec.status = "unsupported".into();
            rec.reason = e;
            recs.push(rec);
            return String::new();
        }
    };
    match body {
        Ok(b) => {
            rec.status = "verified".into();
            o.push_str(&h);
            o.push_str("{\n");
            o.push_str(&b);
            o.push_str("}\n");
        }
        Err(e) => {
            rec.status = if external.contains(p) {
                "compile-error"
            } else if e.starts_with("trusted") {
                "trusted"
            } else {
                "unsupported"
            }
            .into();
            rec.reason = e;
            o.push_str("#[verifier::external_body]\n");
            o.push_str(&h);
            o.push_str("{ unimplemented!() }\n");
        }
    }
    o.push_str(&format!("//@END {}\n", p));
    recs.push(rec);
    o
}

// ---------------------------------------------------------------- function bodies
struct Em<'a> {
    g: &'a Glob<'a>,
    f: &'a FnDef,
    /// calls seen so far of each function with @oncall text
    ocount: std::cell::RefCell<BTreeMap<String, i64>>,
    fc: &'a FnC,
    im: Option<&'a ImplDef>,
    module: String,
    refvars: BTreeSet<String>,
    locals: BTreeSet<String>,
    loop_counts: BTreeMap<String, usize>,
    used_loops: BTreeSet<usize>,
    anchor_counts: BTreeMap<String, usize>,
    used_at: BTreeSet<usize>,
    inlined: Vec<String>,
    tmp: u32,
    alloc_vars: Vec<String>,
}

impl<'a> Em<'a> {
    fn new(g: &'a Glob<'a>, f: &'a FnDef, fc: &'a FnC, im: Option<&'a ImplDef>) -> Self {
        Em {
            g,
            f,
            fc,
            im,
            module: f.module.clone(),
            refvars: BTreeSet::new(),
            locals: BTreeSet::new(),
            loop_counts: BTreeMap::new(),
            used_loops: BTreeSet::new(),
            anchor_counts: BTreeMap::new(),
            used_at: BTreeSet::new(),
            inlined: vec![],
            tmp: 0,
            ocount: Default::default(),
            alloc_vars: vec![],
        }
    }
    fn function(&mut self) -> R<String> {
        let mut b = self.f.block.clone();
        let mut o = String::new();
        // early exits of the whole body written as `return e;` at the end
        tail_return(&mut b);
        for a in &self.f.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    if r.reference.is_some() {
                        self.refvars.insert("self".into());
                    }
                }
                FnArg::Typed(pt) => {
                    let n = match &*pt.pat {
                        Pat::Ident(pi) => {
                            if pi.mutability.is_some() {
                                o.push_str(&format!("let mut {} = {};\n", pi.ident, pi.ident));
                            }
                            pi.ident.to_string()
                        }
                        Pat::Wild(_) => continue,
                        _ => return Err("parameter pattern".into()),
                    };
                    if let Type::Reference(r) = &*pt.ty {
                        if !matches!(&*r.elem, Type::Slice(_)) {
                            self.refvars.insert(n.clone());
                        }
                    }
                    self.locals.insert(n);
                }
            }
        }
        let mut pv = PatI(BTreeSet::new());
        pv.visit_block(&b);
        let all_locals: BTreeSet<String> = self.locals.union(&pv.0).cloned().collect();
        self.locals = all_locals.clone();
        let mut env = match self.im {
            Some(i) => {
                let mut e = Env::with_self(&i.self_ty);
                e.self_module = Some(i.module.clone());
                e
            }
            None => Env::default(),
        };
        if self.im.is_none() {
            if let Some(st) = &self.f.self_ty {
                env = Env::with_self(st);
            }
        }
        // const generics by type parameter are left symbolic
        let g = self.g;
        let hc = move |p: &str| g.c.fns.contains_key(p);
        let km = move |n: &str| {
            g.prelude_fns.contains(n)
                || g.prelude_fns.contains(&format!("{}_m_", n))
                || g.prelude_fns.contains(&format!("{}_", n))
                || ["with", "max", "min", "unwrap", "len", "join"].contains(&n)
                || g.c.fns.keys().any(|k| k.ends_with(&format!("::{}", n)))
                || g.c.items.iter().any(|(_, t)| t.contains(&format!("fn {}(", n)))
        };
        let loops: BTreeSet<String> =
            self.fc.loops.iter().map(|l| l.key.split('#').next().unwrap().trim().to_string()).collect();
        let hl = |k: &str| loops.contains(k);
        for _ in 0..3 {
            Simplify {
                krate: g.krate,
                module: self.module.clone(),
                locals: all_locals.clone(),
                env: env.clone(),
                dropped: vec![],
            }
            .visit_block_mut(&mut b);
            let mut inl = Inliner {
                krate: g.krate,
                module: self.module.clone(),
                fn_path: self.f.path.clone(),
                has_contract: &hc,
                counter: self.tmp * 1000,
                depth: 0,
                inlined: vec![],
                err: None,
                locals: all_locals.clone(),
                generics: self.f.sig.generics.params.iter().chain(self.f.impl_generics.params.iter()).filter_map(|g| if let GenericParam::Type(t) = g { Some(t.ident.to_string()) } else { None }).collect(),
                known_method: &km,
            };
            inl.visit_block_mut(&mut b);
            if let Some(e) = inl.err {
                return Err(e);
            }
            self.tmp += 1;
            self.inlined.extend(inl.inlined);
            Unroll { has_loop: &hl }.visit_block_mut(&mut b);
        }
        Simplify {
            krate: g.krate,
            module: self.module.clone(),
            locals: all_locals,
            env,
            dropped: vec![],
        }
        .visit_block_mut(&mut b);
        Sroa { done: vec![] }.visit_block_mut(&mut b);
        let mut pv = PatI(BTreeSet::new());
        pv.visit_block(&b);
        self.locals.extend(pv.0);
        o.push_str(&self.fc.start);
        // variables whose type owns an allocation are dropped at the end of the body
        let has_tail = matches!(b.stmts.last(), Some(Stmt::Expr(_, None)))
            && !matches!(self.f.sig.output, ReturnType::Default);
        if has_tail {
            let last = b.stmts.pop();
            self.stmts(&b.stmts, &mut o)?;
            if let Some(Stmt::Expr(e, None)) = last {
                self.anchors_stmt("before", &Stmt::Expr(e.clone(), None), "tail", &mut o)?;
                let x = self.expr(&e)?;
                o.push_str(&format!("let r__ = {};\n", x));
                self.drops(&mut o)?;
                o.push_str(&self.fc.end);
                o.push_str("r__\n");
            }
        } else {
            self.stmts(&b.stmts, &mut o)?;
            self.drops(&mut o)?;
            o.push_str(&self.fc.end);
        }
        for (i, l) in self.fc.loops.iter().enumerate() {
            if !self.used_loops.contains(&i) && !l.key.starts_with("stage ") {
                return Err(format!("lost anchor: loop `{}`", l.key));
            }
        }
        for (i, a) in self.fc.ats.iter().enumerate() {
            if !self.used_at.contains(&i) && !a.optional {
                return Err(format!("lost anchor: `{}`", a.anchor));
            }
        }
        Ok(o)
    }
    fn drops(&mut self, o: &mut String) -> R<()> {
        for v in self.alloc_vars.clone().iter().rev() {
            o.push_str(&format!("{}.drop(mem);\n", v));
        }
        Ok(())
    }

    // ---- statements
    fn descr(&self, s: &Stmt) -> Vec<String> {
        let mut v = vec![];
        match s {
            Stmt::Local(l) => {
                for n in pat_idents(&l.pat) {
                    v.push(format!("let {}", n));
                    let b = base_name(&n);
                    if b != n {
                        v.push(format!("let {}", b));
                    }
                }
                if let Some(i) = &l.init {
                    calls(&i.expr, &mut v);
                }
            }
            Stmt::Expr(e, _) => {
                match e {
                    Expr::Assign(a) => {
                        if let Some(n) = path_ident(&a.left) {
                            v.push(format!("assign {}", n));
                            let b = base_name(&n);
                            if b != n {
                                v.push(format!("assign {}", b));
                            }
                        } else if let Expr::Unary(u) = &*a.left {
                            if let Some(n) = path_ident(&u.expr) {
                                v.push(format!("assign *{}", base_name(&n)));
                            } else {
                                v.push("assign *".into());
                            }
                        }
                    }
                    Expr::Binary(b) => {
                        if is_assign_op(&b.op) {
                            if let Some(n) = path_ident(&b.left) {
                                v.push(format!("assign {}", base_name(&n)));
                            }
                        }
                    }
                    Expr::If(_) => v.push("if".into()),
                    _ => {}
                }
                calls(e, &mut v);
            }
            _ => {}
        }
        v
    }
    fn suffix_of(&self, s: &Stmt) -> String {
        // inlining suffix of the variable a statement binds
        if let Stmt::Local(l) = s {
            for n in pat_idents(&l.pat) {
                let b = base_name(&n);
                if b != n {
                    return n[b.len()..].to_string();
                }
            }
        }
        String::new()
    }
    fn anchors_stmt(&mut self, when: &str, s: &Stmt, extra: &str, o: &mut String) -> R<()> {
        let mut d = self.descr(s);
        if !extra.is_empty() {
            d.push(extra.to_string());
        }
        let suf = self.suffix_of(s);
        for x in d {
            let key = format!("{} {}", when, x);
            let n = self.anchor_counts.entry(key.clone()).or_insert(0);
            *n += 1;
            let n = *n;
            for (i, a) in self.fc.ats.iter().enumerate() {
                let (k, num) = match a.anchor.rsplit_once('#') {
                    Some((k, num)) => (k.trim(), num.trim().parse::<usize>().ok()),
                    None => (a.anchor.as_str(), None),
                };
                if k == key && num.map_or(true, |m| m == n) {
                    self.used_at.insert(i);
                    o.push_str(&a.text.replace("$$", &suf));
                    o.push('\n');
                }
            }
        }
        Ok(())
    }
    /// A stage: the statements from an anchor to the end of its block become the body of a loop that
    /// runs exactly once (it ends in `break`), so that they are verified from the stage's invariant alone.
    fn stage_at(&self, s: &Stmt) -> Option<usize> {
        for x in self.descr(s) {
            let key = format!("before {}", x);
            let n = self.anchor_counts.get(&key).copied().unwrap_or(0) + 1;
            for (i, l) in self.fc.loops.iter().enumerate() {
                let k = match l.key.strip_prefix("stage ") {
                    Some(k) if !self.used_loops.contains(&i) => k.trim(),
                    _ => continue,
                };
                let (k, num) = match k.rsplit_once('#') {
                    Some((k, num)) => (k.trim(), num.trim().parse::<usize>().unwrap_or(1)),
                    None => (k, 1),
                };
                if k == key && num == n {
                    return Some(i);
                }
            }
        }
        None
    }
    fn stmts(&mut self, ss: &[Stmt], o: &mut String) -> R<()> {
        for (i, s) in ss.iter().enumerate() {
            if let Some(l) = self.stage_at(s) {
                self.used_loops.insert(l);
                let lc = self.fc.loops[l].clone();
                o.push_str(&lc.before);
                o.push_str("loop\n");
                o.push_str(&self.loop_spec(&lc, Some("0int".into()), "", ""));
                o.push_str("{\n");
                o.push_str(&lc.begin);
                self.stmts(&ss[i..], o)?;
                o.push_str(&lc.end);
                o.push_str("break;\n}\n");
                o.push_str(&lc.after);
                return Ok(());
            }
            self.stmt(s, o)?;
        }
        Ok(())
    }
    fn stmt(&mut self, s: &Stmt, o: &mut String) -> R<()> {
        if matches!(s, Stmt::Item(Item::Fn(_)) | Stmt::Item(Item::Use(_))) {
            return Ok(()); // nested functions are emitted (or inlined) on their own
        }
        if let Stmt::Expr(Expr::Verbatim(t), _) = s {
            if t.is_empty() {
                return Ok(()); // a lone semicolon
            }
        }
        self.anchors_stmt("before", s, "", o)?;
        match s {
            Stmt::Local(l) => {
                let (pat, ty) = match &l.pat {
                    Pat::Type(pt) => (&*pt.pat, Some(ty_s(&pt.ty)?)),
                    p => (p, None),
                };
                let ps = self.pat(pat)?;
                let ty = match (ty, pat) {
                    (None, Pat::Ident(pi)) => self.fc.ltypes.get(&pi.ident.to_string()).cloned(),
                    (t, _) => t,
                };
                if let Some(i) = &l.init {
                    if i.diverge.is_some() {
                        return Err("let-else".into());
                    }
                    if let Expr::Closure(_) = &*i.expr {
                        return Err("closure value".into());
                    }
                    self.note_alloc(pat, &i.expr);
                    if let (Pat::Ident(pi), Expr::Reference(r)) = (pat, &*i.expr) {
                        if !matches!(&*r.expr, Expr::Unary(_)) || true {
                            if !self.elide_ref(&r.expr) {
                                self.refvars.insert(pi.ident.to_string());
                            }
                        }
                    }
                    let e = self.expr(&i.expr)?;
                    match ty {
                        Some(t) if t != "_" => o.push_str(&format!("let {}: {} = {};\n", ps, t, e)),
                        _ => o.push_str(&format!("let {} = {};\n", ps, e)),
                    }
                } else {
                    match ty {
                        Some(t) => o.push_str(&format!("let {}: {};\n", ps, t)),
                        None => o.push_str(&format!("let {};\n", ps)),
                    }
                }
            }
            Stmt::Expr(e, semi) => {
                if let Some(()) = self.foreach(e, o)? {
                } else {
                    match e {
                        Expr::ForLoop(f) => self.for_loop(f, o)?,
                        Expr::While(w) => self.while_loop(w, o)?,
                        Expr::Loop(w) => self.plain_loop(w, o)?,
                        Expr::Block(b) => {
                            if b.label.is_some() {
                                return Err("labelled block".into());
                            }
                            o.push_str("{\n");
                            self.stmts(&b.block.stmts, o)?;
                            o.push_str("}\n");
                        }
                        Expr::If(i) => {
                            let t = self.if_expr(i)?;
                            o.push_str(&t);
                            o.push('\n');
                        }
                        Expr::Assign(_) | Expr::Binary(_) | Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => {
                            let x = self.expr(e)?;
                            o.push_str(&x);
                            o.push_str(";\n");
                        }
                        _ => {
                            let x = self.expr(e)?;
                            o.push_str(&x);
                            if semi.is_some() {
                                o.push(';');
                            }
                            o.push('\n');
                        }
                    }
                }
            }
            Stmt::Item(_) => return Err("nested item".into()),
            Stmt::Macro(m) => return Err(format!("macro {}", m.mac.path.to_token_stream())),
        }
        self.anchors_stmt("after", s, "", o)?;
        Ok(())
    }
    fn note_alloc(&mut self, pat: &Pat, e: &Expr) {
        // `let (mut x, ..) = f(..)` where f's declared result holds an `Alloc`
        let f = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    self.g.krate.resolve(&self.module, &segs).join("::")
                }
                _ => return,
            },
            _ => return,
        };
        let fd = match self.g.krate.fns.get(&f) {
            Some(f) => f,
            None => return,
        };
        if let ReturnType::Type(_, t) = &fd.sig.output {
            let is_alloc = |t: &Type| {
                let n = type_name(t);
                self.g.krate.impls.iter().any(|i| i.trait_name.as_deref() == Some("Drop") && i.self_name == n)
                    || (n == "Self"
                        && fd.self_ty.as_ref().map_or(false, |s| {
                            let n = type_name(s);
                            self.g.krate.impls.iter().any(|i| i.trait_name.as_deref() == Some("Drop") && i.self_name == n)
                        }))
            };
            match (&**t, pat) {
                (Type::Tuple(tt), Pat::Tuple(pp)) => {
                    for (t, p) in tt.elems.iter().zip(pp.elems.iter()) {
                        if is_alloc(t) {
                            if let Pat::Ident(pi) = p {
                                self.alloc_vars.push(pi.ident.to_string());
                            }
                        }
                    }
                }
                (t, Pat::Ident(pi)) => {
                    if is_alloc(t) {
                        self.alloc_vars.push(pi.ident.to_string());
                    }
                }
                _ => {}
            }
        }
    }
    fn pat(&mut self, p: &Pat) -> R<String> {
        Ok(match p {
            Pat::Ident(i) => {
                if i.by_ref.is_some() || i.subpat.is_some() {
                    if let Some((_, sp)) = &i.subpat {
                        // `res @ Err(_)`
                        return Ok(format!("{} @ {}", i.ident, self.pat(sp)?));
                    }
                    return Err("ref pattern".into());
                }
                format!("{}{}", if i.mutability.is_some() { "mut " } else { "" }, i.ident)
            }
            Pat::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|x| self.pat(x)).collect();
                format!("({})", v?.join(", "))
            }
            Pat::Wild(_) => "_".into(),
            Pat::Slice(s) if s.elems.len() == 2 => {
                let a = self.pat(&s.elems[0])?;
                let b = self.pat(&s.elems[1])?;
                format!("Cx {{ x0: {}, x1: {} }}", a, b)
            }
            Pat::TupleStruct(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|x| self.pat(x)).collect();
                let n = t.path.segments.last().unwrap().ident.to_string();
                let pre = if t.path.segments.len() >= 2 {
                    format!("{}::", t.path.segments[t.path.segments.len() - 2].ident)
                } else {
                    String::new()
                };
                let pre = if ["Option::", "Result::"].contains(&pre.as_str()) { String::new() } else { pre };
                format!("{}{}({})", pre, n, v?.join(", "))
            }
            Pat::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            Pat::Lit(l) => l.to_token_stream().to_string(),
            Pat::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields {
                    let n = match &f.member {
                        Member::Named(n) => n.to_string(),
                        _ => return Err("struct pattern".into()),
                    };
                    v.push(format!("{}: {}", n, self.pat(&f.pat)?));
                }
                if s.rest.is_some() {
                    v.push("..".into());
                }
                let tn = s.path.segments.last().unwrap().ident.to_string();
                format!("{} {{ {} }}", tn, v.join(", "))
            }
            Pat::Paren(p) => self.pat(&p.pat)?,
            Pat::Type(t) => self.pat(&t.pat)?,
            Pat::Or(o) => {
                let v: R<Vec<String>> = o.cases.iter().map(|x| self.pat(x)).collect();
                v?.join(" | ")
            }
            Pat::Reference(r) => format!("&{}", self.pat(&r.pat)?),
            other => return Err(format!("pattern {}", other.to_token_stream())),
        })
    }

    // ---- loops
    fn find_loop(&mut self, base: &str) -> R<LoopC> {
        let n = self.loop_counts.entry(base.to_string()).or_insert(0);
        *n += 1;
        let n = *n;
        let mut found = None;
        for (i, l) in self.fc.loops.iter().enumerate() {
            let (k, num) = match l.key.rsplit_once('#') {
                Some((k, num)) => (k.trim(), num.trim().parse::<usize>().ok()),
                None => (l.key.as_str(), None),
            };
            if k == base && num == Some(n) {
                found = Some(i);
            } else if k == base && num.is_none() && found.is_none() {
                found = Some(i);
            }
        }
        match found {
            Some(i) => {
                self.used_loops.insert(i);
                Ok(self.fc.loops[i].clone())
            }
            None => Err(format!("lost anchor: loop `{}` #{} has no contract", base, n)),
        }
    }
    fn loop_spec(&self, l: &LoopC, dflt_dec: Option<String>, it: &str, suf: &str) -> String {
        let fix = |s: &str| s.replace("${it}", it).replace("$$", suf);
        let mut o = String::new();
        let invx: Vec<Clause> = l.invx.iter().map(|c| Clause { tags: c.tags.clone(), text: fix(&c.text) }).collect();
        o.push_str(&clause_lines("invx", &self.f.path, &self.fc.props, &invx));
        let ens: Vec<Clause> = l.ens.iter().map(|c| Clause { tags: c.tags.clone(), text: fix(&c.text) }).collect();
        let inv: Vec<Clause> = l.inv.iter().map(|c| Clause { tags: c.tags.clone(), text: fix(&c.text) }).collect();
        o.push_str(&clause_lines("inv", &self.f.path, &self.fc.props, &inv));
        o.push_str(&clause_lines("lens", &self.f.path, &self.fc.props, &ens));
        match l.dec.clone().or(dflt_dec) {
            Some(d) => o.push_str(&format!("    decreases {} /*@dec {} [C08]*/\n", fix(&d), self.f.path)),
            None => {}
        }
        o
    }
    fn for_loop(&mut self, f: &ExprForLoop, o: &mut String) -> R<()> {
        if f.label.is_some() {
            return Err("labelled loop".into());
        }
        let v = loop_var(&f.pat);
        let b = base_name(&v);
        let suf = v[b.len()..].to_string();
        let key = format!("for {}", b);
        let lc = self.find_loop(&key)?;
        let fix = |s: &str, it: &str| s.replace("${it}", it).replace("$$", &suf);
        let vn = if v == "_" { "n_".to_string() } else { v.clone() };
        if let Expr::Range(r) = &*f.expr {
            let (a, bnd) = match (&r.start, &r.end, &r.limits) {
                (Some(a), Some(b), RangeLimits::HalfOpen(_)) => (a, b),
                _ => return Err("range form".into()),
            };
            let it = format!("{}__it", vn);
            let en = format!("{}__end", vn);
            let bs = self.expr(bnd)?;
            let as_ = self.expr(a)?;
            o.push_str(&format!("let {} = {};\nlet mut {} = {};\n", en, bs, it, self.same_type(&as_)));
            o.push_str(&fix(&lc.before, &it));
            if !lc.attrs.is_empty() {
                o.push_str(&format!("{}\n", lc.attrs));
            }
            o.push_str(&format!("while {} < {}\n", it, en));
            o.push_str(&self.loop_spec(&lc, Some(format!("{} - {}", en, it)), &it, &suf));
            o.push_str("{\n");
            if v != "_" {
                o.push_str(&format!("let {} = {};\n", self.pat(&f.pat)?, it));
            }
            o.push_str(&format!("{} = {} + 1;\n", it, it));
            o.push_str(&fix(&lc.begin, &it));
            self.stmts(&closed(&f.body.stmts), o)?;
            o.push_str(&fix(&lc.end, &it));
            o.push_str("};\n");
            o.push_str(&fix(&lc.after, &it));
        } else {
            let it = format!("{}__iter", vn);
            let e = self.expr(&f.expr)?;
            o.push_str(&format!("let mut {} = {};\n", it, e));
            o.push_str(&fix(&lc.before, &it));
            if !lc.attrs.is_empty() {
                o.push_str(&format!("{}\n", lc.attrs));
            }
            o.push_str("loop\n");
            o.push_str(&self.loop_spec(&lc, None, &it, &suf));
            let p = self.pat(&f.pat)?;
            o.push_str(&format!("{{\nmatch {}.next() {{ None => {{ break; }}, Some({}) => {{\n", it, p));
            o.push_str(&fix(&lc.begin, &it));
            self.stmts(&closed(&f.body.stmts), o)?;
            o.push_str(&fix(&lc.end, &it));
            o.push_str("}}\n};\n");
            o.push_str(&fix(&lc.after, &it));
        }
        Ok(())
    }
    fn same_type(&self, a: &str) -> String {
        if a == "0" {
            "0usize".into()
        } else {
            a.to_string()
        }
    }
    fn while_loop(&mut self, w: &ExprWhile, o: &mut String) -> R<()> {
        let lc = self.find_loop("while")?;
        o.push_str(&lc.before);
        let c = self.expr(&w.cond)?;
        o.push_str(&format!("while {}\n", c));
        o.push_str(&self.loop_spec(&lc, None, "", ""));
        o.push_str("{\n");
        o.push_str(&lc.begin);
        self.stmts(&closed(&w.body.stmts), o)?;
        o.push_str(&lc.end);
        o.push_str("};\n");
        o.push_str(&lc.after);
        Ok(())
    }
    fn plain_loop(&mut self, w: &ExprLoop, o: &mut String) -> R<()> {
        let lc = self.find_loop("loop")?;
        o.push_str(&lc.before);
        o.push_str("loop\n");
        o.push_str(&self.loop_spec(&lc, None, "", ""));
        o.push_str("{\n");
        o.push_str(&lc.begin);
        self.stmts(&closed(&w.body.stmts), o)?;
        o.push_str(&lc.end);
        o.push_str("};\n");
        o.push_str(&lc.after);
        Ok(())
    }
    /// RANGE.parallel(n, pool).thread_local(init).for_each(body)
    fn foreach(&mut self, e: &Expr, o: &mut String) -> R<Option<()>> {
        let m3 = match e {
            Expr::MethodCall(m) if m.method == "for_each" => m,
            _ => return Ok(None),
        };
        let m2 = match &*m3.receiver {
            Expr::MethodCall(m) if m.method == "thread_local" => m,
            _ => return Err("for_each form".into()),
        };
        let m1 = match &*m2.receiver {
            Expr::MethodCall(m) if m.method == "parallel" => m,
            _ => return Err("for_each form".into()),
        };
        let (c1, c2) = match (&m2.args[0], &m3.args[0]) {
            (Expr::Closure(a), Expr::Closure(b)) => (a, b),
            _ => return Err("for_each closures".into()),
        };
        if c1.inputs.len() != 2 || c2.inputs.len() != 4 || m1.args.len() != 2 {
            return Err("for_each arity".into());
        }
        let range = self.expr(&m1.receiver)?;
        let nth = self.expr(&m1.args[0])?;
        let pool = self.expr(&m1.args[1])?;
        let lv = loop_var(&c2.inputs[2]);
        let key = format!("foreach {}", base_name(&lv));
        let lc = self.find_loop(&key)?;
        let fe = format!("{}__fe", lv);
        let fix = |s: &str| s.replace("${it}", &fe);
        o.push_str(&format!("let mut {} = crate::threading::foreach_new_({}, {}, {});\n", fe, range, nth, pool));
        o.push_str(&fix(&lc.before));
        o.push_str(&format!("while {}.more()\n", fe));
        o.push_str(&self.loop_spec(&lc, Some(format!("{}.left()", fe)), &fe, ""));
        o.push_str("{\n");
        let p2 = self.pat(&c2.inputs[2])?;
        let p3 = self.pat(&c2.inputs[3])?;
        o.push_str(&format!("let ghost {}0 = {};\nlet (worker__, {}, {}) = {}.pick();\n", fe, fe, p2, p3, fe));
        let ptp = self.pat(&c2.inputs[0])?;
        if ptp != "_" {
            o.push_str(&format!("let {} = {}.pool_();\n", ptp, fe));
        }
        o.push_str(&fix(&lc.begin));
        let plocal = match &c2.inputs[1] {
            Pat::Reference(r) => self.pat(&r.pat)?,
            p => self.pat(p)?,
        };
        let p0 = self.pat(&c1.inputs[0])?;
        let p1 = self.pat(&c1.inputs[1])?;
        let mut init = String::from("{\n");
        if p0 != "_" {
            init.push_str(&format!("let {} = worker__;\n", p0));
        }
        if p1 != "_" {
            init.push_str(&format!("let {} = {}.nth_();\n", p1, fe));
        }
        match &*c1.body {
            Expr::Block(b) => {
                if has_return(&b.block) {
                    return Err("return in closure".into());
                }
                let mut blk = b.block.clone();
                let tail = blk.stmts.pop();
                self.stmts(&blk.stmts, &mut init)?;
                match tail {
                    Some(Stmt::Expr(x, None)) => {
                        let t = self.expr(&x)?;
                        init.push_str(&t);
                        init.push('\n');
                    }
                    _ => return Err("thread_local closure".into()),
                }
            }
            x => {
                let t = self.expr(x)?;
                init.push_str(&t);
                init.push('\n');
            }
        }
        init.push('}');
        o.push_str(&format!("let {} = {};\n", plocal, init));
        match &*c2.body {
            Expr::Block(b) => {
                if has_return(&b.block) {
                    return Err("return in closure".into());
                }
                self.anchor_text("foreach-body", o);
                self.stmts(&b.block.stmts, o)?;
            }
            x => {
                let t = self.expr(x)?;
                o.push_str(&t);
                o.push_str(";\n");
            }
        }
        o.push_str(&fix(&lc.end));
        o.push_str("}\n");
        o.push_str(&fix(&lc.after));
        Ok(Some(()))
    }
    fn anchor_text(&mut self, key: &str, o: &mut String) {
        for (i, a) in self.fc.ats.iter().enumerate() {
            if a.anchor == key {
                self.used_at.insert(i);
                o.push_str(&a.text);
            }
        }
    }

    // ---- expressions
    fn block_expr(&mut self, b: &Block) -> R<String> {
        let mut o = String::from("{\n");
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            if i + 1 == n {
                if let Stmt::Expr(e, None) = s {
                    let unitish = matches!(
                        e,
                        Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::If(_) | Expr::Block(_)
                    ) || is_foreach(e);
                    if !unitish {
                        self.anchors_stmt("before", s, "", &mut o)?;
                        let x = self.expr(e)?;
                        let unit = self.is_unit_call(e);
                        if unit {
                            o.push_str(&format!("{};\n", x));
                        } else {
                            o.push_str(&format!("{}\n", x));
                        }
                        if unit {
                            self.anchors_stmt("after", s, "", &mut o)?;
                        }
                        continue;
                    }
                    if let Expr::If(ie) = e {
                        self.anchors_stmt("before", s, "", &mut o)?;
                        let x = self.if_expr(ie)?;
                        o.push_str(&x);
                        o.push('\n');
                        continue;
                    }
                    if let Expr::Block(be) = e {
                        let x = self.block_expr(&be.block)?;
                        o.push_str(&x);
                        o.push('\n');
                        continue;
                    }
                }
            }
            self.stmt(s, &mut o)?;
        }
        o.push('}');
        Ok(o)
    }
    fn is_unit_call(&self, e: &Expr) -> bool {
        match e {
            Expr::Assign(_) => true,
            Expr::Binary(b) => is_assign_op(&b.op),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                n == "mul_assign" || n == "add_assign"
            }
            Expr::Call(c) => {
                let l = last_seg(&c.func).unwrap_or_default();
                l.starts_with("__vassert") || l == "copy_nonoverlapping" || l.contains("_store")
            }
            _ => false,
        }
    }
    fn if_expr(&mut self, i: &ExprIf) -> R<String> {
        let c = match &*i.cond {
            Expr::Let(l) => {
                let p = self.pat(&l.pat)?;
                let e = self.expr(&l.expr)?;
                format!("let {} = {}", p, e)
            }
            e => self.expr(e)?,
        };
        let t = self.block_expr(&i.then_branch)?;
        let mut s = format!("if {} {}", c, t);
        if let Some((_, e)) = &i.else_branch {
            match &**e {
                Expr::If(x) => {
                    let y = self.if_expr(x)?;
                    s.push_str(&format!(" else {}", y));
                }
                Expr::Block(b) => {
                    let y = self.block_expr(&b.block)?;
                    s.push_str(&format!(" else {}", y));
                }
                x => {
                    let y = self.expr(x)?;
                    s.push_str(&format!(" else {{ {} }}", y));
                }
            }
        }
        Ok(s)
    }
    fn paren(&mut self, e: &Expr) -> R<String> {
        let s = self.expr(e)?;
        Ok(match e {
            Expr::Path(_) | Expr::Lit(_) | Expr::Paren(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Tuple(_) => s,
            Expr::Cast(_) if s.ends_with(')') && s.starts_with("as_") => s,
            _ => format!("({})", s),
        })
    }
    fn has_float_lit(e: &Expr) -> bool {
        match e {
            Expr::Lit(l) => matches!(l.lit, Lit::Float(_)),
            Expr::Array(a) => a.elems.iter().any(Self::has_float_lit),
            Expr::Paren(p) => Self::has_float_lit(&p.expr),
            Expr::Unary(u) => Self::has_float_lit(&u.expr),
            _ => false,
        }
    }
    /// is `&x` transparent (slices and registry values are modelled by value)?
    fn elide_ref(&self, e: &Expr) -> bool {
        match e {
            Expr::Unary(u) => {
                if let (UnOp::Deref(_), Some(n)) = (&u.op, path_ident(&u.expr)) {
                    // &*slice
                    return !self.refvars.contains(&n) && self.locals.contains(&n);
                }
                false
            }
            _ => false,
        }
    }
    fn static_fn(&self, e: &Expr) -> Option<String> {
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() == 1 && self.locals.contains(&segs[0]) {
                    return None;
                }
                let k = self.g.krate.resolve(&self.module, &segs).join("::");
                if self.g.c.fns.contains_key(&k)
                    && (self.g.krate.consts.contains_key(&k) || self.g.krate.statics.contains_key(&k))
                {
                    return Some(k);
                }
            }
        }
        None
    }
    fn field_static(&self, e: &Expr) -> bool {
        match e {
            Expr::Field(f) => self.static_fn(&f.base).is_some() || self.field_static(&f.base),
            _ => false,
        }
    }
    fn expr(&mut self, e: &Expr) -> R<String> {
        Ok(match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) => i.to_string().replace("0b", "0b"),
                Lit::Bool(b) => b.value.to_string(),
                Lit::Str(s) => format!("{:?}", s.value()),
                Lit::Byte(b) => format!("{}u8", b.value()),
                Lit::Float(f) => {
                    let v: f64 = f.base10_parse().map_err(|e| e.to_string())?;
                    if v == 0.0 {
                        "f0_()".into()
                    } else if v == 1.0 {
                        "f1_()".into()
                    } else {
                        return Err(format!("float literal {}", v));
                    }
                }
                _ => return Err("literal".into()),
            },
            Expr::Path(p) => {
                if let Some(k) = self.static_fn(e) {
                    let (m, n) = k.rsplit_once("::").unwrap_or(("", &k));
                    let mm = if self.g.c.fns[&k].pure_ { "" } else { "mem" };
                    return Ok(format!("crate::{}::{}({})", m, n, mm));
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last().unwrap().clone();
                if p.qself.is_some() || segs.len() >= 2 {
                    let upper = last.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_');
                    if upper {
                        let pre = self.callpath(p, true)?;
                        return Ok(format!("{}_()", pre));
                    }
                    return self.callpath(p, true);
                }
                if last.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')
                    && last.len() > 1
                    && !self.locals.contains(&last)
                {
                    return Err(format!("constant {} not evaluable", last));
                }
                last
            }
            Expr::Paren(p) => format!("({})", self.expr(&p.expr)?),
            Expr::Group(p) => self.paren(&p.expr)?,
            Expr::Binary(b) => {
                if is_assign_op(&b.op) {
                    let op = match b.op {
                        BinOp::AddAssign(_) => "+",
                        BinOp::SubAssign(_) => "-",
                        BinOp::MulAssign(_) => "*",
                        BinOp::DivAssign(_) => "/",
                        BinOp::RemAssign(_) => "%",
                        _ => return Err("assignment operator".into()),
                    };
                    let r = self.paren(&b.right)?;
                    return self.assign(&b.left, Some(op), r);
                }
                let float = Self::has_float_lit(&b.left) || Self::has_float_lit(&b.right);
                if float {
                    match b.op {
                        BinOp::Eq(_) => {
                            return Ok(format!("feq_({}, {})", self.expr(&b.left)?, self.expr(&b.right)?));
                        }
                        BinOp::Ne(_) => {
                            return Ok(format!("!feq_({}, {})", self.expr(&b.left)?, self.expr(&b.right)?));
                        }
                        _ => {}
                    }
                }
                let l = self.paren(&b.left)?;
                let r = self.paren(&b.right)?;
                format!("{} {} {}", l, b.op.to_token_stream(), r)
            }
            Expr::Assign(a) => {
                let r = self.expr(&a.right)?;
                return self.assign(&a.left, None, r);
            }
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => {
                    if let Some(k) = self.static_fn(&u.expr) {
                        let _ = k;
                        return self.expr(&u.expr);
                    }
                    if self.field_static(&u.expr) {
                        return self.expr(&u.expr);
                    }
                    if let Some(n) = path_ident(&u.expr) {
                        if self.refvars.contains(&n) {
                            return Ok(format!("*{}", n));
                        }
                    }
                    let x = self.expr(&u.expr)?;
                    self.with_oncall("rd_", "rd_", vec![x], true)
                }
                UnOp::Neg(_) => format!("-{}", self.paren(&u.expr)?),
                UnOp::Not(_) => format!("!{}", self.paren(&u.expr)?),
                _ => return Err("unary operator".into()),
            },
            Expr::Reference(r) => {
                if self.elide_ref(&r.expr) {
                    if let Expr::Unary(u) = &*r.expr {
                        return self.expr(&u.expr);
                    }
                }
                let x = self.paren(&r.expr)?;
                format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, x)
            }
            Expr::Cast(c) => {
                let x = self.expr(&c.expr)?;
                match &*c.ty {
                    Type::Ptr(p) => match &*p.elem {
                        Type::Infer(_) => format!("({}).cast_any_()", x),
                        t => format!("({}).cast_::<{}>()", x, ty_s(t)?),
                    },
                    Type::Infer(_) => format!("({}).cast_any_()", x),
                    t => {
                        let n = ty_s(t)?;
                        match n.as_str() {
                            "usize" => format!("as_usize_({})", x),
                            "isize" => format!("as_isize_({})", x),
                            "u8" => format!("as_u8_({})", x),
                            "i32" => format!("({}) as i32", x),
                            _ => return Err(format!("cast to {}", n)),
                        }
                    }
                }
            }
            Expr::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|x| self.expr(x)).collect();
                let v = v?;
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Expr::Array(a) => {
                if a.elems.len() == 2 {
                    let x = self.expr(&a.elems[0])?;
                    let y = self.expr(&a.elems[1])?;
                    format!("Cx {{ x0: {}, x1: {} }}", x, y)
                } else {
                    let v: R<Vec<String>> = a.elems.iter().map(|x| self.expr(x)).collect();
                    format!("[{}]", v?.join(", "))
                }
            }
            Expr::Repeat(r) => {
                format!("[{}; {}]", self.expr(&r.expr)?, self.expr(&r.len)?)
            }
            Expr::Field(f) => {
                let b = self.paren(&f.base)?;
                let m = match &f.member {
                    Member::Named(n) => n.to_string(),
                    Member::Unnamed(i) => {
                        // tuple field
                        i.index.to_string()
                    }
                };
                format!("{}.{}", b, m)
            }
            Expr::Index(ix) if self.fc.panicidx.is_some() => {
                let b = self.paren(&ix.expr)?;
                let i = self.expr(&ix.index)?;
                format!("pidx_({}, {}, Ghost({}))", b, i, self.fc.panicidx.as_ref().unwrap())
            }
            Expr::Index(ix) => {
                if let Some(i) = as_int(&ix.index) {
                    if i == 0 || i == 1 {
                        if !matches!(&*ix.expr, Expr::Array(_)) {
                            return Ok(format!("{}.x{}", self.paren(&ix.expr)?, i));
                        }
                    }
                }
                let b = self.paren(&ix.expr)?;
                let i = self.expr(&ix.index)?;
                format!("{}[{}]", b, i)
            }
            Expr::Block(b) => {
                if b.label.is_some() {
                    return Err("labelled block".into());
                }
                self.block_expr(&b.block)?
            }
            Expr::If(i) => self.if_expr(i)?,
            Expr::Match(m) => {
                let x = self.expr(&m.expr)?;
                let mut s = format!("match {} {{\n", x);
                for a in &m.arms {
                    let p = self.pat(&a.pat)?;
                    let g = match &a.guard {
                        Some((_, g)) => format!(" if {}", self.expr(g)?),
                        None => String::new(),
                    };
                    let b = match &*a.body {
                        Expr::Block(b) => self.block_expr(&b.block)?,
                        x => format!("{{ {} }}", self.expr(x)?),
                    };
                    s.push_str(&format!("{}{} => {},\n", p, g, b));
                }
                s.push('}');
                s
            }
            Expr::Return(r) => match &r.expr {
                Some(x) => {
                    if !self.alloc_vars.is_empty() {
                        return Err("return while an allocation is live".into());
                    }
                    format!("return {}", self.expr(x)?)
                }
                None => {
                    if !self.alloc_vars.is_empty() {
                        return Err("return while an allocation is live".into());
                    }
                    "return".into()
                }
            },
            Expr::Break(b) => {
                if b.label.is_some() || b.expr.is_some() {
                    return Err("break form".into());
                }
                "break".into()
            }
            Expr::Continue(c) => {
                if c.label.is_some() {
                    return Err("continue label".into());
                }
                "continue".into()
            }
            Expr::Struct(s) => {
                if s.rest.is_some() {
                    return Err("struct update".into());
                }
                let n = s.path.segments.last().unwrap().ident.to_string();
                if n == "MaskBuffer" {
                    let len = match &s.fields[0].expr {
                        Expr::Repeat(r) => as_int(&r.len),
                        _ => None,
                    };
                    if len != Some(self.g.mask_len) {
                        return Err("MaskBuffer initialiser".into());
                    }
                    return Ok(format!("mask_buffer_local_({}, {}, mem)", self.g.mask_len, self.g.mask_align));
                }
                // the pointer wrapper and the pointer are the same value
                if n == "Ptr" && s.fields.len() == 1 {
                    return self.expr(&s.fields[0].expr);
                }
                let mut v = vec![];
                for f in &s.fields {
                    let fnm = match &f.member {
                        Member::Named(n) => n.to_string(),
                        _ => return Err("struct expr".into()),
                    };
                    v.push(format!("{}: {}", fnm, self.expr(&f.expr)?));
                }
                format!("{} {{ {} }}", n, v.join(", "))
            }
            Expr::Call(c) => self.call(c)?,
            Expr::MethodCall(m) => self.method(m)?,
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                let mut o = String::from("{\n");
                self.stmt(&Stmt::Expr(e.clone(), None), &mut o)?;
                o.push('}');
                o
            }
            Expr::Unsafe(u) => self.block_expr(&u.block)?,
            other => return Err(format!("expression {}", short(other))),
        })
    }
    fn assign(&mut self, l: &Expr, op: Option<&str>, r: String) -> R<String> {
        match l {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(n) = path_ident(&u.expr) {
                    if self.refvars.contains(&n) {
                        return Ok(match op {
                            Some(o) => format!("*{} = *{} {} {}", n, n, o, r),
                            None => format!("*{} = {}", n, r),
                        });
                    }
                }
                let p = self.expr(&u.expr)?;
                Ok(match op {
                    Some(o) => {
                        let w = self.with_oncall("wr_", "wr_", vec!["p_".into(), "t_".into()], true);
                        format!("{{ let p_ = {}; let t_ = rd_(p_, mem) {} {}; {}; }}", p, o, r, w)
                    }
                    None => self.with_oncall("wr_", "wr_", vec![p, r], true),
                })
            }
            _ => {
                if let Expr::Tuple(_) = l {
                    return Err("destructuring assignment".into());
                }
                let x = self.expr(l)?;
                Ok(match op {
                    Some(o) => format!("{} = {} {} {}", x, x, o, r),
                    None => format!("{} = {}", x, r),
                })
            }
        }
    }
    /// a call of a prelude function, followed by the contract's ghost text for it
    fn with_oncall(&self, key: &str, callee: &str, mut a: Vec<String>, mem: bool) -> String {
        let pre = self.fc.precall.iter().find(|(k, _)| k == key);
        let post = self.fc.oncall.iter().find(|(k, _)| k == key);
        let (pre, t) = match (pre, post) {
            (None, None) => {
                if mem {
                    a.push("mem".into());
                }
                return format!("{}({})", callee, a.join(", "));
            }
            (x, y) => {
                let mut oc = self.ocount.borrow_mut();
                let n = oc.entry(key.to_string()).or_insert(0);
                *n += 1;
                let f = |t: Option<&(String, String)>| t.map(|t| crate::contracts::eval_text(&t.1, *n - 1)).unwrap_or_default();
                (f(x), f(y))
            }
        };
        let mut o = String::from("{ ");
        for (i, x) in a.iter().enumerate() {
            o.push_str(&format!("let a{}_ = {};\n", i, x));
        }
        let n: Vec<String> = (0..a.len()).map(|i| format!("a{}_", i)).collect();
        o.push_str(&format!("let ghost mw_ = mem.v@;\n{}\nlet r_ = {}({}{});\n{}\nr_ }}", pre, callee, n.join(", "), if mem { ", mem" } else { "" }, t));
        o
    }
    fn tf(&mut self, a: &PathArguments) -> R<String> {
        match a {
            PathArguments::AngleBracketed(a) => {
                let mut v = vec![];
                for x in &a.args {
                    if let GenericArgument::Type(t) = x {
                        v.push(ty_s(t)?);
                    } else if let GenericArgument::Lifetime(_) = x {
                    } else {
                        return Err("generic argument".into());
                    }
                }
                Ok(format!("::<{}>", v.join(", ")))
            }
            _ => Ok(String::new()),
        }
    }
    /// a path in expression position (qualified by type or trait)
    fn callpath(&mut self, p: &ExprPath, _val: bool) -> R<String> {
        if let Some(q) = &p.qself {
            let t = ty_s(&q.ty)?;
            let last = p.path.segments.last().unwrap();
            let tf = self.tf(&last.arguments)?;
            if q.position > 0 {
                let tr = p.path.segments[q.position - 1].ident.to_string();
                return Ok(format!("<{} as {}>::{}{}", t, tr, last.ident, tf));
            }
            return Ok(format!("<{}>::{}{}", t, last.ident, tf));
        }
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = p.path.segments.last().unwrap();
        let tf = self.tf(&last.arguments)?;
        if segs.len() == 1 {
            return Ok(format!("{}{}", segs[0], tf));
        }
        // map the type segment through ty_s (f32 -> F32)
        let pre = segs[segs.len() - 2].clone();
        let pre = match pre.as_str() {
            "f32" => "F32".to_string(),
            "f64" => "F64".to_string(),
            _ => pre,
        };
        if segs[0] == "Self" || (segs.len() > 2 && !segs[0].chars().next().unwrap().is_lowercase()) {
            let mut v: Vec<String> = segs[..segs.len() - 1].to_vec();
            if v.len() == 2 {
                // Self::MRTy::VALUE
                return Ok(format!("<{}::{}>::{}{}", v[0], v[1], last.ident, tf));
            }
            v.push(format!("{}{}", last.ident, tf));
            return Ok(v.join("::"));
        }
        if pre.chars().next().unwrap().is_uppercase() || pre.chars().next().unwrap() == 'c' && pre.len() == 3 {
            return Ok(format!("{}::{}{}", pre, last.ident, tf));
        }
        Ok(format!("{}{}", last.ident, tf))
    }
    fn args(&mut self, a: &punctuated::Punctuated<Expr, Token![,]>) -> R<Vec<String>> {
        a.iter().map(|x| self.expr(x)).collect()
    }
    fn call(&mut self, c: &ExprCall) -> R<String> {
        let p = match &*c.func {
            Expr::Path(p) => p,
            // a closure held in a field
            Expr::Paren(q) if matches!(&*q.expr, Expr::Field(_)) => {
                let f = self.expr(&q.expr)?;
                let mut a = self.args(&c.args)?;
                a.push("mem".into());
                return Ok(format!("({}).call_({})", f, a.join(", ")));
            }
            _ => return Err("call of an expression".into()),
        };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last().unwrap().clone();
        let full = segs.join("::");
        if p.qself.is_none() && segs.len() == 1 {
            match last.as_str() {
                "__vassert" => {
                    let x = self.expr(&c.args[0])?;
                    return Ok(match &self.fc.refuse {
                        Some(t) => format!("vrefuse_({}, Ghost({}))", x, t),
                        None => format!("vassert_({})", x),
                    });
                }
                "__vassert_eq" | "__vassert_ne" => {
                    let a = self.expr(&c.args[0])?;
                    let b = self.expr(&c.args[1])?;
                    return Ok(format!("{}_({}, {})", &last[2..], a, b));
                }
                "__any_bool" => return Ok("any_bool_()".into()),
                _ => {}
            }
            if self.locals.contains(&last) {
                let mut a = self.args(&c.args)?;
                a.push("mem".into());
                return Ok(format!("{}.call_({})", last, a.join(", ")));
            }
        }
        if segs[0] == "__need_feature" {
            let n = format!("need_{}_", last);
            if !self.g.prelude_fns.contains(&n) {
                return Err(format!("unmodelled target feature {}", last));
            }
            return Ok(format!("{}(mem)", n));
        }
        if full.contains("__is_feature_detected") {
            return Ok(format!("cpu_has_{}_(mem)", last));
        }
        if let Some(q) = &p.qself {
            if let Type::Infer(_) = &*q.ty {
                return Ok(format!("crate::kernel::{}_()", last)); // <_>::zero(), <_>::one()
            }
        }
        let mut a = self.args(&c.args)?;
        if p.qself.is_none() {
            let nested = format!("{}::{}", self.f.path, segs[0]);
            let abs = if segs.len() == 1 && self.g.c.fns.contains_key(&nested) {
                nested
            } else {
                let segs2 = if segs[0] == "Self" && segs.len() == 2 && self.f.in_trait.is_none() {
                    match &self.f.self_ty {
                        Some(t) => vec![type_name(t), segs[1].clone()],
                        None => segs.clone(),
                    }
                } else {
                    segs.clone()
                };
                self.g.krate.resolve(&self.module, &segs2).join("::")
            };
            if abs == "ptr::Ptr" && !self.g.c.fns.contains_key("ptr::Ptr") {
                return Ok(a.remove(0));
            }
            if let Some(fc) = self.g.c.fns.get(&abs) {
                if !fc.pure_ {
                    a.push("mem".into());
                }
                let tf = self.tf(&p.path.segments.last().unwrap().arguments)?;
                let parts: Vec<&str> = abs.split("::").collect();
                let fd = find_fn(self.g.krate, &abs);
                let is_method = fd.as_ref().map_or(false, |f| f.self_ty.is_some());
                let name = fc.rename.clone().unwrap_or(parts.last().unwrap().to_string());
                if is_method {
                    let ty = parts[parts.len() - 2];
                    let tyg = if segs.len() >= 2 {
                        self.tf(&p.path.segments[segs.len() - 2].arguments)?
                    } else {
                        String::new()
                    };
                    let ty = if segs[0] == "Self" { "Self".to_string() } else { format!("{}{}", ty, tyg) };
                    return Ok(format!("{}::{}{}({})", ty, name, tf, a.join(", ")));
                }
                let m = fd.map(|f| f.module).unwrap_or_default();
                return Ok(format!("crate::{}::{}{}({})", m, name, tf, a.join(", ")));
            }
            if ["Some", "Ok", "Err"].contains(&last.as_str()) {
                return Ok(format!("{}({})", last, a.join(", ")));
            }
            if full == "Box::new" {
                return Ok(a.remove(0));
            }
            // enum tuple variants
            if segs.len() >= 2 {
                let ek = self.g.krate.resolve(&self.module, &segs[..segs.len() - 1].to_vec()).join("::");
                if self.g.krate.enums.contains_key(&ek) {
                    return Ok(format!("{}::{}({})", segs[segs.len() - 2], last, a.join(", ")));
                }
            }
            // free functions of other crates: modelled in the prelude
            let first_upper = segs.len() >= 2 && segs[segs.len() - 2].chars().next().unwrap().is_uppercase();
            let prim = segs.len() == 2 && ["usize", "isize", "u8"].contains(&segs[0].as_str());
            if prim {
                let n = format!("{}_{}_", segs[0], last);
                if self.g.prelude_fns.contains(&n) {
                    if self.g.prelude_mem.contains(&n) {
                        a.push("mem".into());
                    }
                    return Ok(format!("{}({})", n, a.join(", ")));
                }
                return Err(format!("call to unmodelled function {}", full));
            }
            if !first_upper && !(segs.len() == 2 && ["f32", "f64", "c32", "c64"].contains(&segs[0].as_str())) {
                let tf = self.tf(&p.path.segments.last().unwrap().arguments)?;
                for n in [format!("{}_", last), last.clone()] {
                    if self.g.prelude_fns.contains(&n) {
                        let m = self.g.prelude_mem.contains(&n);
                        return Ok(self.with_oncall(&n, &format!("{}{}", n, tf), a, m));
                    }
                }
                return Err(format!("call to unmodelled function {}", full));
            }
            if first_upper && segs[segs.len() - 2] == "Ord" {
                let n = format!("{}_", last);
                if self.g.prelude_fns.contains(&n) {
                    return Ok(format!("{}({})", n, a.join(", ")));
                }
            }
        }
        // Type::method / K::method / <X as Tr>::method
        let known = self.g.c.fns.keys().any(|k| k.ends_with(&format!("::{}", last)))
            || self.g.prelude_fns.contains(&last)
            || self.g.c.items.iter().any(|(_, t)| t.contains(&format!("fn {}(", last)));
        if !known {
            return Err(format!("call to unmodelled function {}", full));
        }
        if self.g.mem_methods.contains(&last) {
            a.push("mem".into());
        }
        let cp = self.callpath(p, false)?;
        Ok(format!("{}({})", cp, a.join(", ")))
    }
    fn method(&mut self, m: &ExprMethodCall) -> R<String> {
        let name = m.method.to_string();
        // MASK_BUF.with(|buf| (*buf.get()).buffer.as_mut_ptr())
        if name == "with" {
            if last_seg(&m.receiver).as_deref() == Some("MASK_BUF") {
                let t = m.args[0].to_token_stream().to_string().replace(' ', "");
                if t == "|buf|(*buf.get()).buffer.as_mut_ptr()" || t == "|buf|{(*buf.get()).buffer.as_mut_ptr()}" {
                    return Ok(format!("mask_buf_tls_({}, {}, mem)", self.g.mask_len, self.g.mask_align));
                }
            }
            return Err("thread-local access".into());
        }
        // (*p).mul_assign(x) through a raw pointer
        let mut recv = &*m.receiver;
        while let Expr::Paren(p) = recv {
            recv = &p.expr;
        }
        if let Expr::Unary(u) = recv {
            if matches!(u.op, UnOp::Deref(_)) && (name == "mul_assign" || name == "add_assign") {
                let isref = path_ident(&u.expr).map_or(false, |n| self.refvars.contains(&n));
                if !isref {
                    let p = self.expr(&u.expr)?;
                    let a = self.args(&m.args)?;
                    return Ok(format!(
                        "{{ let p_ = {}; let mut t_ = rd_(p_, mem); t_.{}({}); wr_(p_, t_, mem); }}",
                        p,
                        name,
                        a.join(", ")
                    ));
                }
            }
        }
        let mut a = self.args(&m.args)?;
        if (name == "max" || name == "min") && a.len() == 1 {
            let r = self.expr(&m.receiver)?;
            return Ok(format!("{}_({}, {})", name, r, a[0]));
        }
        let r = self.paren(&m.receiver)?;
        let pm = format!("{}_m_", name);
        if self.g.prelude_fns.contains(&pm) {
            a.insert(0, r);
            if self.g.prelude_mem.contains(&pm) {
                a.push("mem".into());
            }
            return Ok(format!("{}({})", pm, a.join(", ")));
        }
        let known = self.g.prelude_fns.contains(&name)
            || self.g.c.fns.keys().any(|k| k.ends_with(&format!("::{}", name)))
            || self.g.c.items.iter().any(|(_, t)| t.contains(&format!("fn {}(", name)))
            || ["unwrap", "is_some", "is_none", "is_err", "is_ok", "len"].contains(&name.as_str());
        if !known {
            return Err(format!("call to unmodelled method .{}()", name));
        }
        let tf = match &m.turbofish {
            Some(t) => {
                let mut v = vec![];
                for x in &t.args {
                    if let GenericArgument::Type(t) = x {
                        v.push(ty_s(t)?);
                    }
                }
                format!("::<{}>", v.join(", "))
            }
            None => String::new(),
        };
        if self.g.mem_methods.contains(&name) {
            a.push("mem".into());
        }
        Ok(format!("{}.{}{}({})", r, name, tf, a.join(", ")))
    }
}
fn short(e: &Expr) -> String {
    let s = e.to_token_stream().to_string();
    s.chars().take(80).collect()
}
/// a loop body whose last call has its semicolon
fn closed(ss: &[Stmt]) -> Vec<Stmt> {
    let mut v = ss.to_vec();
    if let Some(Stmt::Expr(e, semi)) = v.last_mut() {
        if semi.is_none() && matches!(e, Expr::Call(_) | Expr::MethodCall(_)) && !is_foreach(e) {
            *semi = Some(Default::default());
        }
    }
    v
}
fn is_foreach(e: &Expr) -> bool {
    matches!(e, Expr::MethodCall(m) if m.method == "for_each")
}
fn is_assign_op(o: &BinOp) -> bool {
    matches!(
        o,
        BinOp::AddAssign(_)
            | BinOp::SubAssign(_)
            | BinOp::MulAssign(_)
            | BinOp::DivAssign(_)
            | BinOp::RemAssign(_)
            | BinOp::BitXorAssign(_)
            | BinOp::BitAndAssign(_)
            | BinOp::BitOrAssign(_)
            | BinOp::ShlAssign(_)
            | BinOp::ShrAssign(_)
    )
}
struct PatI(BTreeSet<String>);
impl<'a> Visit<'a> for PatI {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        if !s.chars().next().map_or(false, |c| c.is_uppercase()) {
            self.0.insert(s);
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}
fn calls(e: &Expr, out: &mut Vec<String>) {
    struct C<'b>(&'b mut Vec<String>);
    impl<'a, 'b> Visit<'a> for C<'b> {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if let Some(n) = last_seg(&c.func) {
                self.0.push(format!("call {}", n));
            }
            visit::visit_expr_call(self, c);
        }
        fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
            self.0.push(format!("call {}", c.method));
            visit::visit_expr_method_call(self, c);
        }
        fn visit_block(&mut self, _: &'a Block) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = vec![];
    C(&mut v).visit_expr(e);
    // once per statement and function name
    let mut seen = BTreeSet::new();
    for x in v {
        if seen.insert(x.clone()) {
            out.push(x);
        }
    }
}
