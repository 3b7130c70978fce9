use crate::model::*;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---------------------------------------------------------------- preprocessing
fn strip_hygiene_comments(s: &str) -> String {
    // `ident /* 123#45 */`  ->  `ident__h45` (or `ident` for context 0)
    let b = s.as_bytes();
    let mut out: Vec<u8> = Vec::with_capacity(b.len());
    let mut i = 0;
    let is_id = |c: u8| c == b'_' || c.is_ascii_alphanumeric();
    while i < b.len() {
        if b[i] == b'"' && !(i > 0 && b[i - 1] == b'\'') {
            // string literal (skip escapes)
            out.push(b[i]);
            i += 1;
            while i < b.len() {
                out.push(b[i]);
                if b[i] == b'\\' {
                    i += 1;
                    out.push(b[i]);
                } else if b[i] == b'"' {
                    break;
                }
                i += 1;
            }
            i += 1;
            continue;
        }
        if b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if is_id(b[i]) && !(i > 0 && is_id(b[i - 1])) {
            let st = i;
            while i < b.len() && is_id(b[i]) {
                i += 1;
            }
            out.extend_from_slice(&b[st..i]);
            if !b[st].is_ascii_digit() {
                let mut j = i;
                while j < b.len() && b[j].is_ascii_whitespace() {
                    j += 1;
                }
                if j + 1 < b.len() && b[j] == b'/' && b[j + 1] == b'*' {
                    let mut k = j + 2;
                    while k < b.len() && b[k].is_ascii_whitespace() {
                        k += 1;
                    }
                    let d0 = k;
                    while k < b.len() && b[k].is_ascii_digit() {
                        k += 1;
                    }
                    if k > d0 && k < b.len() && b[k] == b'#' {
                        let c0 = k + 1;
                        k = c0;
                        while k < b.len() && b[k].is_ascii_digit() {
                            k += 1;
                        }
                        let ctx = &b[c0..k];
                        while k < b.len() && b[k].is_ascii_whitespace() {
                            k += 1;
                        }
                        if k + 1 < b.len() && b[k] == b'*' && b[k + 1] == b'/' {
                            if ctx != b"0" {
                                out.extend_from_slice(b"__h");
                                out.extend_from_slice(ctx);
                            }
                            i = k + 2;
                        }
                    }
                }
            }
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8(out).unwrap()
}

struct PatIdents(BTreeSet<String>);
impl<'a> Visit<'a> for PatIdents {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}
fn base_h(s: &str) -> Option<(&str, &str)> {
    let i = s.rfind("__h")?;
    let n = &s[i + 3..];
    if !n.is_empty() && n.chars().all(|c| c.is_ascii_digit()) {
        Some((&s[..i], n))
    } else {
        None
    }
}
struct Hyg<'a> {
    keep: BTreeMap<String, String>,
    /// parent of each syntax context
    par: &'a BTreeMap<u32, u32>,
}
impl<'a> VisitMut for Hyg<'a> {
    fn visit_ident_mut(&mut self, id: &mut Ident) {
        let s = id.to_string();
        if let Some((b, c)) = base_h(&s) {
            // a name of a macro defined inside the function refers to a binding of the context
            // the macro was defined in
            let mut c: u32 = c.parse().unwrap_or(0);
            let mut n = b.to_string();
            while c != 0 {
                if let Some(k) = self.keep.get(&format!("{}__h{}", b, c)) {
                    n = k.clone();
                    break;
                }
                c = *self.par.get(&c).unwrap_or(&0);
            }
            *id = Ident::new(&n, id.span());
        }
    }
    fn visit_attribute_mut(&mut self, _a: &mut Attribute) {}
}
struct OrderedIdents(Vec<String>);
impl<'a> Visit<'a> for OrderedIdents {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        if !self.0.contains(&s) {
            self.0.push(s);
        }
        visit::visit_pat_ident(self, p);
    }
}
/// the context of all parameters of a function that a macro made
fn sig_ctx(sig: &Signature) -> Option<String> {
    let mut o = OrderedIdents(vec![]);
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            o.visit_pat(&t.pat);
        }
    }
    let c = base_h(o.0.first()?)?.1.to_string();
    if o.0.iter().all(|s| base_h(s).map_or(false, |x| x.1 == c)) {
        Some(c)
    } else {
        None
    }
}
fn hyg_map(ids: Vec<String>, sig: Option<&Signature>) -> BTreeMap<String, String> {
    let mut cnt: BTreeMap<String, u32> = BTreeMap::new();
    let mut m = BTreeMap::new();
    let own = sig.and_then(sig_ctx);
    for s in &ids {
        if let Some((b, c)) = base_h(&s) {
            if Some(c) == own.as_deref() && !ids.iter().any(|x| x == b) {
                m.insert(s.clone(), b.to_string());
                continue;
            }
            if b.chars().next().map_or(false, |c| c.is_uppercase()) {
                continue;
            }
            let n = cnt.entry(b.to_string()).or_insert(0);
            *n += 1;
            m.insert(s.clone(), format!("{}__h{}", b, n));
        }
    }
    m
}
struct HygTop {
    par: BTreeMap<u32, u32>,
}
impl VisitMut for HygTop {
    fn visit_item_mut(&mut self, it: &mut Item) {
        match it {
            Item::Mod(m) => {
                Hyg { keep: BTreeMap::new(), par: &self.par }.visit_ident_mut(&mut m.ident);
                if let Some((_, its)) = &mut m.content {
                    for i in its {
                        self.visit_item_mut(i);
                    }
                }
            }
            Item::Impl(im) => {
                let mut items = std::mem::take(&mut im.items);
                Hyg { keep: BTreeMap::new(), par: &self.par }.visit_item_impl_mut(im);
                for x in &mut items {
                    let mut o = OrderedIdents(vec![]);
                    o.visit_impl_item(x);
                    let sig = if let ImplItem::Fn(f) = &*x { Some(f.sig.clone()) } else { None };
                    Hyg { keep: hyg_map(o.0, sig.as_ref()), par: &self.par }.visit_impl_item_mut(x);
                }
                im.items = items;
            }
            Item::Trait(im) => {
                let mut items = std::mem::take(&mut im.items);
                Hyg { keep: BTreeMap::new(), par: &self.par }.visit_item_trait_mut(im);
                for x in &mut items {
                    let mut o = OrderedIdents(vec![]);
                    o.visit_trait_item(x);
                    Hyg { keep: hyg_map(o.0, None), par: &self.par }.visit_trait_item_mut(x);
                }
                im.items = items;
            }
            other => {
                let mut o = OrderedIdents(vec![]);
                o.visit_item(other);
                let sig = if let Item::Fn(f) = &*other { Some(f.sig.clone()) } else { None };
                Hyg { keep: hyg_map(o.0, sig.as_ref()), par: &self.par }.visit_item_mut(other);
            }
        }
    }
}

pub fn parse_expanded(src: &str) -> std::result::Result<File, String> {
    let body = match src.find("\n/*\nExpansions:") {
        Some(i) => &src[..i],
        None => src,
    };
    let t = strip_hygiene_comments(body);
    let mut f = syn::parse_file(&t).map_err(|e| {
        let l = e.span().start().line;
        format!("{} at line {}: {}", e, l, t.lines().nth(l.saturating_sub(1)).unwrap_or(""))
    })?;
    let mut par = BTreeMap::new();
    for l in src[body.len()..].lines() {
        // #300: parent: #0, outer_mark: ...
        if let Some((a, r)) = l.strip_prefix('#').and_then(|l| l.split_once(": parent: #")) {
            if let (Ok(a), Ok(p)) = (a.parse(), r.split(',').next().unwrap_or("").parse()) {
                par.insert(a, p);
            }
        }
    }
    let mut h = HygTop { par };
    for it in &mut f.items {
        h.visit_item_mut(it);
    }
    Ok(f)
}

// ---------------------------------------------------------------- substitution
pub fn pat_idents(p: &Pat) -> BTreeSet<String> {
    let mut v = PatIdents(BTreeSet::new());
    v.visit_pat(p);
    v.0
}
pub struct Subst {
    pub map: BTreeMap<String, Expr>,
}
impl Subst {
    fn without(&mut self, names: &BTreeSet<String>) {
        for n in names {
            self.map.remove(n);
        }
    }
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.map.is_empty() {
            return;
        }
        match e {
            Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => {
                if let Some(r) = self.map.get(&p.path.segments[0].ident.to_string()) {
                    *e = r.clone();
                }
                return;
            }
            Expr::Closure(c) => {
                let saved = self.map.clone();
                for p in &c.inputs {
                    self.without(&pat_idents(p));
                }
                self.visit_expr_mut(&mut c.body);
                self.map = saved;
                return;
            }
            Expr::ForLoop(f) => {
                self.visit_expr_mut(&mut f.expr);
                let saved = self.map.clone();
                self.without(&pat_idents(&f.pat));
                self.visit_block_mut(&mut f.body);
                self.map = saved;
                return;
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in &mut m.arms {
                    let saved = self.map.clone();
                    self.without(&pat_idents(&a.pat));
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.visit_expr_mut(&mut a.body);
                    self.map = saved;
                }
                return;
            }
            Expr::If(i) => {
                let saved = self.map.clone();
                if let Expr::Let(l) = &mut *i.cond {
                    self.visit_expr_mut(&mut l.expr);
                    self.without(&pat_idents(&l.pat));
                } else {
                    self.visit_expr_mut(&mut i.cond);
                }
                self.visit_block_mut(&mut i.then_branch);
                self.map = saved;
                if let Some((_, b)) = &mut i.else_branch {
                    self.visit_expr_mut(b);
                }
                return;
            }
            Expr::Struct(s) => {
                for f in &mut s.fields {
                    let had_colon = f.colon_token.is_some();
                    self.visit_expr_mut(&mut f.expr);
                    if !had_colon {
                        f.colon_token = Some(Default::default());
                    }
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let saved = self.map.clone();
        for s in &mut b.stmts {
            match s {
                Stmt::Local(l) => {
                    if let Some(i) = &mut l.init {
                        self.visit_expr_mut(&mut i.expr);
                        if let Some((_, d)) = &mut i.diverge {
                            self.visit_expr_mut(d);
                        }
                    }
                    self.without(&pat_idents(&l.pat));
                }
                Stmt::Expr(e, _) => self.visit_expr_mut(e),
                _ => {}
            }
        }
        self.map = saved;
    }
}

// ---------------------------------------------------------------- helpers
pub fn int_lit(v: i128, suf: &str) -> Expr {
    if v < 0 {
        syn::parse_str(&format!("(-{}{})", -v, suf)).unwrap()
    } else {
        syn::parse_str(&format!("{}{}", v, suf)).unwrap()
    }
}
pub fn bool_lit(b: bool) -> Expr {
    syn::parse_str(if b { "true" } else { "false" }).unwrap()
}
pub fn as_bool(e: &Expr) -> Option<bool> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => Some(b.value),
        Expr::Paren(p) => as_bool(&p.expr),
        Expr::Group(p) => as_bool(&p.expr),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => as_bool(e),
            _ => None,
        },
        _ => None,
    }
}
pub fn as_int(e: &Expr) -> Option<i128> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(b), .. }) => b.base10_parse().ok(),
        Expr::Paren(p) => as_int(&p.expr),
        Expr::Group(p) => as_int(&p.expr),
        Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => Some(-as_int(expr)?),
        _ => None,
    }
}
fn lit_suffix(e: &Expr) -> String {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(b), .. }) => b.suffix().to_string(),
        Expr::Paren(p) => lit_suffix(&p.expr),
        Expr::Group(p) => lit_suffix(&p.expr),
        Expr::Unary(u) => lit_suffix(&u.expr),
        _ => String::new(),
    }
}
pub fn path_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => {
            Some(p.path.segments[0].ident.to_string())
        }
        Expr::Paren(p) => path_ident(&p.expr),
        Expr::Group(p) => path_ident(&p.expr),
        _ => None,
    }
}
pub fn last_seg(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}
fn tokens_contain(e: &impl ToTokens, what: &str) -> bool {
    fn go(ts: proc_macro2::TokenStream, what: &str) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => i == what,
            proc_macro2::TokenTree::Group(g) => go(g.stream(), what),
            _ => false,
        })
    }
    go(e.to_token_stream(), what)
}

// ---------------------------------------------------------------- simplification
pub struct Simplify<'a> {
    pub krate: &'a Crate,
    pub module: String,
    pub locals: BTreeSet<String>,
    pub env: Env,
    pub dropped: Vec<String>,
}
impl<'a> VisitMut for Simplify<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // local consts first
        let mut map: BTreeMap<String, Expr> = BTreeMap::new();
        for s in &b.stmts {
            if let Stmt::Item(Item::Const(c)) = s {
                let mut env = self.env.clone();
                for (k, v) in &map {
                    if let Some(i) = as_int(v) {
                        env.vars.insert(k.clone(), i);
                    }
                }
                if let Some(v) = self.krate.eval(&self.module, &c.expr, &env, 0) {
                    let isb = matches!(&*c.ty, Type::Path(p) if p.path.is_ident("bool"));
                    let r = if isb { bool_lit(v != 0) } else { int_lit(v, "") };
                    map.insert(c.ident.to_string(), r);
                }
            }
        }
        if !map.is_empty() {
            let names: BTreeSet<String> = map.keys().cloned().collect();
            b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Const(c)) if names.contains(&c.ident.to_string())));
            // (consts are block scoped; substitute everywhere in the block)
            Subst { map }.visit_block_mut(b);
        }
        b.stmts.retain(|s| {
            !matches!(s, Stmt::Item(Item::Macro(_)) | Stmt::Item(Item::Use(_))) && !is_eprint(s)
        });
        visit_mut::visit_block_mut(self, b);
        // drop empty statements
        b.stmts.retain(|s| match s {
            Stmt::Expr(Expr::Block(bl), Some(_)) => !bl.block.stmts.is_empty(),
            Stmt::Expr(Expr::Tuple(t), Some(_)) => !t.elems.is_empty(),
            Stmt::Macro(m) => !m.mac.path.is_ident("macro_rules"),
            _ => true,
        });
        let n = b.stmts.len();
        let mut i = 0;
        b.stmts.retain(|s| {
            i += 1;
            match s {
                Stmt::Expr(Expr::Block(bl), None) => !(bl.block.stmts.is_empty() && i < n),
                _ => true,
            }
        });
        prop_lets(b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unsafe(u) = e {
            let block = u.block.clone();
            *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block });
        }
        // assertion macros
        if let Some(r) = assert_form(e) {
            *e = r;
        }
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<Expr> = None;
        match e {
            Expr::If(i) => {
                if let Some(c) = as_bool(&i.cond) {
                    if c {
                        new = Some(Expr::Block(ExprBlock {
                            attrs: vec![],
                            label: None,
                            block: i.then_branch.clone(),
                        }));
                    } else if let Some((_, eb)) = &i.else_branch {
                        new = Some((**eb).clone());
                    } else {
                        new = Some(syn::parse_str("{}").unwrap());
                    }
                }
            }
            Expr::Unary(u) => {
                if let UnOp::Not(_) = u.op {
                    if let Some(b) = as_bool(&u.expr) {
                        new = Some(bool_lit(!b));
                    }
                }
            }
            Expr::Binary(b) => {
                let (l, r) = (as_bool(&b.left), as_bool(&b.right));
                match b.op {
                    BinOp::And(_) => match (l, r) {
                        (Some(true), _) => new = Some((*b.right).clone()),
                        (Some(false), _) => new = Some(bool_lit(false)),
                        (_, Some(true)) => new = Some((*b.left).clone()),
                        _ => {}
                    },
                    BinOp::Or(_) => match (l, r) {
                        (Some(true), _) => new = Some(bool_lit(true)),
                        (Some(false), _) => new = Some((*b.right).clone()),
                        (_, Some(false)) => new = Some((*b.left).clone()),
                        _ => {}
                    },
                    _ => {
                        if let (Some(_), Some(_)) = (as_int(&b.left), as_int(&b.right)) {
                            if let Some(v) = self.krate.eval(&self.module, e, &Env::default(), 0) {
                                if let Expr::Binary(b) = e {
                                    let suf = {
                                        let s = lit_suffix(&b.left);
                                        if s.is_empty() {
                                            lit_suffix(&b.right)
                                        } else {
                                            s
                                        }
                                    };
                                    let cmp = matches!(
                                        b.op,
                                        BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)
                                    );
                                    new = Some(if cmp { bool_lit(v != 0) } else { int_lit(v, &suf) });
                                }
                            }
                        }
                    }
                }
            }
            Expr::Cast(c) => {
                if let (Some(v), Type::Path(p)) = (as_int(&c.expr), &*c.ty) {
                    if let Some(id) = p.path.get_ident() {
                        let n = id.to_string();
                        if ["usize", "isize", "u8", "i32", "u32", "u64", "i64"].contains(&n.as_str()) && v >= 0 && v < 128 {
                            new = Some(int_lit(v, &n));
                        }
                    }
                }
            }
            Expr::Paren(p) => {
                if as_int(&p.expr).is_some() || as_bool(&p.expr).is_some() {
                    new = Some((*p.expr).clone());
                }
            }
            Expr::Match(m) => {
                if is_option_env(&m.expr) && m.arms.len() == 2 {
                    new = Some(syn::parse_str("__any_bool()").unwrap());
                }
            }
            Expr::Path(p) => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last().cloned().unwrap_or_default();
                let upper = last.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')
                    && last.chars().any(|c| c.is_ascii_uppercase());
                if upper && !(segs.len() == 1 && self.locals.contains(&last)) {
                    if let Some(v) = self.krate.eval(&self.module, e, &self.env, 0) {
                        let isb = self.const_is_bool(&segs);
                        new = Some(if isb { bool_lit(v != 0) } else { int_lit(v, "") });
                    }
                }
            }
            _ => {}
        }
        if let Some(n) = new {
            *e = n;
        }
    }
}
impl<'a> Simplify<'a> {
    fn const_is_bool(&self, segs: &[String]) -> bool {
        let last = segs.last().unwrap();
        let key = self.krate.resolve(&self.module, segs).join("::");
        if let Some((_, t, _)) = self.krate.consts.get(&key) {
            return type_name(t) == "bool";
        }
        for (_, tr) in self.krate.traits.values() {
            for ti in &tr.items {
                if let TraitItem::Const(c) = ti {
                    if c.ident == last {
                        return type_name(&c.ty) == "bool";
                    }
                }
            }
        }
        false
    }
}
fn is_eprint(s: &Stmt) -> bool {
    if let Stmt::Expr(e, _) = s {
        let mut e = e;
        loop {
            match e {
                Expr::Block(b) if b.block.stmts.len() == 1 => {
                    if let Stmt::Expr(x, _) = &b.block.stmts[0] {
                        e = x;
                        continue;
                    }
                    return false;
                }
                Expr::Call(c) => {
                    return matches!(last_seg(&c.func).as_deref(), Some("_eprint") | Some("_print"));
                }
                _ => return false,
            }
        }
    }
    false
}
fn is_option_env(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => {
            p.path.segments.last().map_or(false, |s| s.ident == "None") && tokens_contain(p, "str")
        }
        Expr::Call(c) => {
            last_seg(&c.func).as_deref() == Some("Some")
                && c.args.len() == 1
                && matches!(c.args[0], Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
        }
        Expr::Paren(p) => is_option_env(&p.expr),
        _ => false,
    }
}
fn only_panic(b: &Block) -> bool {
    // a block that does nothing but panic
    if b.stmts.len() != 1 {
        return false;
    }
    match &b.stmts[0] {
        Stmt::Expr(e, _) => panics(e),
        _ => false,
    }
}
fn panics(e: &Expr) -> bool {
    match e {
        Expr::Block(b) => only_panic(&b.block),
        Expr::Call(c) => {
            let s = c.func.to_token_stream().to_string().replace(' ', "");
            s.contains("panicking::panic") || s.ends_with("rt::panic_fmt") || s.ends_with("rt::begin_panic") || s.contains("panicking::assert_failed")
        }
        Expr::Paren(p) => panics(&p.expr),
        _ => false,
    }
}
fn assert_form(e: &Expr) -> Option<Expr> {
    match e {
        Expr::If(i) if i.else_branch.is_none() && only_panic(&i.then_branch) => {
            let c = match &*i.cond {
                Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => (**expr).clone(),
                other => parse_quote(quote::quote!(!(#other))),
            };
            let mut call: ExprCall = syn::parse_str("__vassert(x)").unwrap();
            call.args[0] = c;
            Some(Expr::Call(call))
        }
        Expr::Match(m) if m.arms.len() == 1 => {
            if !tokens_contain(&m.arms[0].body, "assert_failed") {
                return None;
            }
            if let Expr::Tuple(t) = &*m.expr {
                if t.elems.len() == 2 {
                    let strip = |x: &Expr| -> Option<Expr> {
                        if let Expr::Reference(r) = x {
                            Some((*r.expr).clone())
                        } else {
                            None
                        }
                    };
                    let l = strip(&t.elems[0])?;
                    let r = strip(&t.elems[1])?;
                    let ne = tokens_contain(&m.arms[0].body, "Ne");
                    let mut call: ExprCall =
                        syn::parse_str(if ne { "__vassert_ne(x, y)" } else { "__vassert_eq(x, y)" }).unwrap();
                    call.args[0] = l;
                    call.args[1] = r;
                    return Some(Expr::Call(call));
                }
            }
            None
        }
        _ => None,
    }
}
fn parse_quote(t: proc_macro2::TokenStream) -> Expr {
    syn::parse2(t).unwrap()
}

/// propagate `let x = <literal>;` (immutable) into the rest of the block
fn prop_lets(b: &mut Block) {
    let mut i = 0;
    while i < b.stmts.len() {
        let mut found: Option<(String, Expr)> = None;
        if let Stmt::Local(l) = &b.stmts[i] {
            let (pat, ty) = match &l.pat {
                Pat::Type(pt) => (&*pt.pat, Some(&*pt.ty)),
                p => (p, None),
            };
            if let (Pat::Ident(pi), Some(init)) = (pat, &l.init) {
                if pi.mutability.is_none() && pi.by_ref.is_none() && init.diverge.is_none() {
                    if as_bool(&init.expr).is_some() {
                        found = Some((pi.ident.to_string(), (*init.expr).clone()));
                    } else if let Some(v) = as_int(&init.expr) {
                        let suf = match ty {
                            Some(t) => type_name(t),
                            None => lit_suffix(&init.expr),
                        };
                        if v >= 0 {
                            found = Some((pi.ident.to_string(), int_lit(v, &suf)));
                        }
                    }
                }
            }
        }
        if let Some((n, e)) = found {
            let rest = b.stmts.split_off(i + 1);
            let mut blk = Block { brace_token: Default::default(), stmts: rest };
            let mut m = BTreeMap::new();
            m.insert(n, e);
            Subst { map: m }.visit_block_mut(&mut blk);
            b.stmts.pop();
            b.stmts.extend(blk.stmts);
        } else {
            i += 1;
        }
    }
}

// ---------------------------------------------------------------- inlining
pub struct Renamer {
    pub suf: String,
    pub names: BTreeSet<String>,
    pub types: BTreeMap<String, Type>,
}
impl VisitMut for Renamer {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                let n = p.path.segments[0].ident.to_string();
                if self.names.contains(&n) {
                    p.path.segments[0].ident = Ident::new(&format!("{}{}", n, self.suf), p.path.segments[0].ident.span());
                }
                return;
            }
            if p.qself.is_none() && p.path.segments.len() >= 2 {
                // T::zero()  with T substituted
                let n = p.path.segments[0].ident.to_string();
                if let Some(t) = self.types.get(&n) {
                    let rest: Vec<String> =
                        p.path.segments.iter().skip(1).map(|s| s.to_token_stream().to_string()).collect();
                    let txt = format!("<{}>::{}", t.to_token_stream(), rest.join("::"));
                    if let Ok(x) = syn::parse_str(&txt) {
                        *e = x;
                        return;
                    }
                }
            }
        }
        if let Expr::Struct(s) = e {
            for f in &mut s.fields {
                f.colon_token = Some(Default::default());
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        let n = p.ident.to_string();
        if self.names.contains(&n) {
            p.ident = Ident::new(&format!("{}{}", n, self.suf), p.ident.span());
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if let Some(id) = p.path.get_ident() {
                if let Some(n) = self.types.get(&id.to_string()) {
                    *t = n.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        f.colon_token = Some(Default::default());
        visit_mut::visit_field_pat_mut(self, f);
    }
}
pub fn has_return(b: &Block) -> bool {
    struct R(bool);
    impl<'a> Visit<'a> for R {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_item(&mut self, _: &'a Item) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut r = R(false);
    r.visit_block(b);
    r.0
}
/// turn a trailing `return e;` into the tail expression
pub fn tail_return(b: &mut Block) {
    if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.last() {
        let e = r.expr.as_ref().map(|e| (**e).clone());
        b.stmts.pop();
        if let Some(e) = e {
            b.stmts.push(Stmt::Expr(e, None));
        }
    }
}

/// `self` of an inlined method is the receiver it was called on
struct SelfSub(Expr);
impl VisitMut for SelfSub {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if path_ident(e).as_deref() == Some("self") {
            *e = self.0.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn path_last(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}
fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.qself.is_none() && p.path.segments.len() == 1,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}
pub struct Inliner<'a> {
    pub krate: &'a Crate,
    pub module: String,
    pub fn_path: String,
    pub has_contract: &'a dyn Fn(&str) -> bool,
    pub counter: u32,
    pub depth: u32,
    pub inlined: Vec<String>,
    pub err: Option<String>,
    pub locals: BTreeSet<String>,
    /// type parameters in scope of the function inlined into
    pub generics: BTreeSet<String>,
    /// names that the environment's contracts give a meaning to
    pub known_method: &'a dyn Fn(&str) -> bool,
}
impl<'a> Inliner<'a> {
    /// the only method of that name, if it has no contract of its own
    fn own_method(&self, name: &str) -> Option<FnDef> {
        if (self.known_method)(name) {
            return None;
        }
        let suf = format!("::{}", name);
        let mut it = self.krate.fns.values().filter(|f| f.path.ends_with(&suf) && f.self_ty.is_some());
        let f = it.next()?;
        if it.next().is_some() || f.in_trait.is_some() {
            return None;
        }
        Some(f.clone())
    }
    fn bind_and_body(&mut self, params: Vec<(Pat, Option<Type>)>, args: Vec<Expr>, mut body: Block, types: BTreeMap<String, Type>) -> Expr {
        self.counter += 1;
        let suf = format!("__i{}", self.counter);
        let mut names = BTreeSet::new();
        for (p, _) in &params {
            names.extend(pat_idents(p));
        }
        let mut v = PatIdents(BTreeSet::new());
        v.visit_block(&body);
        names.extend(v.0);
        let names: BTreeSet<String> = names
            .into_iter()
            .filter(|n| !n.chars().next().map_or(false, |c| c.is_uppercase()))
            .collect();
        let mut rn = Renamer { suf, names, types };
        rn.visit_block_mut(&mut body);
        let mut stmts = vec![];
        for ((mut p, t), a) in params.into_iter().zip(args) {
            rn.visit_pat_mut(&mut p);
            // `&mut x` closure parameter patterns
            let mut a = a;
            if let Pat::Reference(r) = &p {
                let inner = (*r.pat).clone();
                p = inner;
                if let Expr::Reference(r) = a {
                    a = *r.expr;
                }
            }
            let prim = match &t {
                Some(Type::Path(tp)) => tp
                    .path
                    .get_ident()
                    .map_or(false, |i| ["usize", "isize", "u8", "i32", "bool"].contains(&i.to_string().as_str())),
                _ => false,
            };
            let passed = match &t {
                Some(Type::Ptr(p)) => path_last(&p.elem).map_or(false, |n| self.generics.contains(&n) && !rn.types.contains_key(&n)),
                _ => false,
            };
            let st: Stmt = if prim || passed {
                let t = t.unwrap();
                syn::parse2(quote::quote!(let #p: #t = #a;)).unwrap()
            } else {
                syn::parse2(quote::quote!(let #p = #a;)).unwrap()
            };
            stmts.push(st);
        }
        stmts.extend(body.stmts);
        Expr::Block(ExprBlock {
            attrs: vec![],
            label: None,
            block: Block { brace_token: Default::default(), stmts },
        })
    }
    pub fn inline_closure(&mut self, c: &ExprClosure, args: Vec<Expr>) -> Expr {
        let params = c
            .inputs
            .iter()
            .map(|p| match p {
                Pat::Type(pt) => ((*pt.pat).clone(), Some((*pt.ty).clone())),
                p => (p.clone(), None),
            })
            .collect();
        let body = match &*c.body {
            Expr::Block(b) => b.block.clone(),
            e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] },
        };
        self.bind_and_body(params, args, body, BTreeMap::new())
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // local closures used as functions
        let mut i = 0;
        while i < b.stmts.len() {
            let mut found = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        found = Some((pi.ident.to_string(), c.clone()));
                    }
                }
            }
            if let Some((n, c)) = found {
                let rest = b.stmts.split_off(i + 1);
                b.stmts.pop();
                let mut blk = Block { brace_token: Default::default(), stmts: rest };
                let mut ci = ClosureSub { name: n, c, inl: self };
                ci.visit_block_mut(&mut blk);
                b.stmts.extend(blk.stmts);
            } else {
                i += 1;
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_mut(&mut self, _i: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // thread-tree joins: each part runs once; the order is immaterial (see DESIGN.md)
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if (name == "join" || name == "join4" || name == "join3l" || name == "join3r") && !m.args.is_empty() {
                let n = match name.as_str() {
                    "join" => 2,
                    "join4" => 4,
                    _ => 3,
                };
                let recv = m.receiver.clone();
                let mut stmts: Vec<Stmt> = vec![];
                let mut ok = true;
                for i in 0..n {
                    let a = if name == "join" { m.args.get(i) } else { m.args.get(0) };
                    let a = match a {
                        Some(Expr::Reference(r)) => Some(&*r.expr),
                        x => x,
                    };
                    match a {
                        Some(Expr::Closure(c)) => {
                            let mut args: Vec<Expr> = vec![syn::parse2(quote::quote!((#recv).child_())).unwrap()];
                            if name != "join" {
                                args.push(int_lit(i as i128, "usize"));
                            }
                            if c.inputs.len() != args.len() {
                                ok = false;
                                break;
                            }
                            let x = self.inline_closure(c, args);
                            stmts.push(Stmt::Expr(x, Some(Default::default())));
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    *e = Expr::Block(ExprBlock {
                        attrs: vec![],
                        label: None,
                        block: Block { brace_token: Default::default(), stmts },
                    });
                    visit_mut::visit_expr_mut(self, e);
                }
                return;
            }
        }
        let mut receiver: Option<Expr> = None;
        let mut method: Option<FnDef> = None;
        if let Expr::MethodCall(m) = &*e {
            if let Some(f) = self.own_method(&m.method.to_string()) {
                if matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) {
                    receiver = Some((*m.receiver).clone());
                    method = Some(f);
                }
            }
        }
        if let Expr::Call(c) = &*e {
            if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.len();
                if p.qself.is_none() && n == 2 && p.path.segments[0].ident.to_string().starts_with(char::is_uppercase) {
                    if let Some(f) = self.own_method(&p.path.segments[1].ident.to_string()) {
                        let ty = p.path.segments[0].ident.to_string();
                        let own = f.self_ty.as_ref().map(type_name).unwrap_or_default();
                        if (ty == "Self" || ty == own) && !matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) {
                            method = Some(f);
                        }
                    }
                }
            }
        }
        let (segs, args, turbofish) = match e {
            Expr::MethodCall(m) if method.is_some() => {
                let tf: Vec<Type> = m.turbofish.iter().flat_map(|a| a.args.iter()).filter_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None }).collect();
                (vec![], m.args.iter().cloned().collect::<Vec<_>>(), tf)
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let tf: Vec<Type> = match &p.path.segments.last().unwrap().arguments {
                        PathArguments::AngleBracketed(a) => a
                            .args
                            .iter()
                            .filter_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None })
                            .collect(),
                        _ => vec![],
                    };
                    (segs, c.args.iter().cloned().collect::<Vec<_>>(), tf)
                }
                _ => return,
            },
            _ => return,
        };
        if segs.len() == 1 && self.locals.contains(&segs[0]) {
            return;
        }
        let (abs, f) = match method {
            Some(f) => (f.path.clone(), f),
            None => {
                let nested = format!("{}::{}", self.fn_path, segs[0]);
                let nf = if segs.len() == 1 { self.krate.fns.get(&nested).cloned().or_else(|| crate::emit::find_fn(self.krate, &nested)) } else { None };
                match nf {
                    Some(f) => (nested, f),
                    None => {
                        let abs = self.krate.resolve(&self.module, &segs).join("::");
                        match self.krate.fns.get(&abs) {
                            Some(f) if f.self_ty.is_none() && f.in_trait.is_none() => (abs, f.clone()),
                            _ => return,
                        }
                    }
                }
            }
        };
        if (self.has_contract)(&abs) {
            return;
        }
        if self.depth > 8 {
            self.err = Some(format!("inlining too deep at {}", abs));
            return;
        }
        let mut body = f.block.clone();
        tail_return(&mut body);
        if has_return(&body) {
            self.err = Some(format!("cannot inline {} (early return)", abs));
            return;
        }
        // resolve module-level names of the callee
        let mut env_locals = BTreeSet::new();
        for a in &f.sig.inputs {
            if let FnArg::Typed(pt) = a {
                env_locals.extend(pat_idents(&pt.pat));
            }
        }
        let mut si = Simplify {
            krate: self.krate,
            module: f.module.clone(),
            locals: env_locals,
            env: Env::default(),
            dropped: vec![],
        };
        si.visit_block_mut(&mut body);
        let saved_m = self.module.clone();
        let saved_p = self.fn_path.clone();
        if f.module != self.module {
            Qualify { krate: self.krate, module: f.module.clone() }.visit_block_mut(&mut body);
        }
        let params: Vec<(Pat, Option<Type>)> = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| if let FnArg::Typed(pt) = a { Some(((*pt.pat).clone(), Some((*pt.ty).clone()))) } else { None })
            .collect();
        if params.len() != args.len() {
            self.err = Some(format!("arity mismatch inlining {}", abs));
            return;
        }
        let mut types = BTreeMap::new();
        let mut pre: Vec<Stmt> = vec![];
        if let Some(st) = &f.self_ty {
            types.insert("Self".to_string(), st.clone());
        }
        if let Some(r) = receiver {
            let r = if is_place(&r) {
                r
            } else {
                let id = Ident::new(&format!("self__r{}", self.counter + 1), proc_macro2::Span::call_site());
                pre.push(syn::parse2(quote::quote!(let mut #id = #r;)).unwrap());
                syn::parse2(quote::quote!(#id)).unwrap()
            };
            SelfSub(r).visit_block_mut(&mut body);
        }
        let tparams: Vec<String> = f
            .sig
            .generics
            .params
            .iter()
            .chain(f.impl_generics.params.iter())
            .filter_map(|g| if let GenericParam::Type(t) = g { Some(t.ident.to_string()) } else { None })
            .collect();
        for (n, t) in tparams.iter().zip(turbofish.iter()) {
            if !matches!(t, Type::Infer(_)) {
                types.insert(n.clone(), t.clone());
            }
        }
        for n in &tparams {
            // a type parameter that is passed on keeps its name; the pointers' types are stated below
            if !types.contains_key(n) && tokens_contain(&body, n) && !self.generics.contains(n) {
                self.err = Some(format!("cannot infer type parameter {} inlining {}", n, abs));
                return;
            }
        }
        self.inlined.push(abs.clone());
        // `#[target_feature]` of an inlined function stays an obligation
        for (i, t) in crate::emit::target_feats(&f.attrs).iter().enumerate() {
            let id = Ident::new(t, proc_macro2::Span::call_site());
            body.stmts.insert(i, syn::parse2(quote::quote!(__need_feature::#id();)).unwrap());
        }
        let mut x = self.bind_and_body(params, args, body, types);
        if let (Expr::Block(b), false) = (&mut x, pre.is_empty()) {
            pre.extend(std::mem::take(&mut b.block.stmts));
            b.block.stmts = pre;
        }
        self.depth += 1;
        self.module = f.module.clone();
        self.fn_path = abs;
        // recurse into the inlined body
        visit_mut::visit_expr_mut(self, &mut x);
        self.module = saved_m;
        self.fn_path = saved_p;
        self.depth -= 1;
        *e = x;
    }
}
/// make paths of an inlined body absolute
struct Qualify<'a> {
    krate: &'a Crate,
    module: String,
}
impl<'a> VisitMut for Qualify<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let abs = self.krate.resolve(&self.module, &segs);
        if abs != segs && self.krate.modules.contains(&abs[0]) {
            let extra = abs.len() as isize - segs.len() as isize;
            if extra >= 0 {
                let pre = abs[..abs.len() - 1].join("::");
                let mut lastseg = p.segments.last().unwrap().clone();
                lastseg.ident = Ident::new(abs.last().unwrap(), lastseg.ident.span());
                if let Ok(mut np) = syn::parse_str::<Path>(&format!("crate::{}::x", pre)) {
                    *np.segments.last_mut().unwrap() = lastseg;
                    *p = np;
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}
struct ClosureSub<'a, 'b> {
    name: String,
    c: ExprClosure,
    inl: &'b mut Inliner<'a>,
}
impl<'a, 'b> VisitMut for ClosureSub<'a, 'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if path_ident(&c.func).as_deref() == Some(self.name.as_str()) {
                    let args = c.args.iter().cloned().collect();
                    let cl = self.c.clone();
                    *e = self.inl.inline_closure(&cl, args);
                }
            }
            Expr::Reference(r) => {
                if path_ident(&r.expr).as_deref() == Some(self.name.as_str()) {
                    *r.expr = Expr::Closure(self.c.clone());
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- unrolling
pub struct Unroll<'a> {
    pub has_loop: &'a dyn Fn(&str) -> bool,
}
fn own_break(b: &Block) -> bool {
    struct R(bool);
    impl<'a> Visit<'a> for R {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.0 = true;
        }
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut r = R(false);
    r.visit_block(b);
    r.0
}
pub fn loop_var(p: &Pat) -> String {
    match p {
        Pat::Ident(i) => i.ident.to_string(),
        Pat::Tuple(t) => t.elems.first().map(loop_var).unwrap_or("_".into()),
        Pat::Reference(r) => loop_var(&r.pat),
        Pat::Type(t) => loop_var(&t.pat),
        _ => "_".into(),
    }
}
pub fn base_name(s: &str) -> String {
    // strip inlining suffixes
    let mut s = s.to_string();
    while let Some(i) = s.rfind("__i") {
        if s[i + 3..].chars().all(|c| c.is_ascii_digit()) && i + 3 < s.len() {
            s.truncate(i);
        } else {
            break;
        }
    }
    s
}
impl<'a> VisitMut for Unroll<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::ForLoop(f) = e {
            if let Expr::Range(r) = &*f.expr {
                if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                    if let (Some(x), Some(y)) = (as_int(a), as_int(b)) {
                        let v = loop_var(&f.pat);
                        if y - x <= 16 && !own_break(&f.body) && !(self.has_loop)(&format!("for {}", base_name(&v))) {
                            let mut stmts = vec![];
                            let suf = {
                                let s = lit_suffix(a);
                                if s.is_empty() {
                                    lit_suffix(b)
                                } else {
                                    s
                                }
                            };
                            for i in x..y {
                                let mut bl = f.body.clone();
                                let mut m = BTreeMap::new();
                                m.insert(v.clone(), int_lit(i, &suf));
                                Subst { map: m }.visit_block_mut(&mut bl);
                                stmts.push(Stmt::Expr(
                                    Expr::Block(ExprBlock { attrs: vec![], label: None, block: bl }),
                                    Some(Default::default()),
                                ));
                            }
                            *e = Expr::Block(ExprBlock {
                                attrs: vec![],
                                label: None,
                                block: Block { brace_token: Default::default(), stmts },
                            });
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- scalar replacement of local arrays
struct Uses {
    name: String,
    depth: usize,
    ok: bool,
}
fn index_chain(e: &Expr) -> Option<(String, Vec<i128>)> {
    match e {
        Expr::Index(ix) => {
            let (n, mut v) = index_chain(&ix.expr)?;
            v.push(as_int(&ix.index)?);
            Some((n, v))
        }
        Expr::Path(_) => Some((path_ident(e)?, vec![])),
        Expr::Paren(p) => index_chain(&p.expr),
        _ => None,
    }
}
impl<'a> Visit<'a> for Uses {
    fn visit_expr(&mut self, e: &'a Expr) {
        if let Expr::Index(_) = e {
            if let Some((n, v)) = index_chain(e) {
                if n == self.name && v.len() >= self.depth {
                    return;
                }
            }
        }
        if let Expr::Path(_) = e {
            if path_ident(e).as_deref() == Some(self.name.as_str()) {
                self.ok = false;
            }
        }
        visit::visit_expr(self, e);
    }
}
struct Repl {
    name: String,
    depth: usize,
}
impl VisitMut for Repl {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Index(ix) = e {
            if let Some((n, v)) = index_chain(&Expr::Index(ix.clone())) {
                if n == self.name && v.len() == self.depth {
                    let id = format!("{}_{}", n, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("_"));
                    *e = syn::parse_str(&id).unwrap();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn repeat_dims(e: &Expr) -> Option<(Vec<usize>, Expr)> {
    match e {
        Expr::Repeat(r) => {
            let n = as_int(&r.len)? as usize;
            if n > 64 {
                return None;
            }
            match repeat_dims(&r.expr) {
                Some((mut d, x)) => {
                    d.insert(0, n);
                    Some((d, x))
                }
                None => Some((vec![n], (*r.expr).clone())),
            }
        }
        Expr::Paren(p) => repeat_dims(&p.expr),
        _ => None,
    }
}
pub struct Sroa {
    pub done: Vec<String>,
}
impl VisitMut for Sroa {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut found = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                let pat = match &l.pat {
                    Pat::Type(pt) => &*pt.pat,
                    p => p,
                };
                if let (Pat::Ident(pi), Some(init)) = (pat, &l.init) {
                    if let Some((dims, x)) = repeat_dims(&init.expr) {
                        if dims.iter().product::<usize>() <= 64 {
                            let mut ty = match &l.pat {
                                Pat::Type(pt) => Some((*pt.ty).clone()),
                                _ => None,
                            };
                            for _ in 0..dims.len() {
                                ty = match ty {
                                    Some(Type::Array(a)) => Some((*a.elem).clone()),
                                    _ => None,
                                };
                            }
                            found = Some((pi.ident.to_string(), pi.mutability.is_some(), dims, x, ty));
                        }
                    }
                }
            }
            if let Some((n, mu, dims, x, ty)) = found {
                let mut u = Uses { name: n.clone(), depth: dims.len(), ok: true };
                for s in &b.stmts[i + 1..] {
                    u.visit_stmt(s);
                }
                if u.ok {
                    let mut ids = vec![n.clone()];
                    for d in &dims {
                        ids = ids.iter().flat_map(|p| (0..*d).map(move |k| format!("{}_{}", p, k))).collect();
                    }
                    let mut r = Repl { name: n.clone(), depth: dims.len() };
                    let mut rest = b.stmts.split_off(i + 1);
                    b.stmts.pop();
                    for s in &mut rest {
                        r.visit_stmt_mut(s);
                    }
                    for id in &ids {
                        let id = Ident::new(id, proc_macro2::Span::call_site());
                        let mt = if mu { quote::quote!(mut) } else { quote::quote!() };
                        let tt = match &ty {
                            Some(t) => quote::quote!(: #t),
                            None => quote::quote!(),
                        };
                        let st: Stmt = syn::parse2(quote::quote!(let #mt #id #tt = #x;)).unwrap();
                        b.stmts.push(st);
                    }
                    i = b.stmts.len();
                    b.stmts.extend(rest);
                    self.done.push(n);
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
