use std::collections::{BTreeMap, BTreeSet};
use syn::*;

#[derive(Clone)]
pub struct FnDef {
    pub path: String,
    pub module: String,
    pub sig: Signature,
    pub block: Block,
    pub self_ty: Option<Type>,
    pub in_trait: Option<String>,
    pub impl_generics: Generics,
    pub attrs: Vec<Attribute>,
}
#[derive(Clone)]
pub struct ImplDef {
    pub module: String,
    pub self_name: String,
    pub self_ty: Type,
    pub trait_name: Option<String>,
    pub item: ItemImpl,
}
#[derive(Default)]
pub struct Crate {
    pub fns: BTreeMap<String, FnDef>,
    pub impls: Vec<ImplDef>,
    pub traits: BTreeMap<String, (String, ItemTrait)>,
    pub consts: BTreeMap<String, (String, Type, Expr)>,
    pub statics: BTreeMap<String, (String, Type, Expr)>,
    pub uses: BTreeMap<String, BTreeMap<String, String>>,
    pub structs: BTreeMap<String, (String, ItemStruct)>,
    pub enums: BTreeMap<String, (String, ItemEnum)>,
    pub types: BTreeMap<String, (String, Type)>,
    pub modules: Vec<String>,
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => type_name(&r.elem),
        Type::Paren(p) => type_name(&p.elem),
        Type::Group(p) => type_name(&p.elem),
        Type::Array(a) => format!("arr_{}", type_name(&a.elem)),
        _ => "?".into(),
    }
}

impl Crate {
    pub fn build(file: File) -> Crate {
        let mut c = Crate::default();
        c.walk("", file.items);
        c
    }
    fn join(m: &str, n: &str) -> String {
        if m.is_empty() {
            n.to_string()
        } else {
            format!("{}::{}", m, n)
        }
    }
    fn add_use(&mut self, module: &str, pre: &str, t: &UseTree) {
        match t {
            UseTree::Path(p) => {
                let np = Self::join(pre, &p.ident.to_string());
                self.add_use(module, &np, &p.tree)
            }
            UseTree::Name(n) => {
                let id = n.ident.to_string();
                if id == "self" {
                    let last = pre.rsplit("::").next().unwrap_or("").to_string();
                    self.uses.entry(module.into()).or_default().insert(last, pre.to_string());
                } else {
                    self.uses.entry(module.into()).or_default().insert(id.clone(), Self::join(pre, &id));
                }
            }
            UseTree::Rename(r) => {
                self.uses
                    .entry(module.into())
                    .or_default()
                    .insert(r.rename.to_string(), Self::join(pre, &r.ident.to_string()));
            }
            UseTree::Group(g) => {
                for x in &g.items {
                    self.add_use(module, pre, x)
                }
            }
            UseTree::Glob(_) => {}
        }
    }
    fn add_fn(&mut self, f: FnDef) {
        let mut p = f.path.clone();
        let mut n = 2;
        while self.fns.contains_key(&p) {
            p = format!("{}#{}", f.path, n);
            n += 1;
        }
        let mut f = f;
        f.path = p.clone();
        self.fns.insert(p, f);
    }
    fn walk(&mut self, m: &str, items: Vec<Item>) {
        self.modules.push(m.to_string());
        for it in items {
            match it {
                Item::Mod(im) => {
                    if let Some((_, its)) = im.content {
                        self.walk(&Self::join(m, &im.ident.to_string()), its);
                    }
                }
                Item::Fn(f) => {
                    self.add_fn(FnDef {
                        path: Self::join(m, &f.sig.ident.to_string()),
                        module: m.into(),
                        sig: f.sig,
                        block: *f.block,
                        self_ty: None,
                        in_trait: None,
                        impl_generics: Generics::default(),
                        attrs: f.attrs,
                    });
                }
                Item::Const(k) => {
                    self.consts.insert(Self::join(m, &k.ident.to_string()), (m.into(), *k.ty, *k.expr));
                }
                Item::Static(k) => {
                    self.statics.insert(Self::join(m, &k.ident.to_string()), (m.into(), *k.ty, *k.expr));
                }
                Item::Struct(s) => {
                    self.structs.insert(Self::join(m, &s.ident.to_string()), (m.into(), s));
                }
                Item::Enum(s) => {
                    self.enums.insert(Self::join(m, &s.ident.to_string()), (m.into(), s));
                }
                Item::Type(t) => {
                    self.types.insert(Self::join(m, &t.ident.to_string()), (m.into(), *t.ty));
                }
                Item::Use(u) => self.add_use(m, "", &u.tree),
                Item::Trait(t) => {
                    let tn = t.ident.to_string();
                    for ti in &t.items {
                        if let TraitItem::Fn(f) = ti {
                            if let Some(b) = &f.default {
                                self.add_fn(FnDef {
                                    path: Self::join(m, &format!("{}::{}", tn, f.sig.ident)),
                                    module: m.into(),
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                    self_ty: None,
                                    in_trait: Some(tn.clone()),
                                    impl_generics: Generics::default(),
                                    attrs: f.attrs.clone(),
                                });
                            }
                        }
                    }
                    self.traits.insert(Self::join(m, &tn), (m.into(), t));
                }
                Item::Impl(i) => {
                    let sn = type_name(&i.self_ty);
                    let tn = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    for ii in &i.items {
                        if let ImplItem::Fn(f) = ii {
                            self.add_fn(FnDef {
                                path: Self::join(m, &format!("{}::{}", sn, f.sig.ident)),
                                module: m.into(),
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                self_ty: Some((*i.self_ty).clone()),
                                in_trait: tn.clone(),
                                impl_generics: i.generics.clone(),
                                attrs: f.attrs.clone(),
                            });
                        }
                    }
                    self.impls.push(ImplDef {
                        module: m.into(),
                        self_name: sn,
                        self_ty: (*i.self_ty).clone(),
                        trait_name: tn,
                        item: i,
                    });
                }
                _ => {}
            }
        }
    }

    /// absolute crate path (without `crate::`) of a path used in `module`, or an external path
    pub fn resolve(&self, module: &str, segs: &[String]) -> Vec<String> {
        let mut segs = segs.to_vec();
        let mut module = module.to_string();
        for _ in 0..8 {
            if segs.is_empty() {
                return segs;
            }
            match segs[0].as_str() {
                "crate" => {
                    segs.remove(0);
                    module = String::new();
                    // absolute now; but the path itself may go through a `use`
                    if segs.len() >= 2 && !self.modules.contains(&segs[0]) {
                        if let Some(u) = self.uses.get("").and_then(|u| u.get(&segs[0])) {
                            let mut l: Vec<String> = u.split("::").map(|s| s.to_string()).collect();
                            if l[0] == "crate" || l[0] == "self" {
                                l.remove(0);
                            }
                            if !l.is_empty() && l[0] != segs[0] && self.modules.contains(&l[0]) {
                                l.extend(segs[1..].iter().cloned());
                                segs = l;
                                segs.insert(0, "crate".into());
                                continue;
                            }
                        }
                    }
                    if segs.len() >= 2 {
                        let m = segs[..segs.len() - 1].join("::");
                        if let Some(u) = self.uses.get(&m).and_then(|u| u.get(segs.last().unwrap())) {
                            let l: Vec<String> = u.split("::").map(|s| s.to_string()).collect();
                            segs = l;
                            module = m;
                            continue;
                        }
                    }
                    return segs;
                }
                "super" => {
                    segs.remove(0);
                    let parent: Vec<&str> = module.split("::").collect();
                    let pm = parent[..parent.len() - 1].join("::");
                    let mut v = vec!["crate".to_string()];
                    v.extend(pm.split("::").filter(|s| !s.is_empty()).map(|s| s.to_string()));
                    v.extend(segs);
                    segs = v;
                    continue;
                }
                "self" => {
                    segs.remove(0);
                    let mut v = vec!["crate".to_string()];
                    v.extend(module.split("::").filter(|s| !s.is_empty()).map(|s| s.to_string()));
                    v.extend(segs);
                    segs = v;
                    continue;
                }
                _ => {}
            }
            if let Some(u) = self.uses.get(&module).and_then(|u| u.get(&segs[0])) {
                let mut v: Vec<String> = u.split("::").map(|s| s.to_string()).collect();
                if v.len() == 1 && v[0] == segs[0] {
                    return segs;
                }
                v.extend(segs[1..].iter().cloned());
                segs = v;
                if segs[0] != "crate" && segs[0] != "super" && segs[0] != "self" {
                    // extern path, or a sibling module at the crate root
                    if self.modules.contains(&segs[0]) {
                        segs.insert(0, "crate".into());
                        continue;
                    }
                    return segs;
                }
                continue;
            }
            // local to the module?
            let p = Self::join(&module, &segs[0]);
            if self.fns.contains_key(&p)
                || self.consts.contains_key(&p)
                || self.statics.contains_key(&p)
                || self.structs.contains_key(&p)
                || self.types.contains_key(&p)
                || self.traits.contains_key(&p)
                || self.enums.contains_key(&p)
                || self.modules.contains(&p)
            {
                let mut v: Vec<String> = module.split("::").filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
                v.extend(segs);
                return v;
            }
            return segs;
        }
        segs
    }

    fn impl_for(&self, module: &str, ty: &str, tr: Option<&str>) -> Option<&ImplDef> {
        let abs = self.resolve(module, &[ty.to_string()]).join("::");
        self.impls.iter().find(|i| {
            (tr.is_none() || i.trait_name.as_deref() == tr)
                && self.resolve(&i.module, &[i.self_name.clone()]).join("::") == abs
        })
    }
    /// associated type of an impl, resolved to (module, Type)
    pub fn assoc_type(&self, module: &str, ty: &Type, tr: Option<&str>, name: &str) -> Option<(String, Type)> {
        let (m, t) = self.norm_type(module, ty);
        let n = type_name(&t);
        let abs = self.resolve(&m, &[n]).join("::");
        for i in &self.impls {
            if tr.is_some() && i.trait_name.as_deref() != tr {
                continue;
            }
            if self.resolve(&i.module, &[i.self_name.clone()]).join("::") != abs {
                continue;
            }
            for it in &i.item.items {
                if let ImplItem::Type(t) = it {
                    if t.ident == name {
                        return Some(self.norm_type(&i.module, &t.ty));
                    }
                }
            }
        }
        None
    }
    /// resolve aliases and projections
    pub fn norm_type(&self, module: &str, t: &Type) -> (String, Type) {
        if let Type::Path(p) = t {
            if let Some(q) = &p.qself {
                if p.path.segments.len() >= 2 {
                    let tr = p.path.segments[q.position - 1].ident.to_string();
                    let name = p.path.segments.last().unwrap().ident.to_string();
                    if let Some(r) = self.assoc_type(module, &q.ty, Some(&tr), &name) {
                        return r;
                    }
                }
            } else {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let abs = self.resolve(module, &segs).join("::");
                if let Some((m, t2)) = self.types.get(&abs) {
                    return self.norm_type(m, t2);
                }
            }
        }
        (module.to_string(), t.clone())
    }
    /// value of an associated const of a concrete type
    pub fn assoc_const(&self, module: &str, ty: &Type, name: &str, depth: u32) -> Option<i128> {
        if depth > 20 {
            return None;
        }
        let (m, t) = self.norm_type(module, ty);
        let n = type_name(&t);
        let abs = self.resolve(&m, &[n]).join("::");
        for i in &self.impls {
            if self.resolve(&i.module, &[i.self_name.clone()]).join("::") != abs {
                continue;
            }
            for it in &i.item.items {
                if let ImplItem::Const(c) = it {
                    if c.ident == name {
                        return self.eval(&i.module, &c.expr, &Env::with_self(&i.self_ty), depth + 1);
                    }
                }
            }
            // trait default
            if let Some(tn) = &i.trait_name {
                let tp = self.resolve(&i.module, &[tn.clone()]).join("::");
                if let Some((tm, tr)) = self.traits.get(&tp) {
                    for ti in &tr.items {
                        if let TraitItem::Const(c) = ti {
                            if c.ident == name {
                                if let Some((_, e)) = &c.default {
                                    let mut env = Env::with_self(&i.self_ty);
                                    env.self_module = Some(i.module.clone());
                                    return self.eval(tm, e, &env, depth + 1);
                                }
                            }
                        }
                    }
                }
            }
        }
        None
    }
    pub fn eval(&self, module: &str, e: &Expr, env: &Env, depth: u32) -> Option<i128> {
        if depth > 40 {
            return None;
        }
        let d = depth + 1;
        match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) => i.base10_parse::<i128>().ok(),
                Lit::Bool(b) => Some(b.value as i128),
                _ => None,
            },
            Expr::Paren(p) => self.eval(module, &p.expr, env, d),
            Expr::Group(p) => self.eval(module, &p.expr, env, d),
            Expr::Cast(c) => self.eval(module, &c.expr, env, d),
            Expr::Block(b) if b.block.stmts.len() == 1 => {
                if let Stmt::Expr(x, None) = &b.block.stmts[0] {
                    self.eval(module, x, env, d)
                } else {
                    None
                }
            }
            Expr::Unary(u) => {
                let x = self.eval(module, &u.expr, env, d)?;
                match u.op {
                    UnOp::Neg(_) => Some(-x),
                    UnOp::Not(_) => Some((x == 0) as i128),
                    _ => None,
                }
            }
            Expr::Binary(b) => {
                let x = self.eval(module, &b.left, env, d)?;
                match b.op {
                    BinOp::And(_) if x == 0 => return Some(0),
                    BinOp::Or(_) if x != 0 => return Some(1),
                    _ => {}
                }
                let y = self.eval(module, &b.right, env, d)?;
                Some(match b.op {
                    BinOp::Add(_) => x + y,
                    BinOp::Sub(_) => x - y,
                    BinOp::Mul(_) => x * y,
                    BinOp::Div(_) if y != 0 => x / y,
                    BinOp::Rem(_) if y != 0 => x % y,
                    BinOp::BitXor(_) => x ^ y,
                    BinOp::BitAnd(_) => x & y,
                    BinOp::BitOr(_) => x | y,
                    BinOp::Shl(_) if y < 64 => x << y,
                    BinOp::Shr(_) if y < 64 => x >> y,
                    BinOp::And(_) | BinOp::Or(_) => (y != 0) as i128,
                    BinOp::Eq(_) => (x == y) as i128,
                    BinOp::Ne(_) => (x != y) as i128,
                    BinOp::Lt(_) => (x < y) as i128,
                    BinOp::Le(_) => (x <= y) as i128,
                    BinOp::Gt(_) => (x > y) as i128,
                    BinOp::Ge(_) => (x >= y) as i128,
                    _ => return None,
                })
            }
            Expr::If(i) => {
                let c = self.eval(module, &i.cond, env, d)?;
                if c != 0 {
                    if let [Stmt::Expr(x, None)] = &i.then_branch.stmts[..] {
                        return self.eval(module, x, env, d);
                    }
                    None
                } else {
                    self.eval(module, &i.else_branch.as_ref()?.1, env, d)
                }
            }
            Expr::Match(mm) => {
                // match None::<&'static str> { Some(..) => .., None => X }
                if let Expr::Path(p) = &*mm.expr {
                    if p.path.segments.last()?.ident == "None" {
                        for a in &mm.arms {
                            if let Pat::Path(pp) = &a.pat {
                                if pp.path.segments.last()?.ident == "None" {
                                    return self.eval(module, &a.body, env, d);
                                }
                            }
                            if let Pat::Ident(pi) = &a.pat {
                                if pi.ident == "None" {
                                    return self.eval(module, &a.body, env, d);
                                }
                            }
                        }
                    }
                }
                None
            }
            Expr::Path(p) => {
                if let Some(q) = &p.qself {
                    // <X as Trait>::CONST or <X>::CONST
                    let name = p.path.segments.last()?.ident.to_string();
                    let (sm, ty) = env.subst(module, &q.ty);
                    return self.assoc_const(&sm, &ty, &name, d);
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() == 1 {
                    if let Some(v) = env.vars.get(&segs[0]) {
                        return Some(*v);
                    }
                    if env.locals.contains(&segs[0]) {
                        return None;
                    }
                }
                if segs[0] == "Self" && segs.len() >= 2 {
                    let st = env.self_ty.as_ref()?;
                    let sm = env.self_module.clone().unwrap_or(module.to_string());
                    if segs.len() == 2 {
                        return self.assoc_const(&sm, st, &segs[1], d);
                    }
                    if segs.len() == 3 {
                        let (am, at) = self.assoc_type(&sm, st, None, &segs[1])?;
                        return self.assoc_const(&am, &at, &segs[2], d);
                    }
                    return None;
                }
                let abs = self.resolve(module, &segs);
                let key = abs.join("::");
                if let Some((m, _, x)) = self.consts.get(&key) {
                    return self.eval(&m.clone(), x, &Env::default(), d);
                }
                if abs.len() >= 2 {
                    let tyn = abs[..abs.len() - 1].join("::");
                    if self.structs.contains_key(&tyn) || self.types.contains_key(&tyn) {
                        let m = abs[..abs.len() - 2].join("::");
                        let ty: Type = syn::parse_str(&abs[abs.len() - 2]).ok()?;
                        return self.assoc_const(&m, &ty, abs.last()?, d);
                    }
                }
                None
            }
            _ => None,
        }
    }
    #[allow(dead_code)]
    pub fn has_impl(&self, module: &str, ty: &str, tr: &str) -> bool {
        self.impl_for(module, ty, Some(tr)).is_some()
    }
}

#[derive(Default, Clone)]
pub struct Env {
    pub vars: BTreeMap<String, i128>,
    pub locals: BTreeSet<String>,
    pub self_ty: Option<Type>,
    pub self_module: Option<String>,
}
impl Env {
    pub fn with_self(t: &Type) -> Env {
        Env { self_ty: Some(t.clone()), ..Default::default() }
    }
    fn subst(&self, module: &str, t: &Type) -> (String, Type) {
        if let Type::Path(p) = t {
            if p.path.is_ident("Self") {
                if let Some(s) = &self.self_ty {
                    return (self.self_module.clone().unwrap_or(module.to_string()), s.clone());
                }
            }
        }
        (module.to_string(), t.clone())
    }
}
