use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Clause {
    pub tags: Vec<String>,
    pub text: String,
}
#[derive(Clone, Debug, Default)]
pub struct LoopC {
    pub key: String,
    pub inv: Vec<Clause>,
    pub invx: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub dec: Option<String>,
    pub before: String,
    pub begin: String,
    pub end: String,
    pub after: String,
    pub attrs: String,
}
#[derive(Clone, Debug)]
pub struct At {
    pub anchor: String,
    pub text: String,
    pub optional: bool,
}
#[derive(Clone, Debug, Default)]
pub struct FnC {
    pub path: String,
    pub props: Vec<String>,
    pub pure_: bool,
    pub req: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub dec: Option<String>,
    pub start: String,
    pub end: String,
    pub loops: Vec<LoopC>,
    pub ats: Vec<At>,
    pub attrs: String,
    pub ret: Option<String>,
    pub rename: Option<String>,
    pub drops: Vec<String>,
    pub where_: Option<String>,
    pub trusted: Option<String>,
    pub panicidx: Option<String>,
    pub refuse: Option<String>,
    pub ltypes: BTreeMap<String, String>,
    pub gen: Option<String>,
    pub sig: Option<String>,
    /// ghost text after every call of a prelude function (`a0_`.. arguments, `mw_` memory before)
    pub oncall: Vec<(String, String)>,
    /// ghost text before a call of a prelude function
    pub precall: Vec<(String, String)>,
}
#[derive(Clone, Debug, Default)]
pub struct ImplC {
    pub sup: String,
    /// generic parameters in place of the source's (a bound its users have)
    pub igen: Option<String>,
    pub specval: Vec<(String, String, String)>,
    pub path: String,
    pub spec: String,
    pub only: Vec<String>,
    pub props: Vec<String>,
}
#[derive(Clone, Debug, Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnC>,
    pub impls: BTreeMap<String, ImplC>,
    pub traits: BTreeMap<String, ImplC>,
    pub structs: BTreeMap<String, String>,
    pub items: Vec<(String, String)>, // module path -> raw text
    pub prelude: String,
    /// the prelude file by file: module name, text
    pub parts: Vec<(String, String)>,
}

/// `%for r in 0..8, c in 0..4: text {r} {c*2}` on one line expands to several lines.
pub fn expand_for(line: &str) -> Result<Vec<String>, String> {
    let t = line.trim_start();
    if !t.starts_with("%for ") {
        return Ok(vec![line.to_string()]);
    }
    let colon = t.find(": ").ok_or_else(|| format!("bad %for line: {}", line))?;
    let head = &t[5..colon];
    let body = &t[colon + 2..];
    let mut envs: Vec<BTreeMap<String, i64>> = vec![BTreeMap::new()];
    for part in head.split(',') {
        let p = part.trim();
        let (v, r) = p.split_once(" in ").ok_or_else(|| format!("bad %for: {}", line))?;
        let (a, b) = r.split_once("..").ok_or_else(|| format!("bad %for: {}", line))?;
        let a: i64 = a.trim().parse().map_err(|_| format!("bad %for: {}", line))?;
        let b: i64 = b.trim().parse().map_err(|_| format!("bad %for: {}", line))?;
        let mut n = vec![];
        for e in envs {
            for x in a..b {
                let mut e2 = e.clone();
                e2.insert(v.trim().to_string(), x);
                n.push(e2);
            }
        }
        envs = n;
    }
    let mut out = vec![];
    for e in envs {
        let mut s = String::new();
        let cs: Vec<char> = body.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if cs[i] == '{' {
                let mut j = i + 1;
                let mut depth = 1;
                while j < cs.len() {
                    if cs[j] == '{' {
                        depth += 1
                    }
                    if cs[j] == '}' {
                        depth -= 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    j += 1;
                }
                let inner: String = cs[i + 1..j.min(cs.len())].iter().collect();
                match ev_expr(&inner, &e) {
                    Some(v) => {
                        s.push_str(&v.to_string());
                        i = j + 1;
                        continue;
                    }
                    None => {}
                }
            }
            s.push(cs[i]);
            i += 1;
        }
        out.push(s);
    }
    Ok(out)
}

fn ev_expr(s: &str, env: &BTreeMap<String, i64>) -> Option<i64> {
    let e: syn::Expr = syn::parse_str(s).ok()?;
    ev(&e, env)
}
fn ev(e: &syn::Expr, env: &BTreeMap<String, i64>) -> Option<i64> {
    use syn::*;
    Some(match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok()?,
        Expr::Path(p) => *env.get(&p.path.get_ident()?.to_string())?,
        Expr::Paren(p) => ev(&p.expr, env)?,
        Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => -ev(expr, env)?,
        Expr::Binary(b) => {
            let (x, y) = (ev(&b.left, env)?, ev(&b.right, env)?);
            match b.op {
                BinOp::Add(_) => x + y,
                BinOp::Sub(_) => x - y,
                BinOp::Mul(_) => x * y,
                BinOp::Div(_) => x / y,
                BinOp::Rem(_) => x % y,
                BinOp::BitXor(_) => x ^ y,
                BinOp::BitAnd(_) => x & y,
                BinOp::Shl(_) => x << y,
                BinOp::Shr(_) => x >> y,
                _ => return None,
            }
        }
        _ => return None,
    })
}

fn expand_text(s: &str) -> Result<String, String> {
    let mut o = String::new();
    for l in s.lines() {
        for x in expand_for(l)? {
            let x = eval_text(&x, -1);
            o.push_str(&x);
            o.push('\n');
        }
    }
    Ok(o)
}

/// `${n}` becomes the number n, and `$[expr]` the value of an integer expression over literals
/// (+ - * / % ^ < == ?: and parentheses)
pub fn eval_text(t: &str, n: i64) -> String {
    let t = if n < 0 { t.to_string() } else { t.replace("${n}", &n.to_string()) };
    let mut o = String::new();
    let mut r = t.as_str();
    while let Some(i) = r.find("$[") {
        o.push_str(&r[..i]);
        let e = &r[i + 2..];
        let j = e.find(']').unwrap_or(e.len());
        if e[..j].contains('$') {
            o.push_str("$[");
            r = e;
            continue;
        }
        let b: Vec<char> = e[..j].chars().filter(|c| !c.is_whitespace()).collect();
        let mut p = 0;
        let v = ev_cond(&b, &mut p);
        o.push_str(&if v < 0 { format!("({})", v) } else { v.to_string() });
        r = if j < e.len() { &e[j + 1..] } else { "" };
    }
    o.push_str(r);
    o
}
fn ev_cond(b: &[char], p: &mut usize) -> i64 {
    let c = ev_bin(b, p, 0);
    if *p < b.len() && b[*p] == '?' {
        *p += 1;
        let x = ev_cond(b, p);
        if *p < b.len() && b[*p] == ':' {
            *p += 1;
        }
        let y = ev_cond(b, p);
        return if c != 0 { x } else { y };
    }
    c
}
fn ev_bin(b: &[char], p: &mut usize, lvl: usize) -> i64 {
    const L: [&str; 4] = ["<=", "^", "+-", "*/%"];
    if lvl == 4 {
        if *p < b.len() && b[*p] == '(' {
            *p += 1;
            let v = ev_cond(b, p);
            *p += 1;
            return v;
        }
        let mut v = 0;
        while *p < b.len() && b[*p].is_ascii_digit() {
            v = v * 10 + b[*p].to_digit(10).unwrap() as i64;
            *p += 1;
        }
        return v;
    }
    let mut v = ev_bin(b, p, lvl + 1);
    while *p < b.len() && L[lvl].contains(b[*p]) {
        let o = b[*p];
        *p += 1;
        let w = ev_bin(b, p, lvl + 1);
        v = match o {
            '<' => (v < w) as i64,
            '=' => (v == w) as i64,
            '^' => v ^ w,
            '+' => v + w,
            '-' => v - w,
            '*' => v * w,
            '/' => if w == 0 { 0 } else { v / w },
            _ => if w == 0 { 0 } else { v % w },
        };
    }
    v
}

fn clauses(tags: &[String], text: &str, out: &mut Vec<Clause>) -> Result<(), String> {
    let one: String = text
        .lines()
        .map(|l| match l.find("//") {
            Some(i) => &l[..i],
            None => l,
        })
        .map(|l| l.trim())
        .collect::<Vec<_>>()
        .join(" ");
    for t in expand_for(one.trim())? {
        let t = eval_text(t.trim().trim_end_matches(','), -1);
        if !t.is_empty() {
            out.push(Clause { tags: tags.to_vec(), text: t });
        }
    }
    Ok(())
}

pub fn load_dir(dir: &str, cfg: &str) -> Result<Contracts, String> {
    let mut c = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .map_err(|e| e.to_string())?
        .filter_map(|e| e.ok().map(|e| e.path()))
        .collect();
    files.sort();
    for f in files {
        let name = f.file_name().unwrap().to_string_lossy().to_string();
        let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
        if name.ends_with(".rs") {
            c.prelude.push_str(&text);
            c.prelude.push('\n');
            c.parts.push((format!("pre_{}", name.trim_end_matches(".rs")), text));
        } else if name.ends_with(".vc") {
            load(&text, cfg, &name, &mut c)?;
        }
    }
    Ok(c)
}

fn load(text: &str, cfg: &str, fname: &str, c: &mut Contracts) -> Result<(), String> {
    // split into directives: (directive line, body)
    let mut dirs: Vec<(usize, String, String)> = vec![];
    let mut skips: Vec<bool> = vec![];
    let mut macros: Vec<(String, String)> = vec![];
    // `%block N` .. `%endblock` names lines, `%use N` repeats them
    let mut blocks: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut lines: Vec<(usize, String)> = vec![];
    let mut inb: Option<String> = None;
    for (ln, l) in text.lines().enumerate() {
        if let Some(r) = l.strip_prefix("%block ") {
            blocks.insert(r.trim().to_string(), vec![]);
            inb = Some(r.trim().to_string());
        } else if l.trim() == "%endblock" {
            inb = None;
        } else if let Some(b) = &inb {
            blocks.get_mut(b).unwrap().push(l.to_string());
        } else if let Some(r) = l.strip_prefix("%use ") {
            match blocks.get(r.trim()) {
                Some(b) => {
                    for x in b {
                        match x.strip_prefix("%use ").and_then(|r| blocks.get(r.trim())) {
                            Some(b2) => lines.extend(b2.iter().map(|x| (ln, x.clone()))),
                            None => lines.push((ln, x.clone())),
                        }
                    }
                }
                None => return Err(format!("{}:{} no block {}", fname, ln + 1, r)),
            }
        } else {
            lines.push((ln, l.to_string()));
        }
    }
    for (ln, l) in &lines {
        let (ln, l) = (*ln, l.as_str());
        if let Some(r) = l.strip_prefix("%if ") {
            skips.push(!r.split_whitespace().any(|x| x == cfg));
            continue;
        }
        if l.trim() == "%endif" {
            skips.pop();
            continue;
        }
        if skips.iter().any(|x| *x) {
            continue;
        }
        if let Some(r) = l.strip_prefix("%def ") {
            let (n, v) = r.split_once('=').ok_or_else(|| format!("{}:{} bad %def", fname, ln + 1))?;
            let mut v = v.trim().to_string();
            if v.contains('$') {
                for (n, x) in macros.iter().rev() {
                    v = v.replace(n.as_str(), x);
                }
            }
            macros.push((format!("${}", n.trim()), v));
            continue;
        }
        if l.starts_with('#') && !l.starts_with("#[") {
            continue;
        }
        let mut l = l.to_string();
        for (n, v) in macros.iter().rev() {
            if l.contains(n.as_str()) {
                l = l.replace(n.as_str(), v);
            }
        }
        for l in expand_for(&l)? {
        if l.starts_with('@') {
            let (d, rest) = match l.find(|ch: char| ch == ' ' || ch == '[') {
                Some(i) => (l[..i].to_string(), l[i..].to_string()),
                None => (l.to_string(), String::new()),
            };
            dirs.push((ln + 1, d, rest));
        } else if let Some(last) = dirs.last_mut() {
            last.2.push('\n');
            last.2.push_str(&l);
        }
        }
    }
    let mut cur: Vec<String> = vec![]; // function paths being defined
    #[derive(PartialEq)]
    enum S {
        None,
        Fn,
        Loop,
        Impl,
        Trait,
    }
    let mut st = S::None;
    let mut curi = String::new();
    let mut f = FnC::default();
    let mut first = true;
    let mut flush = |f: &mut FnC, cur: &mut Vec<String>, c: &mut Contracts| {
        for p in cur.drain(..) {
            let mut g = f.clone();
            g.path = p.clone();
            c.fns.insert(p, g);
        }
        *f = FnC::default();
    };
    for (ln, d, rest) in dirs {
        let (tags, body) = if let Some(r) = rest.strip_prefix('[') {
            let (t, b) = r.split_once(']').ok_or_else(|| format!("{}:{} missing ]", fname, ln))?;
            (t.split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>(), b.to_string())
        } else {
            (vec![], rest.clone())
        };
        let arg = body.trim().to_string();
        let _ = first;
        first = false;
        match d.as_str() {
            "@fn" => {
                flush(&mut f, &mut cur, c);
                cur = arg.split_whitespace().map(|s| s.to_string()).collect();
                st = S::Fn;
            }
            "@impl" => {
                flush(&mut f, &mut cur, c);
                curi = arg.clone();
                c.impls.insert(arg.clone(), ImplC { path: arg, ..Default::default() });
                st = S::Impl;
            }
            "@trait" => {
                flush(&mut f, &mut cur, c);
                curi = arg.clone();
                c.traits.insert(arg.clone(), ImplC { path: arg, ..Default::default() });
                st = S::Trait;
            }
            "@struct" => {
                let (p, b) = match arg.find('\n') {
                    Some(i) => (arg[..i].trim().to_string(), arg[i..].to_string()),
                    None => (arg.clone(), String::new()),
                };
                c.structs.insert(p, b);
            }
            "@item" => {
                let (p, b) = match arg.find('\n') {
                    Some(i) => (arg[..i].trim().to_string(), arg[i..].to_string()),
                    None => (arg.clone(), String::new()),
                };
                c.items.push((p, expand_text(&b)?));
            }
            "@spec" => match st {
                S::Impl => c.impls.get_mut(&curi).unwrap().spec.push_str(&expand_text(&body)?),
                S::Trait => c.traits.get_mut(&curi).unwrap().spec.push_str(&expand_text(&body)?),
                _ => return Err(format!("{}:{} @spec outside impl/trait", fname, ln)),
            },
            "@igen" => match st {
                S::Trait => c.traits.get_mut(&curi).unwrap().igen = Some(arg),
                S::Impl => c.impls.get_mut(&curi).unwrap().igen = Some(arg),
                _ => return Err(format!("{}:{} @igen outside impl/trait", fname, ln)),
            },
            "@sup" => match st {
                S::Trait => c.traits.get_mut(&curi).unwrap().sup = arg,
                _ => return Err(format!("{}:{} @sup outside trait", fname, ln)),
            },
            "@specval" => {
                for w in arg.split_whitespace() {
                    let (a, b) = w.split_once('=').ok_or("@specval")?;
                    let (b, t) = b.split_once(':').ok_or("@specval")?;
                    c.traits.get_mut(&curi).ok_or("@specval")?.specval.push((a.into(), b.into(), t.into()));
                }
            }
            "@only" => {
                let v: Vec<String> = arg.split_whitespace().map(|s| s.to_string()).collect();
                match st {
                    S::Impl => c.impls.get_mut(&curi).unwrap().only = v,
                    S::Trait => c.traits.get_mut(&curi).unwrap().only = v,
                    _ => return Err(format!("{}:{} @only", fname, ln)),
                }
            }
            "@props" => {
                let v: Vec<String> = arg.split_whitespace().map(|s| s.to_string()).collect();
                match st {
                    S::Impl => c.impls.get_mut(&curi).unwrap().props = v,
                    S::Trait => c.traits.get_mut(&curi).unwrap().props = v,
                    _ => f.props = v,
                }
            }
            "@pure" => f.pure_ = true,
            "@trusted" => f.trusted = Some(arg),
            "@attr" => f.attrs.push_str(&arg),
            "@ret" => f.ret = Some(arg),
            "@rename" => f.rename = Some(arg),
            "@where" => f.where_ = Some(arg),
            "@ltype" => {
                if let Some((a, b)) = arg.split_once(' ') {
                    f.ltypes.insert(a.trim().to_string(), b.trim().to_string());
                }
            }
            "@panicidx" => f.panicidx = Some(arg),
            "@refuse" => f.refuse = Some(arg),
            "@gen" => f.gen = Some(arg),
            "@sig" => f.sig = Some(arg),
            "@precall" => match arg.find('\n') {
                Some(i) => f.precall.push((arg[..i].trim().to_string(), expand_text(&arg[i..])?)),
                None => return Err(format!("{}:{} @precall without text", fname, ln)),
            },
            "@oncall" => match arg.find('\n') {
                Some(i) => f.oncall.push((arg[..i].trim().to_string(), expand_text(&arg[i..])?)),
                None => return Err(format!("{}:{} @oncall without text", fname, ln)),
            },
            "@drop" => f.drops.push(arg),
            "@req" => clauses(&tags, &body, &mut f.req)?,
            "@ens" => {
                if st == S::Loop {
                    return Err(format!("{}:{} @ens inside a loop (use @lens)", fname, ln));
                }
                clauses(&tags, &body, &mut f.ens)?
            }
            "@dec" => {
                if st == S::Loop {
                    f.loops.last_mut().unwrap().dec = Some(arg)
                } else {
                    f.dec = Some(arg)
                }
            }
            "@start" => f.start.push_str(&expand_text(&body)?),
            "@fnend" => f.end.push_str(&expand_text(&body)?),
            "@loop" => {
                f.loops.push(LoopC { key: arg, ..Default::default() });
                st = S::Loop;
            }
            "@inv" => clauses(&tags, &body, &mut f.loops.last_mut().ok_or("@inv")?.inv)?,
            "@invx" => clauses(&tags, &body, &mut f.loops.last_mut().ok_or("@invx")?.invx)?,
            "@lens" => clauses(&tags, &body, &mut f.loops.last_mut().ok_or("@lens")?.ens)?,
            "@lattr" => f.loops.last_mut().ok_or("@lattr")?.attrs.push_str(&arg),
            "@before" => f.loops.last_mut().ok_or("@before")?.before.push_str(&expand_text(&body)?),
            "@begin" => f.loops.last_mut().ok_or("@begin")?.begin.push_str(&expand_text(&body)?),
            "@end" => f.loops.last_mut().ok_or("@end")?.end.push_str(&expand_text(&body)?),
            "@after" => f.loops.last_mut().ok_or("@after")?.after.push_str(&expand_text(&body)?),
            "@at" | "@at?" => {
                let (a, b) = match arg.find('\n') {
                    Some(i) => (arg[..i].trim().to_string(), arg[i..].to_string()),
                    None => return Err(format!("{}:{} @at without text", fname, ln)),
                };
                f.ats.push(At { anchor: a, text: expand_text(&b)?, optional: d == "@at?" });
                st = S::Fn;
            }
            x => return Err(format!("{}:{} unknown directive {}", fname, ln, x)),
        }
    }
    flush(&mut f, &mut cur, c);
    Ok(())
}
