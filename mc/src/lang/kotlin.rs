//! Reader for generated Kotlin.
use super::*;
use crate::tok::*;

#[rustfmt::skip]
pub const KEYWORDS: &[&str] = &[
    "as","break","class","continue","do","else","false","for","fun","if","in","interface","is","null","object",
    "package","return","super","this","throw","true","try","typealias","typeof","val","var","when","while",
];

pub fn check_ident(s: &str) -> Result<(), String> {
    let b = s.as_bytes();
    if KEYWORDS.contains(&s)
        || b.is_empty()
        || b[0].is_ascii_digit()
        || s.chars().all(|c| c == '_')
        || !b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
    {
        return Err(format!("{:?} is not a Kotlin identifier", s));
    }
    Ok(())
}

fn path(c: &mut Cur) -> PResult<String> {
    let mut s = c.id()?;
    while c.is_p('.') && matches!(c.at(1), Some(T::Id(_))) {
        c.p('.')?;
        s.push('.');
        s.push_str(&c.id()?);
    }
    Ok(s)
}

fn ty(c: &mut Cur) -> PResult<L> {
    let p = path(c)?;
    let mut args = vec![];
    if c.eat('<') {
        loop {
            args.push(ty(c)?);
            if !c.eat(',') {
                break;
            }
        }
        c.p('>')?;
    }
    let mut t = L::Path(p, args);
    while c.eat('?') {
        t = L::Opt(Box::new(t));
    }
    Ok(t)
}

enum Arg {
    Str(String),
    Class(String),
}

/// annotation after '@' (and optional `get:`)
fn annotation(c: &mut Cur) -> PResult<(String, Option<Arg>)> {
    c.p('@')?;
    let mut p = String::new();
    if c.is_id("get") && c.at(1) == Some(&T::P(':')) {
        c.i += 2;
        p.push_str("get:");
    }
    p.push_str(&path(c)?);
    let mut arg = None;
    if c.eat('(') {
        if let Some(T::Str(_)) = c.peek() {
            arg = Some(Arg::Str(c.str()?));
        } else {
            let cl = path(c)?;
            c.ps("::")?;
            c.kw("class")?;
            arg = Some(Arg::Class(cl));
        }
        c.p(')')?;
    }
    Ok((p, arg))
}

/// What Jackson's PropertyNamingStrategies make of a Kotlin property name.
pub fn jackson_name(strategy: &str, prop: &str) -> PResult<String> {
    fn snake(s: &str) -> String {
        // PropertyNamingStrategies.SnakeCaseStrategy.translate
        let cs: Vec<char> = s.chars().collect();
        let mut out = String::new();
        let mut was_prev_translated = false;
        for (i, &c0) in cs.iter().enumerate() {
            let mut c = c0;
            if i > 0 || c != '_' {
                if c.is_uppercase() {
                    if !was_prev_translated && !out.is_empty() && !out.ends_with('_') {
                        out.push('_');
                    }
                    c = c.to_ascii_lowercase();
                    was_prev_translated = true;
                } else {
                    was_prev_translated = false;
                }
                out.push(c);
            }
        }
        if out.is_empty() { s.to_string() } else { out }
    }
    Ok(match strategy {
        "LowerCaseStrategy" => prop.to_lowercase(),
        "UpperCamelCaseStrategy" => {
            let mut c = prop.chars();
            match c.next() {
                None => String::new(),
                Some(f) => f.to_ascii_uppercase().to_string() + c.as_str(),
            }
        }
        "SnakeCaseStrategy" => snake(prop),
        "KebabCaseStrategy" => snake(prop).replace('_', "-"),
        s => return Err(format!("unknown naming strategy {}", s)),
    })
}

const JP: &str = "com.fasterxml.jackson.annotation.JsonProperty";
const JN: &str = "com.fasterxml.jackson.databind.annotation.JsonNaming";
const JS: &str = "com.fasterxml.jackson.databind.PropertyNamingStrategies";
const JG: &str = "com.fasterxml.jackson.annotation.JsonAnyGetter";
const JA: &str = "com.fasterxml.jackson.annotation.JsonAnySetter";
const KS: &str = "kotlinx.serialization.Serializable";
const KN: &str = "kotlinx.serialization.SerialName";

pub fn parse(code: &str, _name: &str, style: Style, jackson: bool) -> Result<Module, String> {
    let mut c = Cur::new(code, Lx::Kotlin)?;
    let mut m = Module::default();
    let mut used: HashSet<String> = HashSet::new();
    while c.eat_id("import") {
        m.imports.push(path(&mut c)?);
    }
    if style != Style::Add && !m.imports.is_empty() {
        return Err("import lines under a style without imports".into());
    }
    let imports = m.imports.clone();
    let mut ext = |p: &str, full: &str| -> PResult<bool> {
        let short = full.rsplit('.').next().unwrap();
        let is = match style {
            Style::Add => p == short && imports.iter().any(|i| i == full),
            Style::Assume => p == short,
            Style::Qualified => p == full,
        };
        if is {
            used.insert(full.to_string());
        } else if p == short || p == full {
            return Err(format!("{} is not resolvable under this import style", p));
        }
        Ok(is)
    };
    while !c.done() {
        if c.eat_id("typealias") {
            let n = c.id()?;
            check_ident(&n)?;
            c.p('=')?;
            let t = ty(&mut c)?;
            c.eat(';');
            m.order.push(n.clone());
            m.aliases.push((String::new(), n, t));
            continue;
        }
        let mut d = Decl::default();
        let mut strategy = None;
        let mut serializable = false;
        while c.is_p('@') {
            let (p, a) = annotation(&mut c)?;
            if ext(&p, JN)? {
                let Some(Arg::Class(cl)) = a else { return Err("JsonNaming without class".into()) };
                let Some((host, s)) = cl.rsplit_once('.') else { return Err("unqualified strategy".into()) };
                if !ext(host, JS)? {
                    return Err(format!("unresolved {}", host));
                }
                strategy = Some(s.to_string());
            } else if ext(&p, KS)? {
                serializable = true;
            } else {
                return Err(format!("unexpected annotation {}", p));
            }
        }
        if serializable == jackson {
            return Err("Serializable annotation missing or misplaced".into());
        }
        c.kw("data")?;
        c.kw("class")?;
        d.name = c.id()?;
        check_ident(&d.name)?;
        c.p('(')?;
        while !c.eat(')') {
            let mut name = None;
            let mut any = 0;
            while c.is_p('@') {
                let (p, a) = annotation(&mut c)?;
                let g = p.strip_prefix("get:");
                if ext(g.unwrap_or(&p), JG)? {
                    any |= 1;
                } else if ext(&p, JA)? {
                    any |= 2;
                } else if ext(&p, if jackson { JP } else { KN })? {
                    let Some(Arg::Str(s)) = a else { return Err("name annotation without string".into()) };
                    name = Some(s);
                } else {
                    return Err(format!("unexpected annotation {}", p));
                }
            }
            c.kw("val")?;
            let id = c.id()?;
            check_ident(&id)?;
            c.p(':')?;
            let t = ty(&mut c)?;
            if c.eat('=') {
                let f = c.id()?;
                c.ps("()")?;
                if f != "mutableMapOf" || any != 3 {
                    return Err("unexpected default value".into());
                }
            }
            if any != 0 {
                d.extra = Some((id, t));
            } else {
                let explicit = name.is_some();
                let wire = match (name, &strategy) {
                    (Some(n), _) => n,
                    (None, Some(s)) => jackson_name(s, &id)?,
                    (None, None) => id.clone(),
                };
                d.members.push(Mem {
                    ident: id,
                    wire,
                    explicit,
                    quoted: false,
                    opt: false,
                    default: false,
                    vis: String::new(),
                    ty: t,
                });
            }
            if !c.eat(',') {
                c.p(')')?;
                break;
            }
        }
        if d.members.is_empty() && d.extra.is_none() {
            return Err("data class without properties".into());
        }
        m.order.push(d.name.clone());
        m.decls.push(d);
    }
    let names: HashSet<String> =
        m.decls.iter().map(|d| d.name.clone()).chain(m.aliases.iter().map(|a| a.1.clone())).collect();
    for i in &m.imports {
        let last = i.rsplit('.').next().unwrap();
        if names.contains(last) {
            return Err(format!("{} is both imported and declared", last));
        }
        if !used.contains(i) {
            return Err(format!("{} is imported but not used", i));
        }
    }
    if style == Style::Assume {
        for u in &used {
            let last = u.rsplit('.').next().unwrap();
            if names.contains(last) {
                return Err(format!("{} is both assumed to be imported and declared", last));
            }
        }
    }
    for d in &mut m.decls {
        for x in &mut d.members {
            resolve(&mut x.ty, &names)?;
        }
        if let Some((_, t)) = &mut d.extra {
            resolve(t, &names)?;
        }
    }
    for a in &mut m.aliases {
        resolve(&mut a.2, &names)?;
    }
    let mut e: Vec<String> = used.into_iter().collect();
    e.sort();
    m.externals = e;
    Ok(m)
}

fn resolve(t: &mut L, names: &HashSet<String>) -> PResult<()> {
    match t {
        L::Opt(x) => {
            resolve(x, names)?;
            // `Any?` is the unknown type; `Any` alone stays opaque
            if **x == L::Opaque("Any".into()) {
                *t = L::Any;
            }
            Ok(())
        }
        L::Path(p, args) => {
            for a in args.iter_mut() {
                resolve(a, names)?;
            }
            let mut it = std::mem::take(args).into_iter();
            let p = p.clone();
            if names.contains(&p) {
                if it.len() > 0 {
                    return Err(format!("type {} takes no parameters", p));
                }
                *t = L::Ref(p);
                return Ok(());
            }
            *t = match (p.as_str(), it.len()) {
                ("Boolean", 0) => L::Bool,
                ("Long", 0) => L::Int,
                ("Double", 0) => L::Float,
                ("String", 0) => L::Str,
                ("List", 1) => L::Seq(Box::new(it.next().unwrap())),
                ("Pair", 2) | ("Triple", 3) => L::Tup(it.collect()),
                ("Map", 2) => {
                    if it.next() != Some(L::Str) {
                        return Err("map key is not String".into());
                    }
                    let v = it.next().unwrap();
                    L::Map(Box::new(if v == L::Opaque("Any".into()) { L::Any } else { v }))
                }
                (_, 0) => L::Opaque(p),
                (_, n) => return Err(format!("unknown type {} with {} parameters", p, n)),
            };
            Ok(())
        }
        _ => Ok(()),
    }
}
