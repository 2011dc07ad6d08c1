//! Reader for generated Rust.
use super::*;
use crate::tok::*;

#[rustfmt::skip]
pub const KEYWORDS: &[&str] = &[
    "as","break","const","continue","crate","else","enum","extern","false","fn","for","if","impl","in","let",
    "loop","match","mod","move","mut","pub","ref","return","self","Self","static","struct","super","trait",
    "true","type","unsafe","use","where","while","async","await","dyn","gen",
    "abstract","become","box","do","final","macro","override","priv","typeof","unsized","virtual","yield","try",
];

pub fn check_ident(s: &str) -> Result<(), String> {
    if s == "_" || KEYWORDS.contains(&s) {
        return Err(format!("{:?} is not usable as an identifier", s));
    }
    let b = s.as_bytes();
    if b.is_empty() || b[0].is_ascii_digit() || !b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
        return Err(format!("{:?} is not an identifier", s));
    }
    Ok(())
}

fn path(c: &mut Cur) -> PResult<String> {
    let mut s = String::new();
    if c.is_p(':') {
        c.ps("::")?;
        s.push_str("::");
    }
    s.push_str(&c.id()?);
    while c.is_p(':') && c.at(1) == Some(&T::P(':')) {
        c.ps("::")?;
        s.push_str("::");
        s.push_str(&c.id()?);
    }
    Ok(s)
}

fn ty(c: &mut Cur) -> PResult<L> {
    if c.eat('(') {
        let mut v = vec![];
        while !c.eat(')') {
            v.push(ty(c)?);
            if !c.eat(',') {
                c.p(')')?;
                break;
            }
        }
        if v.len() == 1 {
            return Err("parenthesised type or 1-tuple".into());
        }
        return Ok(L::Tup(v));
    }
    let p = path(c)?;
    let mut args = vec![];
    if c.eat('<') {
        loop {
            args.push(ty(c)?);
            if !c.eat(',') {
                break;
            }
        }
        c.p('>')?;
    }
    Ok(L::Path(p, args))
}

fn vis(c: &mut Cur) -> PResult<String> {
    if !c.eat_id("pub") {
        return Ok(String::new());
    }
    let mut s = "pub".to_string();
    if c.eat('(') {
        s.push('(');
        if c.eat_id("in") {
            s.push_str("in ");
        }
        s.push_str(&path(c)?);
        c.p(')')?;
        s.push(')');
    }
    Ok(s)
}

/// `#[name(...)]` as (name, list of (path, optional string value))
fn attr(c: &mut Cur) -> PResult<(String, Vec<(String, Option<String>)>)> {
    c.p('#')?;
    c.p('[')?;
    let n = c.id()?;
    let mut v = vec![];
    c.p('(')?;
    while !c.eat(')') {
        let k = path(c)?;
        let val = if c.eat('=') { Some(c.str()?) } else { None };
        v.push((k, val));
        if !c.eat(',') {
            c.p(')')?;
            break;
        }
    }
    c.p(']')?;
    Ok((n, v))
}

/// serde's rename_all for fields, from its documentation.
pub fn rename_all(rule: &str, field: &str) -> PResult<String> {
    let pascal = |f: &str| -> String {
        f.split('_')
            .map(|w| {
                let mut c = w.chars();
                match c.next() {
                    None => String::new(),
                    Some(x) => x.to_ascii_uppercase().to_string() + c.as_str(),
                }
            })
            .collect()
    };
    Ok(match rule {
        "lowercase" | "snake_case" => field.to_string(),
        "UPPERCASE" | "SCREAMING_SNAKE_CASE" => field.to_ascii_uppercase(),
        "PascalCase" => pascal(field),
        "camelCase" => {
            let p = pascal(field);
            let mut c = p.chars();
            match c.next() {
                None => String::new(),
                Some(x) => x.to_ascii_lowercase().to_string() + c.as_str(),
            }
        }
        "kebab-case" => field.replace('_', "-"),
        "SCREAMING-KEBAB-CASE" => field.to_ascii_uppercase().replace('_', "-"),
        r => return Err(format!("unknown rename_all rule {}", r)),
    })
}

pub fn parse(code: &str, _name: &str, style: Style) -> Result<Module, String> {
    let mut c = Cur::new(code, Lx::Rust)?;
    let mut m = Module::default();
    while !c.done() {
        if c.eat_id("use") {
            if !m.order.is_empty() {
                return Err("use after items".into());
            }
            m.imports.push(path(&mut c)?);
            c.p(';')?;
            continue;
        }
        let mut d = Decl::default();
        let mut rule = None;
        while c.is_p('#') {
            let (n, v) = attr(&mut c)?;
            match n.as_str() {
                "derive" => d.derives.extend(v.into_iter().map(|x| x.0)),
                "serde" => {
                    for (k, val) in v {
                        if k == "rename_all" {
                            rule = val.clone();
                        }
                        d.attrs.push(match val {
                            Some(x) => format!("{}={}", k, x),
                            None => k,
                        });
                    }
                }
                n => return Err(format!("unexpected attribute {}", n)),
            }
        }
        d.vis = vis(&mut c)?;
        if c.eat_id("type") {
            let n = c.id()?;
            c.p('=')?;
            let t = ty(&mut c)?;
            c.p(';')?;
            m.order.push(n.clone());
            m.aliases.push((d.vis, n, t));
            continue;
        }
        c.kw("struct")?;
        d.name = c.id()?;
        check_ident(&d.name)?;
        c.p('{')?;
        while !c.eat('}') {
            let mut rename = None;
            let mut default = false;
            let mut flatten = false;
            while c.is_p('#') {
                let (n, v) = attr(&mut c)?;
                if n != "serde" {
                    return Err(format!("unexpected field attribute {}", n));
                }
                for (k, val) in v {
                    match (k.as_str(), val) {
                        ("rename", Some(s)) => rename = Some(s),
                        ("default", None) => default = true,
                        ("flatten", None) => flatten = true,
                        (k, _) => return Err(format!("unexpected serde attribute {}", k)),
                    }
                }
            }
            let v = vis(&mut c)?;
            let id = c.id()?;
            check_ident(&id)?;
            c.p(':')?;
            let t = ty(&mut c)?;
            c.p(',')?;
            if flatten {
                if d.extra.is_some() {
                    return Err("two flattened members".into());
                }
                d.extra = Some((id, t));
                continue;
            }
            let explicit = rename.is_some();
            let wire = match rename {
                Some(r) => r,
                None => match &rule {
                    Some(r) => rename_all(r, &id)?,
                    None => id.clone(),
                },
            };
            d.members.push(Mem { ident: id, wire, explicit, quoted: false, opt: false, default, vis: v, ty: t });
        }
        m.order.push(d.name.clone());
        m.decls.push(d);
    }
    resolve_module(&mut m, style)?;
    finite(&m)?;
    Ok(m)
}

/// No struct contains itself without indirection.
fn finite(m: &Module) -> Result<(), String> {
    let by: HashMap<&str, &Decl> = m.decls.iter().map(|d| (d.name.as_str(), d)).collect();
    fn inline<'a>(t: &'a L, out: &mut Vec<&'a str>) {
        match t {
            L::Ref(n) => out.push(n),
            L::Opt(x) => inline(x, out),
            L::Tup(v) => v.iter().for_each(|x| inline(x, out)),
            _ => {}
        }
    }
    // 0 unseen, 1 open, 2 done
    fn visit<'a>(n: &'a str, by: &HashMap<&'a str, &'a Decl>, st: &mut HashMap<&'a str, u8>) -> Result<(), String> {
        match st.get(n) {
            Some(1) => return Err(format!("struct {} has infinite size", n)),
            Some(_) => return Ok(()),
            None => {}
        }
        st.insert(n, 1);
        if let Some(d) = by.get(n) {
            let mut v = vec![];
            for x in &d.members {
                inline(&x.ty, &mut v);
            }
            for k in v {
                visit(k, by, st)?;
            }
        }
        st.insert(n, 2);
        Ok(())
    }
    let mut st = HashMap::new();
    for d in &m.decls {
        visit(&d.name, &by, &mut st)?;
    }
    Ok(())
}

const EXTERNAL: &[(&str, &str)] = &[("HashMap", "std::collections::HashMap"), ("Value", "serde_json::Value")];
const PRELUDE: &[&str] = &["String", "Vec", "Option", "Box", "bool", "i64", "f64"];

fn resolve_module(m: &mut Module, style: Style) -> Result<(), String> {
    let names: HashSet<String> =
        m.decls.iter().map(|d| d.name.clone()).chain(m.aliases.iter().map(|a| a.1.clone())).collect();
    for i in &m.imports {
        let last = i.rsplit("::").next().unwrap();
        // derive macros live in another namespace than types
        let is_macro = i.starts_with("serde_derive::");
        if names.contains(last) && !is_macro {
            return Err(format!("{} is both imported and declared", last));
        }
        for j in &m.imports {
            if i != j && j.rsplit("::").next().unwrap() == last {
                return Err(format!("{} imported from two places", last));
            }
        }
    }
    if style != Style::Add && !m.imports.is_empty() {
        return Err("import lines under a style without imports".into());
    }
    let mut used: HashSet<String> = HashSet::new();
    let imports = m.imports.clone();
    let mut fix = |t: &mut L| resolve(t, &names, &imports, style, &mut used);
    for d in &mut m.decls {
        for x in &mut d.members {
            fix(&mut x.ty)?;
        }
        if let Some((_, t)) = &mut d.extra {
            fix(t)?;
        }
    }
    for a in &mut m.aliases {
        fix(&mut a.2)?;
    }
    for d in &m.decls {
        for p in &d.derives {
            if imports.iter().any(|i| i.rsplit("::").next().unwrap() == p) {
                used.insert(imports.iter().find(|i| i.rsplit("::").next().unwrap() == p).unwrap().clone());
            } else if style == Style::Add && p.contains("::") {
                return Err(format!("derive path {} written out under added imports", p));
            }
        }
    }
    if style == Style::Add && !m.decls.is_empty() {
        for i in &m.imports {
            if !used.contains(i) {
                return Err(format!("{} is imported but not used", i));
            }
        }
    }
    let mut e: Vec<String> = used.into_iter().collect();
    e.sort();
    m.externals = e;
    Ok(())
}

fn resolve(
    t: &mut L,
    names: &HashSet<String>,
    imports: &[String],
    style: Style,
    used: &mut HashSet<String>,
) -> Result<(), String> {
    match t {
        L::Tup(v) => {
            for x in v {
                resolve(x, names, imports, style, used)?;
            }
            Ok(())
        }
        L::Path(p, args) => {
            for a in args.iter_mut() {
                resolve(a, names, imports, style, used)?;
            }
            let mut p = p.clone();
            if names.contains(&p) {
                if !args.is_empty() {
                    return Err(format!("type {} takes no parameters", p));
                }
                *t = L::Ref(p);
                return Ok(());
            }
            if !PRELUDE.contains(&p.as_str()) {
                let ext = EXTERNAL.iter().find(|(s, q)| *s == p || *q == p);
                if let Some((s, q)) = ext {
                    let ok = match style {
                        Style::Add => p == *s && imports.iter().any(|i| i == q),
                        Style::Assume => p == *s,
                        Style::Qualified => p == *q,
                    };
                    if !ok {
                        return Err(format!("{} is not resolvable under this import style", p));
                    }
                    used.insert(q.to_string());
                    p = s.to_string();
                }
            }
            let mut it = std::mem::take(args).into_iter();
            *t = match (p.as_str(), it.len()) {
                ("bool", 0) => L::Bool,
                ("i64", 0) => L::Int,
                ("f64", 0) => L::Float,
                ("String", 0) => L::Str,
                ("Value", 0) => L::Any,
                ("Vec", 1) => L::Seq(Box::new(it.next().unwrap())),
                ("Option", 1) => L::Opt(Box::new(it.next().unwrap())),
                ("Box", 1) => L::Boxed(Box::new(it.next().unwrap())),
                ("HashMap", 2) => {
                    if it.next() != Some(L::Str) {
                        return Err("map key is not String".into());
                    }
                    L::Map(Box::new(it.next().unwrap()))
                }
                (_, 0) => L::Opaque(p),
                (_, n) => return Err(format!("unknown type {} with {} parameters", p, n)),
            };
            Ok(())
        }
        _ => Ok(()),
    }
}
