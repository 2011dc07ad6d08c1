//! Reader for generated Python.
use super::*;
use crate::tok::*;

#[rustfmt::skip]
pub const KEYWORDS: &[&str] = &[
    "False","None","True","and","as","assert","async","await","break","class","continue","def","del","elif","else",
    "except","finally","for","from","global","if","import","in","is","lambda","nonlocal","not","or","pass","raise",
    "return","try","while","with","yield",
];

/// Attributes of pydantic's BaseModel: an error or no field at all in version 2, an error in version 1.
#[rustfmt::skip]
pub const BASE_MODEL: &[&str] = &[
    "model_config","model_fields","model_computed_fields","model_extra","model_fields_set","model_construct","model_copy","model_dump",
    "model_dump_json","model_json_schema","model_parametrized_name","model_post_init","model_rebuild","model_validate",
    "model_validate_json","model_validate_strings",
    "construct","copy","dict","from_orm","json","parse_file","parse_obj","parse_raw","schema","schema_json","update_forward_refs","validate",
];

pub fn check_ident(s: &str) -> Result<(), String> {
    let b = s.as_bytes();
    if KEYWORDS.contains(&s)
        || b.is_empty()
        || b[0].is_ascii_digit()
        || !b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
    {
        return Err(format!("{:?} is not a Python identifier", s));
    }
    if s.starts_with("__") {
        return Err(format!("{:?} would be name-mangled", s));
    }
    Ok(())
}

fn path(c: &mut Cur) -> PResult<String> {
    let mut s = c.id()?;
    while c.eat('.') {
        s.push('.');
        s.push_str(&c.id()?);
    }
    Ok(s)
}

fn ty(c: &mut Cur) -> PResult<L> {
    if let Some(T::Str(_)) = c.peek() {
        // quoted forward reference
        let s = c.str()?;
        let mut d = Cur::new(&s, Lx::Python)?;
        let t = ty(&mut d)?;
        if !d.done() {
            return Err("malformed quoted annotation".into());
        }
        return Ok(L::Boxed(Box::new(t)));
    }
    let p = path(c)?;
    let mut args = vec![];
    if c.eat('[') {
        loop {
            args.push(ty(c)?);
            if !c.eat(',') {
                break;
            }
        }
        c.p(']')?;
    }
    Ok(L::Path(p, args))
}

const EXT: &[(&str, &str)] = &[
    ("Any", "typing.Any"),
    ("Optional", "typing.Optional"),
    ("BaseModel", "pydantic.BaseModel"),
    ("Field", "pydantic.Field"),
];
const BUILTINS: &[&str] = &["bool", "str", "int", "float", "list", "dict", "tuple"];

pub fn parse(code: &str, _name: &str, style: Style) -> Result<Module, String> {
    let mut c = Cur::new(code, Lx::Python)?;
    let mut m = Module::default();
    let mut used: HashSet<String> = HashSet::new();
    let mut modules: Vec<String> = vec![];
    c.t.insert(0, T::Nl(0));
    let mut defined: HashSet<String> = HashSet::new();
    // quoted references are resolved once the whole module is loaded
    let everything: HashSet<String> = c
        .t
        .windows(2)
        .filter_map(|w| match w {
            [T::Id(k), T::Id(n)] if k == "class" => Some(n.clone()),
            _ => None,
        })
        .collect();
    while !c.done() {
        match c.peek() {
            Some(T::Nl(0)) => c.i += 1,
            _ => return Err(c.err("expected statement at column 0")),
        }
        if c.eat_id("from") {
            let p = c.id()?;
            c.kw("import")?;
            let n = c.id()?;
            m.imports.push(format!("{}.{}", p, n));
            if !m.order.is_empty() {
                return Err("import after definitions".into());
            }
            continue;
        }
        if c.eat_id("import") {
            modules.push(path(&mut c)?);
            continue;
        }
        if !c.is_id("class") {
            let n = c.id()?;
            check_ident(&n)?;
            c.p('=')?;
            let mut t = ty(&mut c)?;
            let mut local = HashSet::new();
            resolve(&mut t, &mut Env { defined: &defined, bound: &mut local, imports: &m.imports, modules: &modules, style, used: &mut used, quoted: false, all: &everything })?;
            m.order.push(n.clone());
            defined.insert(n.clone());
            m.aliases.push((String::new(), n, t));
            continue;
        }
        c.kw("class")?;
        let mut d = Decl { name: c.id()?, ..Default::default() };
        check_ident(&d.name)?;
        c.p('(')?;
        let base = path(&mut c)?;
        c.p(')')?;
        c.p(':')?;
        let mut bound: HashSet<String> = HashSet::new();
        let mut bt = L::Path(base.clone(), vec![]);
        resolve(&mut bt, &mut Env { defined: &defined, bound: &mut bound, imports: &m.imports, modules: &modules, style, used: &mut used, quoted: false, all: &everything })?;
        if bt != L::Opaque("BaseModel".into()) {
            return Err(format!("base class {} is not pydantic's BaseModel", base));
        }
        let mut any = false;
        while let Some(T::Nl(n)) = c.peek() {
            if *n == 0 {
                break;
            }
            if *n != 4 {
                return Err("unexpected indentation".into());
            }
            c.i += 1;
            any = true;
            if c.eat_id("pass") {
                continue;
            }
            let id = c.id()?;
            check_ident(&id)?;
            if BASE_MODEL.contains(&&*id) {
                return Err(format!("{:?} is an attribute of BaseModel, which can not be a field", id));
            }
            if id.starts_with('_') {
                return Err(format!("{:?} would be a private attribute", id));
            }
            c.p(':')?;
            let mut t = ty(&mut c)?;
            resolve(&mut t, &mut Env { defined: &defined, bound: &mut bound, imports: &m.imports, modules: &modules, style, used: &mut used, quoted: false, all: &everything })?;
            let mut wire = id.clone();
            let mut explicit = false;
            if c.eat('=') {
                let f = path(&mut c)?;
                let mut ft = L::Path(f.clone(), vec![]);
                resolve(&mut ft, &mut Env { defined: &defined, bound: &mut bound, imports: &m.imports, modules: &modules, style, used: &mut used, quoted: false, all: &everything })?;
                if ft != L::Opaque("Field".into()) {
                    return Err(format!("{} is not pydantic's Field", f));
                }
                c.p('(')?;
                c.kw("alias")?;
                c.p('=')?;
                wire = c.str()?;
                explicit = true;
                c.p(')')?;
                bound.insert(id.clone());
            }
            d.members.push(Mem { ident: id, wire, explicit, quoted: false, opt: false, default: false, vis: String::new(), ty: t });
        }
        if !any {
            return Err("class without body".into());
        }
        if defined.contains(&d.name) {
            return Err(format!("class {} defined twice", d.name));
        }
        defined.insert(d.name.clone());
        m.order.push(d.name.clone());
        m.decls.push(d);
    }
    // every external used is imported exactly once, and no import is unused
    for i in &m.imports {
        if !used.contains(i) {
            return Err(format!("{} is imported but not used", i));
        }
    }
    for (k, md) in modules.iter().enumerate() {
        if modules[..k].contains(md) {
            return Err(format!("module {} imported twice", md));
        }
        if !used.iter().any(|u| u.starts_with(&format!("{}.", md))) {
            return Err(format!("module {} is imported but not used", md));
        }
    }
    if style == Style::Assume && !(m.imports.is_empty() && modules.is_empty()) {
        return Err("import lines under a style without imports".into());
    }
    if style == Style::Add && !modules.is_empty() || style == Style::Qualified && !m.imports.is_empty() {
        return Err("wrong kind of import for this style".into());
    }
    let mut e: Vec<String> = used.into_iter().collect();
    e.sort();
    m.externals = e;
    Ok(m)
}

struct Env<'a> {
    /// module-level names defined so far (executed top to bottom)
    defined: &'a HashSet<String>,
    /// names bound in the class body so far
    bound: &'a mut HashSet<String>,
    imports: &'a [String],
    modules: &'a [String],
    style: Style,
    used: &'a mut HashSet<String>,
    quoted: bool,
    all: &'a HashSet<String>,
}

fn resolve(t: &mut L, e: &mut Env) -> PResult<()> {
    match t {
        L::Boxed(x) => {
            let q = e.quoted;
            e.quoted = true;
            resolve(x, e)?;
            e.quoted = q;
            *t = (**x).clone();
            Ok(())
        }
        L::Path(p, args) => {
            for a in args.iter_mut() {
                resolve(a, e)?;
            }
            let p = p.clone();
            let head = p.split('.').next().unwrap().to_string();
            if e.bound.contains(&head) {
                return Err(format!("{} is hidden by a member of the class", head));
            }
            let args = std::mem::take(args);
            if e.defined.contains(&p) || (e.quoted && e.all.contains(&p)) {
                if !args.is_empty() {
                    return Err(format!("{} takes no parameters", p));
                }
                *t = L::Ref(p);
                return Ok(());
            }
            if e.all.contains(&p) {
                return Err(format!("{} is used before it is defined", p));
            }
            let mut n = p.clone();
            if let Some((s, q)) = EXT.iter().find(|(s, q)| *s == p || *q == p) {
                let ok = match e.style {
                    Style::Add => p == *s && e.imports.iter().any(|i| i == q),
                    Style::Assume => p == *s,
                    Style::Qualified => {
                        p == *q && e.modules.iter().any(|m| q.starts_with(&format!("{}.", m))) && !e.defined.contains(&head)
                    }
                };
                if !ok {
                    return Err(format!("{} is not resolvable under this import style", p));
                }
                e.used.insert(q.to_string());
                n = s.to_string();
            } else if !BUILTINS.contains(&p.as_str()) {
                if !args.is_empty() {
                    return Err(format!("unknown generic {}", p));
                }
                *t = L::Opaque(p);
                return Ok(());
            }
            let k = args.len();
            let mut it = args.into_iter();
            *t = match (n.as_str(), k) {
                ("bool", 0) => L::Bool,
                ("str", 0) => L::Str,
                ("int", 0) => L::Int,
                ("float", 0) => L::Float,
                ("Any", 0) => L::Any,
                ("BaseModel" | "Field", 0) => L::Opaque(n),
                ("list", 1) => L::Seq(Box::new(it.next().unwrap())),
                ("Optional", 1) => L::Opt(Box::new(it.next().unwrap())),
                ("tuple", k) if k > 0 => L::Tup(it.collect()),
                ("dict", 2) => {
                    if it.next() != Some(L::Str) {
                        return Err("dict key is not str".into());
                    }
                    L::Map(Box::new(it.next().unwrap()))
                }
                _ => return Err(format!("misused builtin {}", n)),
            };
            Ok(())
        }
        _ => Ok(()),
    }
}
