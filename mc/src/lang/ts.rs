//! Reader for generated TypeScript (interfaces or one alias).
use super::*;
use crate::tok::*;

pub fn parse(code: &str, name: &str, alias_only: bool) -> Result<Module, String> {
    let mut c = Cur::new(code, Lx::Js)?;
    let mut m = Module::default();
    while !c.done() {
        c.kw("export")?;
        if c.eat_id("type") {
            let n = c.id()?;
            check_type_name(&n)?;
            c.p('=')?;
            let t = ty(&mut c)?;
            c.p(';')?;
            m.order.push(n.clone());
            m.aliases.push((String::new(), n, t));
        } else {
            c.kw("interface")?;
            let n = c.id()?;
            check_type_name(&n)?;
            let members = body(&mut c)?;
            m.order.push(n.clone());
            m.decls.push(Decl { name: n, members, ..Default::default() });
        }
    }
    if alias_only && !(m.decls.is_empty() && m.aliases.len() == 1 && m.aliases[0].1 == name) {
        return Err("expected exactly one type alias with the requested name".into());
    }
    let names: HashSet<String> =
        m.decls.iter().map(|d| d.name.clone()).chain(m.aliases.iter().map(|a| a.1.clone())).collect();
    for d in &mut m.decls {
        for x in &mut d.members {
            resolve(&mut x.ty, &names)?;
        }
    }
    for a in &mut m.aliases {
        resolve(&mut a.2, &names)?;
    }
    Ok(m)
}

#[rustfmt::skip]
const RESERVED: &[&str] = &["any","unknown","never","number","bigint","boolean","string","symbol","void","object","undefined","null",
    "break","case","catch","class","const","continue","debugger","default","delete","do","else","enum","export","extends","false",
    "finally","for","function","if","import","in","instanceof","new","return","super","switch","this","throw","true","try",
    "typeof","var","while","with"];

fn check_type_name(n: &str) -> PResult<()> {
    if RESERVED.contains(&n) {
        return Err(format!("{} cannot name a type", n));
    }
    Ok(())
}

fn body(c: &mut Cur) -> PResult<Vec<Mem>> {
    c.p('{')?;
    let mut v = vec![];
    while !c.eat('}') {
        let quoted = matches!(c.peek(), Some(T::Str(_)));
        let key = if quoted { c.str()? } else { c.id()? };
        let opt = c.eat('?');
        c.p(':')?;
        let t = ty(c)?;
        c.p(';')?;
        v.push(Mem {
            ident: key.clone(),
            wire: key,
            explicit: false,
            quoted,
            opt,
            default: false,
            vis: String::new(),
            ty: t,
        });
    }
    Ok(v)
}

/// union := postfix ('|' postfix)*
fn ty(c: &mut Cur) -> PResult<L> {
    let mut arms = vec![postfix(c)?];
    while c.eat('|') {
        arms.push(postfix(c)?);
    }
    let null = L::Path("null".into(), vec![]);
    let undef = L::Path("undefined".into(), vec![]);
    let is_null = arms.contains(&null);
    let is_undef = arms.contains(&undef);
    arms.retain(|a| *a != null && *a != undef);
    if arms.len() != 1 {
        return Err(format!("union of {} types", arms.len()));
    }
    let mut t = arms.pop().unwrap();
    if is_null {
        t = L::Nullable(Box::new(t));
    }
    if is_undef {
        t = L::Undef(Box::new(t));
    }
    Ok(t)
}

fn postfix(c: &mut Cur) -> PResult<L> {
    let mut t = primary(c)?;
    while c.is_p('[') && c.at(1) == Some(&T::P(']')) {
        c.ps("[]")?;
        t = L::Seq(Box::new(t));
    }
    Ok(t)
}

fn primary(c: &mut Cur) -> PResult<L> {
    if c.eat('(') {
        let t = ty(c)?;
        c.p(')')?;
        return Ok(t);
    }
    if c.eat('[') {
        let mut v = vec![];
        while !c.eat(']') {
            v.push(ty(c)?);
            if !c.eat(',') {
                c.p(']')?;
                break;
            }
        }
        return Ok(L::Tup(v));
    }
    if c.is_p('{') {
        // index signature?
        if c.at(1) == Some(&T::P('[')) {
            c.ps("{[")?;
            c.id()?;
            c.p(':')?;
            c.kw("string")?;
            c.p(']')?;
            c.p(':')?;
            let t = ty(c)?;
            c.eat(';');
            c.p('}')?;
            return Ok(L::Map(Box::new(t)));
        }
        return Ok(L::Obj(body(c)?));
    }
    let n = c.id()?;
    let mut args = vec![];
    if c.eat('<') {
        loop {
            args.push(ty(c)?);
            if !c.eat(',') {
                break;
            }
        }
        c.p('>')?;
    }
    Ok(L::Path(n, args))
}

fn resolve(t: &mut L, names: &HashSet<String>) -> PResult<()> {
    match t {
        L::Tup(v) => v.iter_mut().try_for_each(|x| resolve(x, names)),
        L::Seq(x) | L::Map(x) | L::Nullable(x) | L::Undef(x) => resolve(x, names),
        L::Obj(ms) => ms.iter_mut().try_for_each(|m| resolve(&mut m.ty, names)),
        L::Path(p, args) => {
            for a in args.iter_mut() {
                resolve(a, names)?;
            }
            let mut it = std::mem::take(args).into_iter();
            let p = p.clone();
            *t = match (p.as_str(), it.len()) {
                // keywords always win
                ("any" | "unknown", 0) => L::Any,
                ("boolean", 0) => L::Bool,
                ("number", 0) => L::Num,
                ("string", 0) => L::Str,
                _ if names.contains(&p) => {
                    if it.len() > 0 {
                        return Err(format!("type {} takes no parameters", p));
                    }
                    L::Ref(p)
                }
                ("Array", 1) => L::Seq(Box::new(it.next().unwrap())),
                ("Record", 2) => {
                    if it.next() != Some(L::Str) {
                        return Err("record key is not string".into());
                    }
                    L::Map(Box::new(it.next().unwrap()))
                }
                (_, 0) => L::Opaque(p),
                _ => return Err(format!("unknown generic type {}", p)),
            };
            Ok(())
        }
        _ => Ok(()),
    }
}
