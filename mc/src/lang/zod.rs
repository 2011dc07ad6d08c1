//! Reader for a generated zod module.
use super::*;
use crate::tok::*;

pub fn parse(code: &str, _name: &str) -> Result<Module, String> {
    let mut c = Cur::new(code, Lx::Js)?;
    c.kw("export")?;
    c.kw("const")?;
    let n = c.id()?;
    c.p('=')?;
    let t = ty(&mut c)?;
    c.p(';')?;
    if !c.done() {
        return Err(c.err("trailing tokens"));
    }
    let mut m = Module::default();
    m.order.push(n);
    m.root = Some(t);
    Ok(m)
}

fn ty(c: &mut Cur) -> PResult<L> {
    let n = c.id()?;
    let mut t = if n == "z" && c.is_p('.') {
        c.p('.')?;
        let f = c.id()?;
        c.p('(')?;
        let t = match f.as_str() {
            "unknown" => L::Any,
            "boolean" => L::Bool,
            "string" => L::Str,
            "number" => L::Num,
            "tuple" => {
                c.p('[')?;
                let mut v = vec![];
                while !c.eat(']') {
                    v.push(ty(c)?);
                    if !c.eat(',') {
                        c.p(']')?;
                        break;
                    }
                }
                L::Tup(v)
            }
            "record" => {
                if ty(c)? != L::Str {
                    return Err("record key is not z.string()".into());
                }
                c.p(',')?;
                L::Map(Box::new(ty(c)?))
            }
            "object" => {
                c.p('{')?;
                let mut v = vec![];
                while !c.eat('}') {
                    let mut quoted = matches!(c.peek(), Some(T::Str(_)));
                    let computed = c.eat('[');
                    quoted |= computed;
                    let key = if quoted { c.str()? } else { c.id()? };
                    if computed {
                        c.p(']')?;
                    } else if key == "__proto__" {
                        return Err("__proto__: sets the prototype instead of defining a member".into());
                    }
                    c.p(':')?;
                    let mut t = ty(c)?;
                    let mut opt = false;
                    if let L::Undef(x) = t {
                        t = *x;
                        opt = true;
                    }
                    v.push(Mem {
                        ident: key.clone(),
                        wire: key,
                        explicit: false,
                        quoted,
                        opt,
                        default: false,
                        vis: String::new(),
                        ty: t,
                    });
                    if !c.eat(',') {
                        c.p('}')?;
                        break;
                    }
                }
                L::Obj(v)
            }
            f => return Err(format!("unknown zod constructor {}", f)),
        };
        c.p(')')?;
        t
    } else {
        L::Opaque(n)
    };
    while c.is_p('.') {
        c.p('.')?;
        let f = c.id()?;
        c.ps("()")?;
        t = match f.as_str() {
            "optional" => L::Undef(Box::new(t)),
            "nullable" => L::Nullable(Box::new(t)),
            "array" => L::Seq(Box::new(t)),
            f => return Err(format!("unknown zod method {}", f)),
        };
    }
    Ok(t)
}
