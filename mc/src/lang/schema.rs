//! Reader for a generated JSON Schema (draft 7).
use super::*;
use crate::json::{Ref, Val};

pub fn parse(code: &str, _name: &str) -> Result<Module, String> {
    let v = match crate::json::parse(code.as_bytes()) {
        Ref::Ok(v) => v,
        Ref::Bad(e) | Ref::DontCare(e) => return Err(format!("output is not JSON: {}", e)),
    };
    let Val::Obj(f) = &v else { return Err("schema is not an object".into()) };
    match f.iter().find(|x| x.0 == "$schema") {
        Some((_, Val::Str(s))) if s.contains("draft-07") => {}
        _ => return Err("no draft-07 $schema".into()),
    }
    let rest: Vec<(String, Val)> = f.iter().filter(|x| x.0 != "$schema" && x.0 != "title").cloned().collect();
    let mut m = Module::default();
    m.root = Some(ty(&Val::Obj(rest))?);
    Ok(m)
}

fn ty(v: &Val) -> Result<L, String> {
    let Val::Obj(f) = v else { return Err("schema is not an object".into()) };
    let get = |k: &str| f.iter().find(|x| x.0 == k).map(|x| &x.1);
    let only = |ks: &[&str]| -> Result<(), String> {
        match f.iter().find(|x| !ks.contains(&x.0.as_str())) {
            Some((k, _)) => Err(format!("unexpected schema keyword {:?}", k)),
            None => Ok(()),
        }
    };
    if f.is_empty() {
        return Ok(L::Any);
    }
    if let Some(Val::Arr(alts)) = get("anyOf") {
        only(&["anyOf"])?;
        let mut null = false;
        let mut rest = vec![];
        for a in alts {
            if *a == Val::Obj(vec![("type".into(), Val::Str("null".into()))]) {
                null = true;
            } else {
                rest.push(a);
            }
        }
        if !null || rest.len() != 1 {
            return Err("anyOf is not T-or-null".into());
        }
        return Ok(L::Nullable(Box::new(ty(rest[0])?)));
    }
    let (name, null) = match get("type") {
        Some(Val::Str(s)) => (s.as_str(), false),
        Some(Val::Arr(a)) => {
            let ts: Vec<&str> = a.iter().map(|x| if let Val::Str(s) = x { s.as_str() } else { "" }).collect();
            let rest: Vec<&str> = ts.iter().copied().filter(|t| *t != "null").collect();
            if ts.len() != 2 || rest.len() != 1 {
                return Err("type list is not T-or-null".into());
            }
            (rest[0], true)
        }
        _ => return Err("schema without type".into()),
    };
    let t = match name {
        "boolean" => {
            only(&["type"])?;
            L::Bool
        }
        "string" => {
            only(&["type"])?;
            L::Str
        }
        "number" => {
            only(&["type"])?;
            L::Num
        }
        "array" => {
            only(&["type", "items", "additionalItems", "minItems"])?;
            match get("items") {
                Some(Val::Arr(xs)) => {
                    if get("additionalItems") != Some(&Val::Bool(false)) {
                        return Err("tuple without additionalItems: false".into());
                    }
                    L::Tup(xs.iter().map(ty).collect::<Result<_, _>>()?)
                }
                Some(x) => L::Seq(Box::new(ty(x)?)),
                None => return Err("array without items".into()),
            }
        }
        "object" => {
            if let Some(a) = get("additionalProperties") {
                only(&["type", "additionalProperties"])?;
                L::Map(Box::new(ty(a)?))
            } else {
                only(&["type", "properties", "required"])?;
                let Some(Val::Obj(ps)) = get("properties") else { return Err("object without properties".into()) };
                let req: Vec<&str> = match get("required") {
                    Some(Val::Arr(r)) => {
                        r.iter().map(|x| if let Val::Str(s) = x { s.as_str() } else { "\u{0}?" }).collect()
                    }
                    None => vec![],
                    _ => return Err("required is not a list".into()),
                };
                for (i, r) in req.iter().enumerate() {
                    if !ps.iter().any(|p| p.0 == *r) {
                        return Err(format!("required names unknown property {:?}", r));
                    }
                    if req[..i].contains(r) {
                        return Err("duplicate in required".into());
                    }
                }
                let mut ms = vec![];
                for (k, s) in ps {
                    ms.push(Mem {
                        ident: k.clone(),
                        wire: k.clone(),
                        explicit: false,
                        quoted: true,
                        opt: !req.contains(&k.as_str()),
                        default: false,
                        vis: String::new(),
                        ty: ty(s)?,
                    });
                }
                L::Obj(ms)
            }
        }
        n => {
            only(&["type"])?;
            L::Opaque(n.to_string())
        }
    };
    Ok(if null { L::Nullable(Box::new(t)) } else { t })
}
