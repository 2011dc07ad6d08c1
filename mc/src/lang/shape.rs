//! Reader for the shape output mode.
use super::*;
use crate::json::{Ref, Val};

pub fn parse(code: &str) -> Result<Module, String> {
    let v = match crate::json::parse(code.as_bytes()) {
        Ref::Ok(v) => v,
        Ref::Bad(e) | Ref::DontCare(e) => return Err(format!("output is not JSON: {}", e)),
    };
    let mut m = Module::default();
    m.root = Some(ty(&v)?);
    Ok(m)
}

fn ty(v: &Val) -> Result<L, String> {
    Ok(match v {
        Val::Null => L::NullLit,
        Val::Str(s) => match s.as_str() {
            "any" => L::Any,
            "bottom" => L::Bottom,
            "bool" => L::Bool,
            "string" => L::Str,
            "integer" => L::Int,
            "floating" => L::Float,
            s => L::Opaque(s.to_string()),
        },
        Val::Arr(a) if a.len() == 1 => L::Seq(Box::new(ty(&a[0])?)),
        Val::Obj(f) => {
            let get = |k: &str| f.iter().find(|x| x.0 == k).map(|x| &x.1);
            let special = match get("__type__") {
                Some(Val::Str(t)) if f.len() == 2 => match (t.as_str(), get("item"), get("values"), get("items")) {
                    ("optional", Some(i), _, _) => Some(L::Undef(Box::new(ty(i)?))),
                    ("nullable", Some(i), _, _) => Some(L::Nullable(Box::new(ty(i)?))),
                    ("map", _, Some(i), _) => Some(L::Map(Box::new(ty(i)?))),
                    ("tuple", _, _, Some(Val::Arr(xs))) => Some(L::Tup(xs.iter().map(ty).collect::<Result<_, _>>()?)),
                    _ => None,
                },
                _ => None,
            };
            match special {
                Some(t) => t,
                None => {
                    let mut ms = vec![];
                    for (k, t) in f {
                        // whether a final `?` marks an optional member is up to the matcher
                        let opt = k.ends_with('?');
                        ms.push(Mem {
                            ident: k.clone(),
                            wire: k.clone(),
                            explicit: false,
                            quoted: true,
                            opt,
                            default: false,
                            vis: String::new(),
                            ty: ty(t)?,
                        });
                    }
                    L::Obj(ms)
                }
            }
        }
        _ => return Err("unexpected JSON in shape output".into()),
    })
}
