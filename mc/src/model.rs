//! Reference inference, stated on sets of observed values rather than as a fold over shapes:
//! the type of a position is determined by the multiset of values (and absences) seen there.
use crate::json::Val;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Fld {
    pub key: String,
    pub opt: bool,
    pub ty: R,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum R {
    Bottom,
    Any,
    Null,
    Bool,
    Int,
    Float,
    Str,
    Vec(Box<R>),
    Tuple(Vec<R>),
    Struct(Vec<Fld>),
    Map(Box<R>),
    Opaque(String),
    Nullable(Box<R>),
}

pub fn is_float_lexeme(n: &str) -> bool {
    n.contains(['.', 'e', 'E'])
}

/// Join of all the values observed at one position.
pub fn join(vals: &[&Val]) -> R {
    if vals.is_empty() {
        return R::Bottom;
    }
    let mut null = false;
    let mut rest: Vec<&Val> = Vec::with_capacity(vals.len());
    for v in vals {
        if matches!(v, Val::Null) {
            null = true
        } else {
            rest.push(v)
        }
    }
    if rest.is_empty() {
        return R::Null;
    }
    let base = join_non_null(&rest);
    if null && !matches!(base, R::Any) {
        R::Nullable(Box::new(base))
    } else {
        base
    }
}

fn join_non_null(rest: &[&Val]) -> R {
    for v in rest {
        if let Val::Opq(t) = v {
            return R::Opaque(t.clone());
        }
    }
    fn kind(v: &Val) -> u8 {
        match v {
            Val::Bool(_) => 0,
            Val::Num(_) => 1,
            Val::Str(_) => 2,
            Val::Arr(_) => 3,
            Val::Obj(_) => 4,
            Val::MapObj(_) => 5,
            Val::Null | Val::Opq(_) => 6,
        }
    }
    let k = kind(rest[0]);
    if rest.iter().any(|v| kind(v) != k) {
        return R::Any;
    }
    match k {
        0 => R::Bool,
        1 => {
            if rest.iter().any(|v| matches!(v, Val::Num(n) if is_float_lexeme(n))) {
                R::Float
            } else {
                R::Int
            }
        }
        2 => R::Str,
        3 => {
            let arrs: Vec<&Vec<Val>> =
                rest.iter().map(|v| if let Val::Arr(a) = v { a } else { unreachable!() }).collect();
            let all: Vec<&Val> = arrs.iter().flat_map(|a| a.iter()).collect();
            let elem = join(&all);
            let n = arrs[0].len();
            // A list whose elements have nothing in common, and that always has the same small
            // length, is a tuple; every other list is a homogeneous vector.
            if elem == R::Any && (2..=12).contains(&n) && arrs.iter().all(|a| a.len() == n) {
                let pos: Vec<R> = (0..n)
                    .map(|i| join(&arrs.iter().map(|a| &a[i]).collect::<Vec<_>>()))
                    .collect();
                if pos.iter().any(|p| *p != R::Any) {
                    return R::Tuple(pos);
                }
            }
            R::Vec(Box::new(elem))
        }
        4 => {
            let objs: Vec<&Vec<(String, Val)>> =
                rest.iter().map(|v| if let Val::Obj(a) = v { a } else { unreachable!() }).collect();
            let mut order: Vec<&String> = vec![];
            let mut by: std::collections::HashMap<&String, Vec<&Val>> = Default::default();
            for o in &objs {
                for (k, v) in o.iter() {
                    let e = by.entry(k).or_insert_with(|| {
                        order.push(k);
                        vec![]
                    });
                    e.push(v);
                }
            }
            R::Struct(
                order
                    .into_iter()
                    .map(|k| {
                        let vs = &by[k];
                        Fld { key: k.clone(), opt: vs.len() < objs.len(), ty: join(vs) }
                    })
                    .collect(),
            )
        }
        5 => {
            let all: Vec<&Val> = rest
                .iter()
                .flat_map(|v| if let Val::MapObj(a) = v { a.iter().map(|(_, v)| v) } else { unreachable!() })
                .collect();
            R::Map(Box::new(join(&all)))
        }
        _ => unreachable!(),
    }
}

pub fn infer(v: &Val) -> R {
    join(&[v])
}

/// Objects with more than `lim` members are maps.
pub fn mark_threshold(v: &Val, lim: usize) -> Val {
    match v {
        Val::Arr(a) => Val::Arr(a.iter().map(|x| mark_threshold(x, lim)).collect()),
        Val::Obj(f) | Val::MapObj(f) => {
            let g: Vec<_> = f.iter().map(|(k, x)| (k.clone(), mark_threshold(x, lim))).collect();
            if g.len() > lim || matches!(v, Val::MapObj(_)) { Val::MapObj(g) } else { Val::Obj(g) }
        }
        v => v.clone(),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum H {
    Map,
    Opaque(String),
}

/// Mark the values that hints (JSON pointer, `-` wildcard) select. `Err` when a map hint selects a
/// non-object.
pub fn mark_hints(v: &Val, hints: &[(Vec<String>, H)]) -> Result<Val, ()> {
    for (p, h) in hints {
        if p.is_empty() {
            match h {
                H::Opaque(t) => return Ok(Val::Opq(t.clone())),
                H::Map => {
                    if !matches!(v, Val::Obj(_) | Val::MapObj(_)) {
                        return Err(());
                    }
                    break;
                }
            }
        }
    }
    let map_here = hints.iter().any(|(p, _)| p.is_empty());
    let step = |tok: &str| -> Vec<(Vec<String>, H)> {
        hints
            .iter()
            .filter(|(p, _)| !p.is_empty() && (p[0] == "-" || p[0] == tok))
            .map(|(p, h)| (p[1..].to_vec(), h.clone()))
            .collect()
    };
    Ok(match v {
        Val::Arr(a) => {
            let mut o = vec![];
            for (i, x) in a.iter().enumerate() {
                o.push(mark_hints(x, &step(&i.to_string()))?);
            }
            Val::Arr(o)
        }
        Val::Obj(f) | Val::MapObj(f) => {
            let mut o = vec![];
            for (k, x) in f {
                o.push((k.clone(), mark_hints(x, &step(k))?));
            }
            if map_here || matches!(v, Val::MapObj(_)) { Val::MapObj(o) } else { Val::Obj(o) }
        }
        v => v.clone(),
    })
}

/// The values a JSON pointer with `-` wildcards selects, in document order.
pub fn select<'a>(v: &'a Val, ptr: &[String], out: &mut Vec<&'a Val>) {
    match ptr.split_first() {
        None => out.push(v),
        Some((t, rest)) => match v {
            Val::Arr(a) => {
                for (i, x) in a.iter().enumerate() {
                    if t == "-" || *t == i.to_string() {
                        select(x, rest, out);
                    }
                }
            }
            Val::Obj(f) | Val::MapObj(f) => {
                for (k, x) in f {
                    if t == "-" || t == k {
                        select(x, rest, out);
                    }
                }
            }
            _ => {}
        },
    }
}
