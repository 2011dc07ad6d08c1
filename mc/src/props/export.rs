//! Conformance of the readers: generated code, and values with the verdict that the reference type
//! has on them, for the real tools of the target languages (rustc + serde, tsc, Zod, Ajv, CPython).
use super::names::{colliding, odd_chars, type_words, variants, words};
use super::sweep::Req;
use crate::drive::{Case, Run};
use crate::gen_::{self, mutants, Universe, seq_count, seq_nth};
use crate::imp;
use crate::json::*;
use crate::lang::{Lang, Sem};
use crate::model::{Fld, R, infer, mark_threshold};
use std::collections::BTreeSet;
use std::io::Write;

/// What decides acceptance, besides the type.
#[derive(Clone, Copy)]
pub struct A {
    l: Lang,
    sem: Sem,
    deny: bool,
    collect: bool,
}

/// Whether code generated for `r` has to accept `v`; None where the properties leave it open.
pub fn accepts(a: A, r: &R, v: &Val) -> Option<bool> {
    let l = a.l;
    let boo = |b: bool| Some(b);
    match (r, v) {
        (R::Any | R::Null, Val::Null) => Some(true),
        (R::Any, _) => Some(true),
        (R::Bottom | R::Null, _) => None,
        (R::Nullable(_), Val::Null) => Some(true),
        (R::Nullable(x), v) => accepts(a, x, v),
        // a list type made for another position may stand here
        (R::Bool, v) => boo(matches!(v, Val::Bool(_))),
        (R::Str, v) => boo(matches!(v, Val::Str(_))),
        (R::Int, Val::Num(n)) if matches!(l, Lang::Rust | Lang::Python) => boo(!n.contains(['.', 'e', 'E'])),
        (R::Int | R::Float, v) => boo(matches!(v, Val::Num(_))),
        (R::Vec(x), Val::Arr(vs)) => all(vs.iter().map(|v| accepts(a, x, v))),
        (R::Vec(_), _) => boo(false),
        (R::Tuple(xs), Val::Arr(vs)) => {
            if xs.len() != vs.len() {
                // JSON Schema leaves missing elements alone
                return if l == Lang::Schema { None } else { Some(false) };
            }
            all(xs.iter().zip(vs).map(|(x, v)| accepts(a, x, v)))
        }
        (R::Tuple(_), _) => boo(false),
        (R::Struct(fs), Val::Obj(ms)) => {
            // A type of which nothing is required has its own rule in TypeScript ("weak types").
            if a.deny && ms.iter().any(|m| !fs.iter().any(|f| f.key == m.0)) {
                return if a.collect { None } else { Some(false) };
            }
            let open = matches!(l, Lang::Ts | Lang::Alias) && fs.iter().all(|f| f.opt) && !ms.iter().any(|m| fs.iter().any(|f| f.key == m.0));
            let r = all(fs.iter().map(|f| member(a, f, ms)));
            if open && r == Some(true) && !fs.is_empty() && !ms.is_empty() { None } else { r }
        }
        // serde reads structs from arrays, and TypeScript gives scalars and arrays members
        (R::Struct(_), Val::Arr(_)) if l == Lang::Rust => None,
        (R::Struct(fs), _) if matches!(l, Lang::Ts | Lang::Alias) && (fs.iter().all(|f| f.opt) || fs.iter().any(|f| inherited(&f.key))) => {
            if matches!(v, Val::Null) { Some(false) } else { None }
        }
        (R::Struct(_), _) => boo(false),
        (R::Map(x), Val::Obj(ms)) => all(ms.iter().map(|m| accepts(a, x, &m.1))),
        (R::Map(_), _) => boo(false),
        (R::Opaque(_), _) => None,
    }
}

fn inherited(k: &str) -> bool {
    ["length", "toString", "valueOf", "constructor", "hasOwnProperty", "__proto__"].contains(&k)
}

fn all(it: impl Iterator<Item = Option<bool>>) -> Option<bool> {
    let mut r = Some(true);
    for x in it {
        match x {
            Some(false) => return Some(false),
            None => r = None,
            _ => {}
        }
    }
    r
}

fn member(a: A, f: &Fld, ms: &[(String, Val)]) -> Option<bool> {
    let l = a.l;
    // Zod and Ajv themselves leave a member of this name alone
    if f.key == "__proto__" && matches!(l, Lang::Zod | Lang::Schema) {
        return None;
    }
    match ms.iter().find(|m| m.0 == f.key) {
        Some((_, v)) => {
            // absent and null are one in these languages
            if f.opt && matches!(v, Val::Null) && !matches!(f.ty, R::Nullable(_)) {
                return match l {
                    Lang::Rust if a.sem.use_default => accepts(a, &f.ty, v),
                    Lang::Rust if matches!(f.ty, R::Vec(_)) && !a.sem.option_vec => Some(false),
                    Lang::Rust | Lang::Python => Some(true),
                    _ => accepts(a, &f.ty, v),
                };
            }
            accepts(a, &f.ty, v)
        }
        None => {
            if matches!(l, Lang::Ts | Lang::Alias) && inherited(&f.key) {
                return None;
            }
            if a.sem.use_default {
                return Some(true);
            }
            match &f.ty {
                // listed finding; and "unknown" admits absence in Zod
                R::Any | R::Null | R::Bottom => if f.opt && f.ty != R::Any { Some(true) } else { None },
                R::Nullable(_) if !f.opt && matches!(l, Lang::Rust | Lang::Python) => None,
                _ => Some(f.opt),
            }
        }
    }
}

fn families(prop: &str, thorough: bool, l: Lang) -> Vec<(String, Vec<Req>)> {
    let rust = l == Lang::Rust;
    let ts = matches!(l, Lang::Ts | Lang::Alias);
    let collect = |n: u64, f: &dyn Fn(u64) -> Req| (0..n).map(f).collect::<Vec<_>>();
    let o1 = |k: &str, v: Val| Val::Obj(vec![(k.to_string(), v)]);
    let mut out: Vec<(String, Vec<Req>)> = vec![];
    match prop {
        "C08" => {
            let odd = odd_chars();
            out.push((
                "one odd character in 4 contexts".into(),
                odd.iter()
                    .flat_map(|c| [format!("{}", c), format!("a{}", c), format!("{}a", c), format!("a{}b", c)])
                    .map(|k| Req::doc(arr(&[o1(&k, int()), o1(&k, int())])))
                    .collect(),
            ));
            let mut w: BTreeSet<String> = BTreeSet::new();
            for x in words() {
                if thorough { w.extend(variants(&x)) } else { w.insert(x); }
            }
            w.extend(colliding());
            out.push(("words".into(), w.iter().map(|k| Req::doc(o1(k, int()))).collect()));
            out.push(("words naming objects".into(), w.iter().filter(|_| thorough || !rust).map(|k| Req::doc(o1(k, o1("x", int())))).collect()));
            let c = colliding();
            let m = if rust && !thorough { 12 } else { c.len() };
            out.push((
                "pairs of colliding names".into(),
                (0..m * m).filter(|i| i / m < i % m).map(|i| Req::doc(Val::Obj(vec![(c[i / m].clone(), int()), (c[i % m].clone(), st())]))).collect(),
            ));
            // every character of the basic plane, many to an object
            let cps: Vec<char> = (0x80u32..0x10000).filter_map(char::from_u32).collect();
            let per = 64;
            out.push((
                "every character of the basic plane, 64 to an object".into(),
                cps.chunks(per)
                    .enumerate()
                    .filter(|(i, _)| thorough || !(rust || ts) || i % 16 == 0)
                    .map(|(_, ch)| Req::doc(Val::Obj(ch.iter().flat_map(|c| [(c.to_string(), int()), (format!("a{}b", c), int())]).collect())))
                    .collect(),
            ));
        }
        "C09" => {
            let w = type_words();
            let n = w.len() as u64;
            let forms = |i: u64, a: &str, b: &str| super::names::forms(i, a, b);
            out.push(("one name in 6 forms".into(), collect(n * 6, &|i| Req::doc(forms(i % 6, &w[(i / 6) as usize], &w[(i / 6) as usize])))));
            let names = ["item", "Item", "ITEM", "item2", "item_2", "Item3", "items", "item-", "item 2"];
            let t = names.len() as u64;
            let depth = if thorough { 4 } else if rust { 2 } else { 3 };
            out.push((
                format!("chains of <={} names that number each other", depth),
                collect(seq_count(t, depth), &|i| {
                    let mut v = obj(&[("x", int())]);
                    for (j, d) in seq_nth(t, depth, i).iter().enumerate() {
                        v = Val::Obj(vec![(names[*d].to_string(), v), (format!("y{}", j), int())]);
                    }
                    Req::named(v, if i % 2 == 0 { "Root" } else { "Item" })
                }),
            ));
        }
        "C18" | "C26" => {
            let docs = [
                obj(&[("a-b", int()), ("c", arr(&[obj(&[("type", st())]), obj(&[("d", arr(&[int(), Val::Null, flt()]))])])), ("e", arr(&[])), ("f", arr(&[int(), st()]))]),
                arr(&[obj(&[("a", arr(&[int()])), ("n", Val::Null)]), obj(&[("any", int()), ("b", obj(&[("value", arr(&[]))]))])]),
                obj(&[("serialize", obj(&[("a", flt())])), ("deserialize", arr(&[obj(&[("b", flt())])])), ("optional", obj(&[])), ("field", obj(&[("f", int())])), ("base model", obj(&[("m", int())]))]),
                obj(&[]),
                int(),
            ];
            let list = if prop == "C18" { super::rustopts::export_options() } else { super::rustopts::export_styles(l) };
            let reqs = list.iter().flat_map(|(opts, sem, style)| docs.iter().map(|d| Req { opts: opts.clone(), sem: *sem, style: *style, r: opts.contains("threshold").then(|| infer(&mark_threshold(d, 0))), ..Req::doc(d.clone()) }).collect::<Vec<_>>()).collect();
            out.push((if prop == "C18" { "combinations of the Rust options" } else { "import styles" }.into(), reqs));
        }
        "C25" => {
            let alpha: Vec<char> = "aB_-1 ".chars().collect();
            let len = if thorough { 4 } else { 3 };
            let keys: Vec<String> = (0..seq_count(6, len)).map(|i| seq_nth(6, len, i).into_iter().map(|d| alpha[d]).collect()).collect();
            for f in super::rustopts::FORMATS {
                // each key in an object of its own, so that none is renamed on account of another
                let reqs = keys
                    .chunks(10)
                    .map(|ks| Req {
                        opts: format!("{{ property_name_format: \"{}\" }}", f),
                        ..Req::doc(Val::Obj(ks.iter().enumerate().map(|(i, k)| (format!("v{}", i), o1(k, int()))).collect()))
                    })
                    .collect();
                out.push((format!("keys of length <={} under {}", len, f), reqs));
            }
        }
        _ => {
            let rust = rust || ts;
            let n = if rust && !thorough { 3 } else { 4 };
            let u = Universe::new(n);
            out.push((format!("all documents with <={} nodes", n), collect(u.total(), &|i| Req::doc(u.nth(i)))));
            let mut fams = vec![gen_::deep(if thorough { 6 } else { 4 }), gen_::tuples(2, 2)];
            if !rust || thorough {
                fams.push(gen_::rows(2));
                fams.push(gen_::sharing(1));
                fams.push(gen_::pairs(if thorough { 3 } else { 2 }));
            } else {
                fams.push(gen_::rows(2));
            }
            for f in fams {
                let v = collect(f.n, &|i| Req::doc((f.get)(i)));
                out.push((f.name.clone(), v));
            }
        }
    }
    out
}

pub fn run(run: &Run, prop: &str, l: Lang, file: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(file).unwrap());
    // the TypeScript compiler is slow
    let ts = matches!(l, Lang::Ts | Lang::Alias);
    let pool = Universe::new(if ts && !run.thorough { 2 } else { 3 });
    let pool: Vec<Val> = (0..pool.total()).map(|i| pool.nth(i)).collect();
    let rust = l == Lang::Rust;
    let mut seen: std::collections::HashSet<String> = Default::default();
    for (name, reqs) in families(prop, run.thorough, l) {
        let mut k = 0;
        for q in reqs {
            let r = q.r.clone().unwrap_or_else(|| infer(&q.doc));
            let text = q.doc.text();
            if depth(&q.doc) > if ts && !run.thorough { 12 } else { 60 } {
                continue;
            }
            let c = Case { kind: "doc".into(), name: q.name.clone(), input: text.clone(), opts: q.opts.clone(), mode: l.opt_name().into(), ..Default::default() };
            let Ok(Ok(code)) = imp::generate(run, &c) else {
                writeln!(o, "{{\"case\":{},\"code\":null}}", c.json()).unwrap();
                continue;
            };
            // the same code for another sample of the same type says nothing new
            if !seen.insert(format!("{}\n{}", code, if rust || ts && !run.thorough { "" } else { &text })) {
                continue;
            }
            let mut vals = vec![];
            mutants(&q.doc, &mut vals);
            if vals.len() > 400 {
                vals.retain({
                    let mut i = 0;
                    move |_| {
                        i += 1;
                        i % 16 == 1
                    }
                });
            }
            if prop != "C08" && prop != "C09" {
                vals.extend(pool.iter().cloned());
            }
            let a = A { l, sem: q.sem, deny: q.opts.contains("deny_unknown_fields"), collect: q.opts.contains("collect_additional") };
            let mut probes = vec![];
            let mut dedup: BTreeSet<String> = BTreeSet::new();
            for v in vals {
                let t = v.text();
                if t == text || !dedup.insert(t.clone()) {
                    continue;
                }
                if let Some(b) = accepts(a, &r, &v) {
                    probes.push(format!("[{},{}]", esc(&t), b));
                }
            }
            k += 1;
            writeln!(o, "{{\"case\":{},\"code\":{},\"assume\":{},\"probes\":[{}]}}", c.json(), esc(&code), q.style == crate::lang::Style::Assume, probes.join(",")).unwrap();
        }
        run.count(&format!("conformance, {}: {}", l.opt_name(), name), k);
    }
}

fn depth(v: &Val) -> usize {
    match v {
        Val::Arr(vs) => 1 + vs.iter().map(depth).max().unwrap_or(0),
        Val::Obj(ms) => 1 + ms.iter().map(|m| depth(&m.1)).max().unwrap_or(0),
        _ => 0,
    }
}
