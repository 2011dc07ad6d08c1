//! C23: arrays are sets of observations. Every document is compared with its canonical form, in which
//! the elements of every array are sorted and distinct and the members of every object are sorted;
//! so all permutations and all repetitions of the same observations are compared with each other.
use crate::consts;
use crate::drive::{Case, Run};
use crate::gen_::*;
use crate::imp;
use crate::json::{Ref, Val, parse as jparse, *};
use crate::lang::{self, L, Lang, Mem, Style};
use crate::model::{Fld, R, infer};

const MODES: [Lang; 4] = [Lang::Shape, Lang::Schema, Lang::Alias, Lang::Zod];

fn sorted_r(r: &R) -> R {
    let b = |x: &R| Box::new(sorted_r(x));
    match r {
        R::Vec(x) => R::Vec(b(x)),
        R::Map(x) => R::Map(b(x)),
        R::Nullable(x) => R::Nullable(b(x)),
        R::Tuple(v) => R::Tuple(v.iter().map(sorted_r).collect()),
        R::Struct(f) => {
            let mut f: Vec<Fld> = f.iter().map(|f| Fld { key: f.key.clone(), opt: f.opt, ty: sorted_r(&f.ty) }).collect();
            f.sort_by(|a, b| a.key.cmp(&b.key));
            R::Struct(f)
        }
        x => x.clone(),
    }
}

fn sorted_l(t: &L) -> L {
    let b = |x: &L| Box::new(sorted_l(x));
    match t {
        L::Seq(x) => L::Seq(b(x)),
        L::Map(x) => L::Map(b(x)),
        L::Nullable(x) => L::Nullable(b(x)),
        L::Opt(x) => L::Opt(b(x)),
        L::Undef(x) => L::Undef(b(x)),
        L::Boxed(x) => L::Boxed(b(x)),
        L::Tup(v) => L::Tup(v.iter().map(sorted_l).collect()),
        L::Obj(ms) => {
            let mut ms: Vec<Mem> = ms.iter().map(|m| Mem { ty: sorted_l(&m.ty), ..m.clone() }).collect();
            ms.sort_by(|a, b| a.wire.cmp(&b.wire));
            L::Obj(ms)
        }
        x => x.clone(),
    }
}

fn canon(v: &Val) -> Val {
    match v {
        Val::Arr(a) => {
            let mut a: Vec<Val> = a.iter().map(canon).collect();
            a.sort_by_key(|x| x.text());
            a.dedup();
            Val::Arr(a)
        }
        Val::Obj(f) => {
            let mut f: Vec<(String, Val)> = f.iter().map(|(k, v)| (k.clone(), canon(v))).collect();
            f.sort_by(|a, b| a.0.cmp(&b.0));
            Val::Obj(f)
        }
        x => x.clone(),
    }
}

fn reversed(v: &Val) -> Val {
    match v {
        Val::Arr(a) => Val::Arr(a.iter().rev().map(reversed).collect()),
        Val::Obj(f) => Val::Obj(f.iter().rev().map(|(k, v)| (k.clone(), reversed(v))).collect()),
        x => x.clone(),
    }
}

/// Permutation and repetition of the outermost array only (the inner ones may be tuples).
fn canon_outer(v: &Val) -> Val {
    match v {
        Val::Arr(a) => {
            let mut a = a.clone();
            a.sort_by_key(|x| x.text());
            a.dedup();
            Val::Arr(a)
        }
        x => x.clone(),
    }
}

enum Out {
    Err,
    Ty(L),
}

fn out(run: &Run, c: &Case, l: Lang) -> Option<Out> {
    match imp::generate(run, c) {
        Err(p) => {
            run.violation("panic", p, c.clone());
            None
        }
        Ok(Err(_)) => Some(Out::Err),
        Ok(Ok(code)) => match lang::parse(l, &code, "Root", Style::Add) {
            Err(e) => {
                run.violation("unreadable", format!("{}\n{}", e, code), c.clone());
                None
            }
            Ok(m) => {
                let t = m.root.clone().or_else(|| m.aliases.iter().find(|a| a.1 == "Root").map(|a| a.2.clone()));
                Some(Out::Ty(sorted_l(&t.unwrap_or(L::Bottom))))
            }
        },
    }
}

fn tuple_in(t: &L) -> bool {
    match t {
        L::Tup(_) => true,
        L::Seq(x) | L::Map(x) | L::Nullable(x) | L::Opt(x) | L::Undef(x) | L::Boxed(x) => tuple_in(x),
        L::Obj(ms) => ms.iter().any(|m| tuple_in(&m.ty)),
        _ => false,
    }
}

fn compare(run: &Run, a: &Val, b: &Val, opts: &str, modes: &[Lang]) {
    let (ta, tb) = (a.text(), b.text());
    for l in modes {
        let ca = Case { kind: "pair".into(), name: "Root".into(), input: ta.clone(), opts: opts.into(), mode: l.opt_name().into(), extra: tb.clone() };
        let cb = Case { input: tb.clone(), extra: ta.clone(), ..ca.clone() };
        let (Some(x), Some(y)) = (out(run, &ca, *l), out(run, &cb, *l)) else { continue };
        match (x, y) {
            (Out::Err, Out::Err) => run.valid(),
            (Out::Ty(x), Out::Ty(y)) => {
                if x == y || (!opts.is_empty() && (tuple_in(&x) || tuple_in(&y))) {
                    run.valid();
                } else {
                    run.violation("order-matters", format!("{}\nis typed {:?}, but\n{}\nis typed {:?}", ta, x, tb, y), ca);
                }
            }
            _ => run.violation("order-matters", format!("only one of the two is accepted\n{}\n{}", ta, tb), ca),
        }
    }
}

fn both(run: &Run, d: &Val, opts: &str, modes: &[Lang], whole: bool) {
    let r = sorted_r(&infer(d));
    run.doc();
    run.state(&(&r, opts));
    let mut seen = vec![d.clone()];
    let alts = if whole { vec![canon(d), reversed(d), canon_outer(d)] } else { vec![canon_outer(d)] };
    for e in alts {
        if seen.contains(&e) {
            continue;
        }
        run.step(d.nodes());
        // the array became or stopped being a tuple: then the types may differ
        if sorted_r(&infer(&e)) == r {
            compare(run, d, &e, opts, modes);
        }
        seen.push(e);
    }
}

fn wide_rows(n: usize, few: bool) -> Family {
    let o = |f: &[(&str, Val)]| Some(obj(f));
    let vs = vec![None, Some(Val::Null), Some(int()), Some(flt()), Some(st()), o(&[("x", int())]), Some(arr(&[])), Some(arr(&[flt()]))];
    let k = if few { 4 } else { vs.len() as u64 };
    let per = k * k * 2;
    Family::new(&format!("<={} objects with two members of {} kinds in either order", n, k), seq_count(per, n), move |i| {
        Val::Arr(
            seq_nth(per, n, i)
                .into_iter()
                .map(|j| {
                    let j = j as u64;
                    let mut f: Vec<(String, Val)> = vec![];
                    if let Some(v) = &vs[(j / 2 / k) as usize] {
                        f.push(("a".into(), v.clone()));
                    }
                    if let Some(v) = &vs[(j / 2 % k) as usize] {
                        f.push(("b".into(), v.clone()));
                    }
                    if j % 2 == 1 {
                        f.reverse();
                    }
                    Val::Obj(f)
                })
                .collect(),
        )
    })
}

/// Arrays longer than any window, with up to two deviants at all positions.
fn two_deviants(max: usize) -> Family {
    let s = vec![
        obj(&[("x", int()), ("y", int())]),
        obj(&[("x", int())]),
        obj(&[("x", flt()), ("y", Val::Null)]),
        obj(&[("x", obj(&[("z", int())])), ("y", int())]),
        int(),
        flt(),
        Val::Null,
        arr(&[int(), st()]),
        arr(&[int(), Val::Null]),
        arr(&[]),
    ];
    let k = s.len();
    let mut v = vec![];
    for n in 2..=max {
        for p in 0..n {
            for q in p + 1..n {
                if n > 16 && ![0, 1, 10, 11, 12, 13].contains(&p) && p + 2 < n && ![0, 11, 12, n - 1].contains(&q) {
                    continue;
                }
                for b in 0..k {
                    for d in 0..k {
                        for e in 0..k {
                            if b != d && (e == d || (b + d + e) % 3 == 0) {
                                v.push((n as u8, p as u8, q as u8, b as u8, d as u8, e as u8));
                            }
                        }
                    }
                }
            }
        }
    }
    Family::new(&format!("arrays of length <={} with two deviants", max), v.len() as u64, move |i| {
        let (n, p, q, b, d, e) = v[i as usize];
        let mut a = vec![s[b as usize].clone(); n as usize];
        a[p as usize] = s[d as usize].clone();
        a[q as usize] = s[e as usize].clone();
        Val::Arr(a)
    })
}

pub fn c23(run: &Run) {
    let th = run.thorough;
    let k = consts::scan();
    let u = Universe::new(if th { 8 } else { 7 });
    let n = u.total();
    let fams = vec![
        Family::new(&format!("all documents with <={} nodes", if th { 8 } else { 7 }), n, move |i| u.nth(i)),
        rows(if th { 5 } else { 4 }),
        wide_rows(if th { 3 } else { 2 }, false),
        wide_rows(if th { 4 } else { 3 }, true),
        tuples(3, if th { 3 } else { 2 }),
        tuples(2, if th { 4 } else { 3 }),
        long_arrays(if th { 40 } else { 26 }, &k.ints),
        far_arrays(th, &k.ints),
        two_deviants(if th { 22 } else { 15 }),
    ];
    for f in fams {
        run.each(f.n, |i| both(run, &(f.get)(i), "", if th { &MODES } else { &MODES[..2] }, true));
        run.count(&format!("family: {}", f.name), f.n);
        run.sample((f.get)(f.n / 2).text().chars().take(160).collect());
    }
    // the inner arrays kept as they are, so that tuples inside are joined in every order
    for f in [rows(if th { 5 } else { 4 }), tuples(3, if th { 3 } else { 2 }), tuples(2, if th { 4 } else { 3 })] {
        run.each(f.n, |i| both(run, &(f.get)(i), "", &MODES[..1], false));
        run.count(&format!("family: {}, outer array only", f.name), f.n);
    }
    // with hints and thresholds
    for o in ["{ infer_map_threshold: \"0\" }", "{ infer_map_threshold: \"1\" }", "{ \"/-/a\": { use_type: \"Date\" } }", "{ unwrap: \"/-/a\" }", "{ unwrap: \"/-\" }"] {
        let f = rows(if th { 4 } else { 3 });
        run.each(f.n, |i| both(run, &(f.get)(i), o, &MODES[..2], false));
        run.count(&format!("family: {} with {}", f.name, o), f.n);
    }
}

pub fn replay(run: &Run, c: &Case) {
    let (Ref::Ok(a), Ref::Ok(b)) = (jparse(c.input.as_bytes()), jparse(c.extra.as_bytes())) else { return };
    compare(run, &a, &b, &c.opts, &[Lang::from_name(&c.mode).unwrap()]);
}
