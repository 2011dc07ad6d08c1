//! C01..C07: the generated code denotes exactly the reference type, in each output mode.
use crate::consts;
use crate::drive::{Case, Run};
use crate::gen_;
use crate::imp;
use super::names::words;
use super::sweep::{Req, sweep};
use crate::json::{Ref, Val, parse as jparse};
use crate::lang::{self, Lang, Module, SEM, Sem, Style};
use crate::model::{R, infer};
use std::sync::atomic::Ordering::Relaxed;

pub fn langs(id: &str) -> Vec<Lang> {
    match id {
        "C01" => vec![Lang::Shape],
        "C02" => vec![Lang::Rust],
        "C03" => vec![Lang::Ts, Lang::Alias],
        "C04" => vec![Lang::Zod],
        "C05" => vec![Lang::Schema],
        "C06" => vec![Lang::Python],
        "C07" => vec![Lang::Jackson, Lang::Kotlinx],
        _ => unreachable!(),
    }
}

/// Generates and compares with the reference type; violations are recorded. Returns the code.
pub fn check(run: &Run, l: Lang, r: &R, c: &Case, sem: Sem, style: Style) -> Option<(String, Module)> {
    let code = match imp::generate(run, c) {
        Err(p) => {
            run.violation("panic", p, c.clone());
            return None;
        }
        Ok(Err(e)) => {
            run.violation("rejected", format!("a well-formed sample is rejected: {}", e), c.clone());
            return None;
        }
        Ok(Ok(s)) => s,
    };
    let m = match lang::parse(l, &code, &c.name, style) {
        Ok(m) => m,
        Err(e) => {
            run.violation("unreadable", format!("{} output is not well-formed: {}\n{}", l.opt_name(), e, code), c.clone());
            return None;
        }
    };
    run.valid();
    match lang::denotes(l, &m, &c.name, r, sem) {
        Ok(known) => {
            // the listed finding belongs to C01..C07
            for k in known.into_iter().filter(|_| run.strict.load(Relaxed)) {
                run.violation(&k.key, format!("{} {}", l.opt_name(), k.msg), c.clone());
            }
        }
        Err(e) => {
            run.violation(&e.key, format!("{} output deviates from the type of the sample {}\nexpected {:?}\ngenerated:\n{}", l.opt_name(), e.msg, r, code), c.clone());
            return None;
        }
    }
    Some((code, m))
}

pub fn run(id: &str, run: &Run) {
    run.strict.store(true, Relaxed);
    let k = consts::scan();
    let ls = langs(id);
    for f in gen_::structural(run.thorough, &k.ints) {
        let before = run.docs.load(Relaxed);
        run.each(f.n, |i| {
            let doc = (f.get)(i);
            run.doc();
            let r = infer(&doc);
            run.state(&r);
            run.step(doc.nodes() * ls.len());
            let text = doc.text();
            for l in &ls {
                let c = Case { kind: "doc".into(), name: "Root".into(), input: text.clone(), mode: l.opt_name().into(), ..Default::default() };
                check(run, *l, &r, &c, SEM, Style::Add);
            }
        });
        run.count(&format!("family: {}", f.name), run.docs.load(Relaxed) - before);
        for i in [0, f.n / 3, f.n / 2, f.n - 1] {
            run.sample((f.get)(i).text().chars().take(200).collect());
        }
    }
    worded(run, &ls);
}

/// Members whose names mean something in a target language, a library or the generator, in places
/// where the type of the member and of its neighbours matters.
fn worded(run: &Run, ls: &[Lang]) {
    let i = || Val::Num("1".into());
    let s = || Val::Str("s".into());
    let o = |m: &[(&str, Val)]| Val::Obj(m.iter().map(|(k, v)| (k.to_string(), v.clone())).collect());
    let l = |m: &[Val]| Val::Arr(m.to_vec());
    // the neighbours are called a and b; a repeated member is another matter (C11)
    let ws: Vec<String> = words().into_iter().filter(|w| w != "a" && w != "b").collect();
    let build = |k: &str, f: u64| match f {
        0 => o(&[(k, i())]),
        1 => o(&[(k, i()), ("a", s())]),
        2 => o(&[("a", s()), (k, i())]),
        3 => l(&[o(&[(k, i())]), o(&[])]),
        4 => l(&[o(&[(k, i()), ("a", s())]), o(&[(k, i())])]),
        5 => l(&[o(&[(k, i()), ("a", s())]), o(&[("a", Val::Null)])]),
        6 => o(&[(k, Val::Null)]),
        7 => l(&[o(&[(k, i())]), o(&[(k, s())])]),
        8 => o(&[(k, o(&[(k, Val::Bool(true))]))]),
        9 => o(&[(k, l(&[o(&[("a", i())]), o(&[(k, i())])]))]),
        10 => o(&[(k, l(&[i(), s()])), ("a", l(&[]))]),
        _ => o(&[("a", o(&[(k, s()), ("b", i())])), ("b", o(&[(k, i())]))]),
    };
    sweep(run, "members named by words that mean something, in 12 documents each", ls, ws.len() as u64 * 12, |n| {
        Req::doc(build(&ws[(n / 12) as usize], n % 12))
    });
}

pub fn replay(run: &Run, c: &Case) {
    run.strict.store(true, Relaxed);
    let Ref::Ok(v) = jparse(c.input.as_bytes()) else { return };
    let l = Lang::from_name(&c.mode).unwrap();
    check(run, l, &infer(&v), c, SEM, Style::Add);
}
