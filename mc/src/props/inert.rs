//! C29: options reach only the outputs they are documented for. Every request is made with and without
//! options that do not concern its output mode; the two outputs have to be the same text.
use super::names;
use crate::drive::{Case, Run};
use crate::gen_::*;
use crate::imp;
use crate::json::{esc, *};
use crate::lang::{ALL, Lang};
use crate::model::infer;

/// The spellings of the options that do not concern a mode; the first is the option left out.
fn inert(l: Lang) -> Vec<Vec<String>> {
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    if l == Lang::Rust {
        return vec![];
    }
    let mut r = vec![
        s(&["", "derives: \"\"", "derives: \"Default, Debug\"", "derives: \"Serialize\""]),
        s(&["", "field_visibility: \"pub(crate)\"", "field_visibility: \"\"", "field_visibility: \"private\""]),
        s(&["", "deny_unknown_fields", "deny_unknown_fields: false"]),
        s(&["", "allow_option_vec", "allow_option_vec: false"]),
    ];
    if matches!(l, Lang::Ts | Lang::Alias | Lang::Schema | Lang::Zod | Lang::Shape) {
        let mut f = s(&[""]);
        f.extend(super::rustopts::FORMATS.iter().map(|f| format!("property_name_format: {}", esc(f))));
        r.push(f);
        r.push(s(&["", "import_style: \"assume_existing\"", "import_style: \"add_imports\"", "import_style: \"qualified_paths\""]));
        r.push(s(&["", "collect_additional", "collect_additional: false"]));
    }
    if matches!(l, Lang::Schema | Lang::Shape) {
        r.push(s(&["", "use_default_for_missing_fields", "use_default_for_missing_fields: false"]));
    }
    r
}

const PREFIXES: [&str; 5] = ["", "pub ", "pub(crate) ", "pub(super) ", "pub(in some::path) "];

/// Options that do concern every mode.
fn base() -> Vec<Vec<&'static str>> {
    vec![
        vec![],
        vec!["unwrap: \"/-\""],
        vec!["unwrap: \"/a\""],
        vec!["\"/-/a\": { use_type: \"map\" }"],
        vec!["\"/a\": { use_type: \"Money\" }"],
        vec!["infer_map_threshold: \"1\""],
        vec!["unwrap: \"/-/a\"", "infer_map_threshold: \"0\"", "\"/b\": { use_type: \"Date\" }"],
    ]
}

fn block(parts: &[&str]) -> String {
    let p: Vec<&str> = parts.iter().copied().filter(|p| !p.is_empty()).collect();
    if p.is_empty() { String::new() } else { format!("{{ {} }}", p.join(", ")) }
}

fn compare(run: &Run, c: &Case, want: &Result<String, String>) {
    match imp::generate(run, c) {
        Err(p) => run.violation("panic", p, c.clone()),
        Ok(got) => match (&got, want) {
            (Ok(a), Ok(b)) if a == b => run.valid(),
            (Err(_), Err(_)) => run.valid(),
            (Ok(a), Ok(b)) => run.violation(
                "option-out-of-place",
                format!("{} in mode {} (name {:?}) changes the output, which is\n{}\nand without it\n{}", c.opts, c.mode, c.name, a, b),
                c.clone(),
            ),
            (a, b) => run.violation("option-out-of-place", format!("{} in mode {}: {:?}, without it {:?}", c.opts, c.mode, a, b), c.clone()),
        },
    }
}

/// `picks`: for every inert option of the mode the spelling used, then the prefix of the name.
fn check(run: &Run, kind: &str, text: &str, l: Lang, name: &str, base: &[&str], all: &[(Vec<String>, &str)], wrap: bool) {
    let mk = |parts: &[&str], prefix: &str, extra: String| Case {
        kind: kind.into(),
        name: format!("{}{}", prefix, name),
        input: text.into(),
        opts: block(parts),
        mode: l.opt_name().into(),
        extra,
    };
    let b = mk(base, "", String::new());
    let want = match imp::generate(run, &b) {
        Ok(w) => w,
        Err(p) => return run.violation("panic", p, b),
    };
    for (picks, prefix) in all {
        run.step(1);
        let mut parts: Vec<&str> = picks.iter().map(|s| s.as_str()).collect();
        if wrap {
            parts.splice(0..0, base.iter().copied());
        } else {
            parts.extend(base);
        }
        let c = mk(&parts, prefix, b.opts.clone());
        compare(run, &c, &want);
    }
}

/// Every option alone, in all its spellings, and every prefix.
fn singles(l: Lang) -> Vec<(Vec<String>, &'static str)> {
    let mut r = vec![];
    for o in inert(l) {
        for s in &o[1..] {
            r.push((vec![s.clone()], ""));
        }
    }
    if l != Lang::Rust {
        for p in &PREFIXES[1..] {
            r.push((vec![], *p));
        }
    }
    r
}

/// All subsets of the options, each in its first spelling, with and without a prefix; and everything in each of its spellings.
fn subsets(l: Lang, full: bool) -> Vec<(Vec<String>, &'static str)> {
    let o = inert(l);
    let mut r = vec![];
    if o.is_empty() {
        return r;
    }
    for m in 1u32..1 << o.len() {
        let v: Vec<String> = (0..o.len()).filter(|i| m >> i & 1 == 1).map(|i| o[i][1].clone()).collect();
        r.push((v.clone(), ""));
        r.push((v, PREFIXES[2]));
    }
    if full {
        let total: u64 = o.iter().map(|x| x.len() as u64).product();
        for mut i in 0..total {
            let mut v = vec![];
            for x in &o {
                v.push(x[(i % x.len() as u64) as usize].clone());
                i /= x.len() as u64;
            }
            r.push((v, ""));
        }
    }
    r
}

fn modes() -> Vec<Lang> {
    ALL.into_iter().filter(|l| *l != Lang::Rust).collect()
}

pub fn c29(run: &Run) {
    let th = run.thorough;
    let one: Vec<_> = modes().into_iter().map(|l| (l, singles(l))).collect();
    let sub: Vec<_> = modes().into_iter().map(|l| (l, subsets(l, false))).collect();
    let full: Vec<_> = modes().into_iter().map(|l| (l, subsets(l, true))).collect();
    let (u, v) = (Universe::new(if th { 6 } else { 5 }), Universe::new(if th { 5 } else { 3 }));
    let (n, m) = (u.total(), v.total());
    let docs = |f: &Family, what: &str, names: &[&str], sets: &[(Lang, Vec<(Vec<String>, &'static str)>)], bases: &[Vec<&'static str>]| {
        let (k, b) = (names.len() as u64, bases.len() as u64);
        run.each(f.n * k * b, |i| {
            let (base, i) = (&bases[(i % b) as usize], i / b);
            let (name, i) = (names[(i % k) as usize], i / k);
            let d = (f.get)(i);
            run.doc();
            run.state(&(infer(&d), base.len(), name));
            let t = d.text();
            for (l, all) in sets {
                check(run, "", &t, *l, name, base, all, i % 2 == 0);
            }
        });
        run.count(&format!("family: {}, {}", f.name, what), f.n * k * b);
        run.sample((f.get)(f.n / 2).text().chars().take(160).collect());
    };
    let bases = base();
    docs(&Family::new("all documents of bounded size", n, move |i| u.nth(i)), "every option alone", &["Root"], &one, &bases[..1]);
    docs(&Family::new("small documents", m, move |i| v.nth(i)), "subsets of the options, and other options", &["Root"], &sub, &bases);
    docs(&rows(if th { 4 } else { 3 }), "every option alone", &["Root"], &one, &bases[..1]);
    docs(&rows(if th { 3 } else { 2 }), "every option alone, and other options", &["Root"], &one, &bases);
    docs(&sharing(if th { 2 } else { 1 }), "every option alone", &["Root"], &one, &bases[..1]);
    let rich = vec![
        obj(&[("a", arr(&[int()])), ("b", obj(&[("c-d", Val::Null), ("type", st())]))]),
        arr(&[obj(&[("a", arr(&[obj(&[("x", int())])])), ("b", Val::Null)]), obj(&[("b", arr(&[flt()]))]), obj(&[])]),
        arr(&[obj(&[("a", Val::Null)]), obj(&[("a", obj(&[("b", arr(&[int()])), ("c", int())]))])]),
        obj(&[("A b", int()), ("a_b", int()), ("aB", Val::Bool(true)), ("additionalFields", obj(&[("1", int())]))]),
        arr(&[arr(&[int(), st(), Val::Null]), arr(&[Val::Null, Val::Null, obj(&[("a", int())])])]),
    ];
    docs(&Family::list("rich documents", rich.clone()), "all combinations of all spellings", if th { &["Root", "my type", "class"] } else { &["my type"] }, &full, &bases[..if th { 7 } else { 1 }]);
    // keys that mean something somewhere
    let w = names::words();
    let k = w.len() as u64;
    let f = Family::new("members and types named by words", k * 2, move |i| {
        let x = &w[(i / 2) as usize];
        match i % 2 {
            0 => Val::Obj(vec![(x.clone(), arr(&[])), (format!("{}_", x), obj(&[("q", Val::Null)]))]),
            _ => arr(&[Val::Obj(vec![(x.clone(), obj(&[("q", arr(&[int()]))]))]), obj(&[])]),
        }
    });
    docs(&f, "every option alone", &["Root"], &one, &bases[..1]);
    // table definitions
    let types = ["INT", "TEXT NOT NULL", "BOOLEAN", "TIMESTAMP NOT NULL", "UUID", "VARCHAR(3)"];
    let q = types.len() as u64;
    run.each(q * q, |i| {
        let t = format!("CREATE TABLE t (a_b {}, \"C d\" {});", types[(i % q) as usize], types[(i / q) as usize]);
        run.doc();
        for (l, all) in &sub {
            check(run, "sql", &t, *l, "Root", &["input_mode: \"sql\""], all, false);
        }
    });
    run.count("family: table definitions, subsets of the options", q * q);
}

pub fn replay(run: &Run, c: &Case) {
    let name = PREFIXES.iter().rev().find_map(|p| c.name.strip_prefix(p)).unwrap_or(&c.name).to_string();
    let b = Case { name, opts: c.extra.clone(), extra: String::new(), ..c.clone() };
    match imp::generate(run, &b) {
        Ok(w) => compare(run, c, &w),
        Err(p) => run.violation("panic", p, b),
    }
}
