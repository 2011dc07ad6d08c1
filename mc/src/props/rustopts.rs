//! C18 (Rust options), C25 (property name formats), C26 (import styles).
use super::names;
use crate::drive::{Case, Run};
use crate::gen_::{Family, Universe, digits, rows, seq_count, seq_nth, tuples};
use crate::imp;
use crate::json::{Ref, Val, esc, parse as jparse, *};
use crate::lang::{self, Decl, L, Lang, Mem, Module, SEM, Sem, Style};
use crate::model::{R, infer};
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug, Default)]
pub struct RO {
    deny: bool,
    default: bool,
    option_vec: bool,
    collect: bool,
    fvis: Option<String>,
    name: String,
    tvis: String,
    derives: Option<String>,
    style: u8,
    format: Option<String>,
}

const STYLES: [(&str, Style); 3] = [("add_imports", Style::Add), ("assume_existing", Style::Assume), ("qualified_paths", Style::Qualified)];
pub const FORMATS: [&str; 8] = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"];

impl RO {
    fn opts(&self) -> String {
        let mut o: Vec<String> = vec![];
        for (b, k) in [
            (self.deny, "deny_unknown_fields"),
            (self.default, "use_default_for_missing_fields"),
            (self.option_vec, "allow_option_vec"),
            (self.collect, "collect_additional"),
        ] {
            if b {
                o.push(k.into());
            }
        }
        if let Some(v) = &self.fvis {
            o.push(format!("field_visibility: {}", esc(v)));
        }
        if let Some(v) = &self.derives {
            o.push(format!("derives: {}", esc(v)));
        }
        if self.style > 0 {
            o.push(format!("import_style: \"{}\"", STYLES[self.style as usize].0));
        }
        if let Some(v) = &self.format {
            o.push(format!("property_name_format: {}", esc(v)));
        }
        if o.is_empty() { String::new() } else { format!("{{ {} }}", o.join(", ")) }
    }
    fn extra(&self) -> String {
        format!(
            "{{\"deny\":\"{}\",\"default\":\"{}\",\"option_vec\":\"{}\",\"collect\":\"{}\",\"fvis\":{},\"tvis\":{},\"derives\":{},\"style\":\"{}\",\"format\":{}}}",
            self.deny,
            self.default,
            self.option_vec,
            self.collect,
            self.fvis.as_ref().map(|x| esc(x)).unwrap_or("null".into()),
            esc(&self.tvis),
            self.derives.as_ref().map(|x| esc(x)).unwrap_or("null".into()),
            self.style,
            self.format.as_ref().map(|x| esc(x)).unwrap_or("null".into()),
        )
    }
    fn read(s: &str, name: &str) -> Option<RO> {
        let Ref::Ok(Val::Obj(f)) = jparse(s.as_bytes()) else { return None };
        let g = |k: &str| match f.iter().find(|x| x.0 == k) {
            Some((_, Val::Str(s))) => Some(s.clone()),
            _ => None,
        };
        let b = |k: &str| g(k).as_deref() == Some("true");
        Some(RO {
            deny: b("deny"),
            default: b("default"),
            option_vec: b("option_vec"),
            collect: b("collect"),
            fvis: g("fvis"),
            name: name.into(),
            tvis: g("tvis")?,
            derives: g("derives"),
            style: g("style")?.parse().ok()?,
            format: g("format"),
        })
    }
    fn root(&self) -> &str {
        match self.tvis.as_str() {
            "" => &self.name,
            v => self.name.strip_prefix(v).map(|x| x.trim_start()).unwrap_or(&self.name),
        }
    }
}

/// `Default::default()` of a struct that boxes itself without an Option would not terminate.
fn default_terminates(m: &Module) -> Result<(), String> {
    let by: HashMap<&str, &Decl> = m.decls.iter().map(|d| (d.name.as_str(), d)).collect();
    fn needs<'a>(t: &'a L, out: &mut Vec<&'a str>) {
        match t {
            L::Ref(n) => out.push(n),
            L::Boxed(x) => needs(x, out),
            L::Tup(v) => v.iter().for_each(|x| needs(x, out)),
            _ => {}
        }
    }
    fn visit<'a>(n: &'a str, by: &HashMap<&'a str, &'a Decl>, st: &mut HashMap<&'a str, u8>) -> Result<(), String> {
        match st.get(n) {
            Some(1) => return Err(format!("the default value of {} contains itself", n)),
            Some(_) => return Ok(()),
            None => {}
        }
        st.insert(n, 1);
        if let Some(d) = by.get(n) {
            let mut v = vec![];
            d.members.iter().for_each(|x| needs(&x.ty, &mut v));
            for k in v {
                visit(k, by, st)?;
            }
        }
        st.insert(n, 2);
        Ok(())
    }
    let mut st = HashMap::new();
    m.decls.iter().try_for_each(|d| visit(&d.name, &by, &mut st))
}

fn last(p: &str) -> &str {
    p.rsplit("::").next().unwrap()
}

pub fn judge18(run: &Run, o: &RO, r: &R, text: &str) {
    let opts = o.opts();
    let c = Case { kind: "rust-options".into(), name: o.name.clone(), input: text.into(), opts, mode: "rust".into(), extra: o.extra() };
    let code = match imp::generate(run, &c) {
        Err(p) => return run.violation("panic", p, c),
        Ok(Err(e)) => return run.violation("rejected", format!("a well-formed sample is rejected: {}", e), c),
        Ok(Ok(s)) => s,
    };
    run.valid();
    let root = o.root();
    let style = STYLES[o.style as usize].1;
    let m = match lang::parse(Lang::Rust, &code, root, style) {
        Err(e) => return run.violation("unreadable", format!("{}\n{}", e, code), c),
        Ok(m) => m,
    };
    let sem = Sem { use_default: o.default, option_vec: o.option_vec };
    if let Err(e) = lang::denotes(Lang::Rust, &m, root, r, sem) {
        return run.violation("type", format!("{}\nexpected {:?}\n{}", e.msg, r, code), c);
    }
    let mut bad = |key: &str, msg: String| run.violation(key, format!("{}\n{}", msg, code), c.clone());
    let tvis = if o.tvis.is_empty() { "pub" } else { &o.tvis };
    let fvis = o.fvis.as_deref().unwrap_or("pub");
    let derives: Vec<String> = o
        .derives
        .as_deref()
        .unwrap_or("Default, Debug, Clone, PartialEq, serde_derive::Serialize, serde_derive::Deserialize")
        .split(',')
        .map(|x| x.trim())
        .filter(|x| !x.is_empty())
        .map(|x| if style == Style::Qualified { x.to_string() } else { last(x).to_string() })
        .collect();
    if style == Style::Add {
        for d in o.derives.as_deref().unwrap_or("serde_derive::Serialize,serde_derive::Deserialize").split(',').map(|x| x.trim()).filter(|x| x.contains("::")) {
            if !m.decls.is_empty() && !m.imports.iter().any(|i| i == d) {
                return bad("derive-import", format!("{} is not imported", d));
            }
        }
    }
    for (v, n, _) in &m.aliases {
        if v != tvis {
            return bad("type-visibility", format!("type {} has visibility {:?}, not {:?}", n, v, tvis));
        }
    }
    for d in &m.decls {
        if d.vis != tvis {
            return bad("type-visibility", format!("struct {} has visibility {:?}, not {:?}", d.name, d.vis, tvis));
        }
        if d.derives != derives {
            return bad("derives", format!("struct {} derives {:?}, not {:?}", d.name, d.derives, derives));
        }
        let has = |a: &str| d.attrs.iter().filter(|x| *x == a).count();
        if has("deny_unknown_fields") != o.deny as usize {
            return bad("deny-unknown", format!("deny_unknown_fields on {}: {}", d.name, !o.deny));
        }
        if has("default") != o.default as usize {
            return bad("default", format!("default on {}: {}", d.name, !o.default));
        }
        if d.attrs.iter().any(|a| a != "default" && a != "deny_unknown_fields" && !(o.format.is_some() && a.starts_with("rename_all="))) {
            return bad("attribute", format!("unexpected attributes on {}: {:?}", d.name, d.attrs));
        }
        if d.extra.is_some() != o.collect {
            return bad("collect", format!("{}: catch-all member is {:?}", d.name, d.extra));
        }
        if let Some((_, t)) = &d.extra {
            if *t != L::Map(Box::new(L::Any)) {
                return bad("collect", format!("{}: catch-all member has type {:?}", d.name, t));
            }
        }
        for x in &d.members {
            if x.vis != fvis {
                return bad("field-visibility", format!("{}.{} has visibility {:?}, not {:?}", d.name, x.ident, x.vis, fvis));
            }
        }
    }
    if o.default {
        if let Err(e) = default_terminates(&m) {
            bad("endless-default", e);
        }
    }
}

fn vis_names() -> Vec<(&'static str, &'static str)> {
    vec![("Root", ""), ("pub Root", "pub"), ("pub(crate) Root", "pub(crate)"), ("pub(in crate::a) Root", "pub(in crate::a)")]
}

const DERIVES: [&str; 5] = ["Debug", "", "Debug, Clone, serde_derive::Deserialize", "serde::Serialize,serde::Deserialize", "Clone , a::b::C"];

fn combo(i: u64) -> RO {
    let d = digits(i, 2, 4);
    let j = i / 16;
    let n = vis_names();
    let (name, tvis) = n[(j % 4) as usize];
    let j = j / 4;
    let fvis = [None, Some(""), Some("pub(crate)"), Some("pub(in crate::a)")][(j % 4) as usize];
    let j = j / 4;
    let derives = (j % 6 > 0).then(|| DERIVES[(j % 6 - 1) as usize].to_string());
    let j = j / 6;
    let format = [None, Some("camelCase"), Some("snake_case")][(j / 3 % 3) as usize];
    RO {
        deny: d[0] == 1,
        default: d[1] == 1,
        option_vec: d[2] == 1,
        collect: d[3] == 1,
        fvis: fvis.map(|x| x.to_string()),
        name: name.into(),
        tvis: tvis.into(),
        derives,
        style: (j % 3) as u8,
        format: format.map(|x| x.to_string()),
    }
}
const COMBOS: u64 = 16 * 4 * 4 * 6 * 3 * 3;

pub fn c18(run: &Run) {
    // every combination of options on a few documents that use everything
    let docs = [
        Val::Null,
        int(),
        obj(&[]),
        arr(&[obj(&[]), obj(&[("aB", arr(&[int()])), ("b", Val::Null)])]),
        arr(&[obj(&[("x y", arr(&[int(), st()])), ("c", obj(&[("d", int())]))]), obj(&[("c", Val::Null)])]),
        obj(&[("additional_fields", int()), ("serialize", obj(&[("a", flt())])), ("deserialize", arr(&[obj(&[("b", flt())])]))]),
        obj(&[("debug", obj(&[("a", flt())])), ("clone", obj(&[("b", flt())])), ("C", obj(&[("c", Val::Null)]))]),
    ];
    run.each(COMBOS, |i| {
        let o = combo(i);
        run.state(&o.opts());
        for d in &docs {
            run.doc();
            run.step(d.nodes());
            judge18(run, &o, &infer(d), &d.text());
        }
    });
    run.count("family: all option combinations x 7 documents", COMBOS * docs.len() as u64);
    // the behavioural options on all small documents
    let u = Universe::new(if run.thorough { 7 } else { 6 });
    let n = u.total();
    let un = if run.thorough { 7 } else { 6 };
    let fams = vec![Family::new(&format!("all documents with <={} nodes", un), n, move |i| u.nth(i)), rows(if run.thorough { 4 } else { 3 }), tuples(2, 3)];
    for f in fams {
        run.each(f.n, |i| {
            let d = (f.get)(i);
            let r = infer(&d);
            let t = d.text();
            run.doc();
            run.state(&r);
            for k in 0..16 {
                run.step(d.nodes());
                let mut o = combo(k);
                o.style = (i % 3) as u8;
                judge18(run, &o, &r, &t);
            }
        });
        run.count(&format!("family: {} x 16 combinations", f.name), f.n * 16);
    }
    // recursion under defaults: nested objects whose members may be absent
    let leaf = [obj(&[]), obj(&[("a", Val::Null)]), arr(&[]), Val::Null];
    let k = if run.thorough { 5 } else { 4 };
    run.each(8u64.pow(k) * 4, |i| {
        let mut d = leaf[(i % 4) as usize].clone();
        for s in digits(i / 4, 8, k as usize) {
            d = match s {
                0 => obj(&[("a", d)]),
                1 => arr(&[d, obj(&[])]),
                2 => obj(&[("b", d)]),
                3 => obj(&[("a", d), ("b", obj(&[]))]),
                4 => arr(&[d]),
                5 => obj(&[("a", arr(&[d.clone(), obj(&[("a", d), ("b", int())]), obj(&[])]))]),
                6 => arr(&[obj(&[("a", d)]), obj(&[("a", obj(&[]))]), obj(&[])]),
                _ => arr(&[obj(&[("a", d)]), obj(&[("a", Val::Null)]), obj(&[])]),
            };
        }
        if d.nodes() > 2000 {
            return;
        }
        let r = infer(&d);
        let t = d.text();
        run.doc();
        for k in [0, 2] {
            judge18(run, &combo(k), &r, &t);
        }
    });
    run.count(&format!("family: nestings of depth <={} of optional objects", k), 8u64.pow(k) * 8);
    // keys that coincide with names the options bring in
    let w = ["serialize", "deserialize", "Serialize", "default", "debug", "clone", "C", "c", "b", "a", "additional_fields", "additionalFields", "additional fields", "ADDITIONAL_FIELDS", "hash_map", "value", "additional_fields2"];
    let q = w.len() as u64;
    run.each(q * q * 2 * 48 * 6, |i| {
        let d = digits(i, q, 2);
        let j = i / q / q;
        let (a, b) = (w[d[0]], w[d[1]]);
        if a == b {
            return;
        }
        let doc = if j % 2 == 0 { obj(&[(a, obj(&[("x", int())])), (b, obj(&[("y", st())]))]) } else { obj(&[(a, int()), (b, arr(&[int(), st()]))]) };
        let j = j / 2;
        let mut o = combo(j % 16);
        o.style = (j / 16 % 3) as u8;
        let k = j / 48;
        o.derives = (k > 0).then(|| DERIVES[(k - 1) as usize].to_string());
        run.doc();
        judge18(run, &o, &infer(&doc), &doc.text());
    });
    run.count("family: keys equal to names from options", q * q * 2 * 48 * 6);
    run.sample(format!("{} {}", combo(7777).name, combo(7777).opts()));
}

fn format_keys(thorough: bool) -> (Vec<String>, Vec<String>) {
    let alpha: Vec<char> = "aB_-1 é".chars().collect();
    let len = if thorough { 5 } else { 4 };
    let k = alpha.len() as u64;
    let mut all: Vec<String> = (0..seq_count(k, len)).map(|i| seq_nth(k, len, i).into_iter().map(|d| alpha[d]).collect()).collect();
    // longer ones over fewer characters
    let few: Vec<char> = "aB_-1".chars().collect();
    let len = if thorough { 7 } else { 6 };
    all.extend((seq_count(5, 4)..seq_count(5, len)).map(|i| seq_nth(5, len, i).into_iter().map(|d| few[d]).collect::<String>()));
    let mut s: BTreeSet<String> = BTreeSet::new();
    for w in ["foo", "bar", "type", "a", "b1", "Ab", "ABC", "x9y", "self", "field"] {
        for v in ["baz", "X", "q2", "TYPE", "1"] {
            for sep in ["", "_", "-", " ", ".", "__", "$"] {
                let w2 = { let mut c = v.chars(); c.next().unwrap().to_uppercase().collect::<String>() + c.as_str() };
                for t in [format!("{}{}{}", w, sep, v), format!("{}{}{}", w, sep, w2), format!("_{}{}{}", w, sep, v)] {
                    s.insert(t.to_uppercase());
                    s.insert(t);
                }
            }
        }
    }
    (all, s.into_iter().collect())
}

pub fn judge25(run: &Run, l: Lang, f: &str, style: u8, doc: &Val, r: &R, more: &str) {
    let opts = format!("{{ property_name_format: \"{}\", import_style: \"{}\"{} }}", f, STYLES[style as usize].0, more);
    let c = Case { kind: "format".into(), name: "Root".into(), input: doc.text(), opts, mode: l.opt_name().into(), extra: format!("{}:{}:{}", style, f, more) };
    super::structure::check(run, l, r, &c, SEM, STYLES[style as usize].1);
}

const FMODES: [Lang; 3] = [Lang::Rust, Lang::Jackson, Lang::Kotlinx];

pub fn c25(run: &Run) {
    let (all, words) = format_keys(run.thorough);
    let vals = [int(), obj(&[("fooBar", int())]), Val::Null];
    let with = |doc: Val, style: u8, more: &str| {
        let r = infer(&doc);
        run.doc();
        for f in FORMATS {
            run.state(&(&r, f));
            for l in FMODES {
                run.step(doc.nodes());
                judge25(run, l, f, style, &doc, &r, more);
            }
        }
    };
    let go = |doc: Val, style: u8| with(doc, style, "");
    // several types, the names of all but one of them written in one way
    let key = |way: u64, i: u64| {
        let (a, b) = (["ab", "cd", "ef", "gh", "ij"][(i % 5) as usize], ["kl", "mn", "op", "qr", "st", "uv", "wx", "yz", "za"][(i / 5) as usize]);
        let up = |x: &str| x[..1].to_uppercase() + &x[1..];
        match way {
            0 => format!("{}{}", a, up(b)),
            1 => format!("{}_{}", a, b),
            2 => format!("{}-{}", a, b),
            3 => format!("{}{}", up(a), up(b)),
            4 => format!("{}_{}", a, b).to_uppercase(),
            5 => format!("{}-{}", a, b).to_uppercase(),
            6 => format!("{}{}", a, b).to_uppercase(),
            _ => format!("{}{}", a, b),
        }
    };
    let most = if run.thorough { 14 } else { 8 };
    run.each(most * most * 64 * 4, |i| {
        let (n, p) = (i % most + 1, i / most % most);
        let (base, odd) = (i / most / most % 8, i / most / most / 8 % 8);
        if p >= n || base == odd && p > 0 {
            return;
        }
        let name = |j: u64| key(if j == p { odd } else { base }, j);
        let doc = match i / most / most / 64 {
            // each in the one before, beside it, in lists, or behind a null
            0 => (0..n).rev().fold(int(), |d, j| Val::Obj(vec![(name(j), d)])),
            1 => Val::Obj((0..n).map(|j| (format!("m{}", (b'a' + j as u8) as char), Val::Obj(vec![(name(j), int())]))).collect()),
            2 => (0..n).rev().fold(st(), |d, j| Val::Obj(vec![("x".to_string(), int()), (name(j), arr(&[d]))])),
            _ => Val::Obj((0..n).map(|j| (format!("m{}", (b'a' + j as u8) as char), arr(&[Val::Obj(vec![(name(j), int()), ("y".to_string(), st())]), obj(&[])]))).collect()),
        };
        go(doc, (i % 3) as u8);
    });
    run.count(&format!("family: <={} types, the names of one written differently from the others", most), most * most * 64 * 4 * 24);
    let sizes: Vec<u64> = if run.thorough { (1..=45).collect() } else { vec![1, 2, 3, 5, 9, 17, 33, 40] };
    run.each(sizes.len() as u64 * 45 * 64, |i| {
        let (n, p) = (sizes[(i % sizes.len() as u64) as usize], i / sizes.len() as u64 % 45);
        let (base, odd) = (i / sizes.len() as u64 / 45 % 8, i / sizes.len() as u64 / 45 / 8);
        if p >= n || base == odd && p > 0 || !run.thorough && p > 3 && p + 3 < n && p % 5 != 0 {
            return;
        }
        go(Val::Obj((0..n).map(|j| (key(if j == p { odd } else { base }, j), int())).collect()), (i % 3) as u8);
    });
    run.count("family: <=45 members, the name of one written differently from the others", sizes.len() as u64 * 45 * 64 * 24);
    let mores = [", collect_additional", ", deny_unknown_fields", ", field_visibility: \"pub(crate)\"", ", derives: \"Debug\"", ", collect_additional, derives: \"Clone\"", ", infer_map_threshold: \"3\"", ", unwrap: \"\""];
    run.each(mores.len() as u64 * 64, |i| {
        let (a, b) = (key(i % 8, 0), key(i / 8 % 8, 1));
        with(Val::Obj(vec![(a, int()), (b.clone(), Val::Obj(vec![(b, arr(&[st()]))]))]), 0, mores[(i / 64) as usize]);
    });
    run.count("family: two names, under 7 other options", mores.len() as u64 * 64 * 24);
    run.each(all.len() as u64, |i| go(Val::Obj(vec![(all[i as usize].clone(), int())]), 0));
    run.count("family: all keys of length <=4 over aB_-1 é and <=6 over aB_-1, 8 formats, 3 modes", all.len() as u64 * 24);
    run.each(words.len() as u64 * 3, |i| go(Val::Obj(vec![(words[(i / 3) as usize].clone(), vals[(i % 3) as usize].clone())]), (i % 3) as u8));
    run.count("family: two-word keys in every separator and case", words.len() as u64 * 72);
    // several words, each gap spelled in its own way
    let gaps = ["_", "-", "", "__", " ", "1"];
    let longest = if run.thorough { 7 } else { 6 };
    for n in 3..=longest {
        let ways = (gaps.len() as u64).pow(n - 1);
        run.each(ways * 8, |i| {
            let d = digits(i / 8, gaps.len() as u64, n as usize - 1);
            let short = i & 4 != 0;
            let key: String = (0..n as usize)
                .map(|j| {
                    let w = if short { &["a", "b", "c", "d", "e", "f", "g"][j][..] } else { ["ab", "cd", "ef", "gh", "ij", "kl", "mn"][j] };
                    let w = match i & 3 {
                        0 => w.to_string(),
                        1 => w.to_uppercase(),
                        2 => w[..1].to_uppercase() + &w[1..],
                        _ if j == 0 => w.to_string(),
                        _ => w[..1].to_uppercase() + &w[1..],
                    };
                    if j == 0 { w } else { format!("{}{}", gaps[d[j - 1]], w) }
                })
                .collect();
            go(Val::Obj(vec![(key, int())]), (i % 3) as u8)
        });
        run.count(&format!("family: keys of {} words, each gap in one of {} ways, 4 casings", n, gaps.len()), ways * 8 * 24);
    }
    let mut small: Vec<String> = all.iter().filter(|k| k.chars().count() <= if run.thorough { 3 } else { 2 }).cloned().collect();
    small.extend(["fooBar", "foo_bar", "foo-bar", "FooBar", "FOO_BAR", "foobar", "foo bar", "type", "Type", "TYPE"].map(|x| x.to_string()));
    let n = small.len() as u64;
    run.each(n * n, |i| {
        let (a, b) = (&small[(i / n) as usize], &small[(i % n) as usize]);
        if a != b {
            go(Val::Obj(vec![(a.clone(), int()), (b.clone(), st())]), (i % 3) as u8)
        }
    });
    run.count("family: all pairs of short keys", n * n * 24);
    let w = names::colliding();
    let n = w.len() as u64;
    run.each(n * n, |i| {
        let (a, b) = (&w[(i / n) as usize], &w[(i % n) as usize]);
        if a != b {
            go(Val::Obj(vec![(a.clone(), int()), (b.clone(), st())]), 0)
        }
    });
    run.count("family: pairs of colliding names", n * n * 24);
    let sz = names::long_sizes(run.thorough);
    run.each(sz.len() as u64 * 7, |i| go(Val::Obj(vec![(names::long_name(i % 7, sz[(i / 7) as usize], (i % 4) as usize), int())]), (i % 3) as u8));
    run.count("family: long keys", sz.len() as u64 * 168);
    let odd = names::odd_chars();
    run.each(odd.len() as u64 * 3, |i| {
        let c = odd[(i / 3) as usize];
        go(Val::Obj(vec![([format!("{}", c), format!("a{}b", c), format!("a{}B", c)][(i % 3) as usize].clone(), int())]), 0)
    });
    run.count("family: keys with one odd character", odd.len() as u64 * 72);
    let reserved: Vec<String> = names::words().iter().flat_map(|w| names::variants(w)).collect();
    run.each(reserved.len() as u64, |i| go(Val::Obj(vec![(reserved[i as usize].clone(), int())]), 0));
    run.count("family: reserved words and variants", reserved.len() as u64 * 24);
    run.sample("{\"foo_bar\":1,\"fooBar\":\"s\"} with property_name_format camelCase".into());
}

// ---------------------------------------------------------------- C26

const EXT_MODES: [Lang; 4] = [Lang::Rust, Lang::Jackson, Lang::Kotlinx, Lang::Python];

fn extra_opts(l: Lang) -> Vec<String> {
    let mut v: Vec<String> = vec![String::new(), "\"\": { use_type: \"map\" }".into(), "\"/-/a\": { use_type: \"T\" }".into(), "infer_map_threshold: \"1\"".into()];
    // types given by name, two of which have the same last name
    for (p, q) in [("x::Date", "y::Date"), ("x::Value", "y::Value"), ("x::T", "y::z::T"), ("x::Optional", "x::y::Optional")] {
        {
            let (p, q) = if l == Lang::Rust { (p.to_string(), q.to_string()) } else { (p.replace("::", "."), q.replace("::", ".")) };
            v.push(format!("\"/a\": {{ use_type: \"{}\" }}, \"/b\": {{ use_type: \"{}\" }}, \"/-/a\": {{ use_type: \"{}\" }}, \"/-/b\": {{ use_type: \"{}\" }}", p, q, q, p));
        }
    }
    match l {
        Lang::Rust => v.extend(["collect_additional".to_string(), "derives: \"serde::Serialize, x::y::Z, Debug\"".into(), "derives: \"\"".into(), "use_default_for_missing_fields, deny_unknown_fields".into()]),
        Lang::Jackson => v.extend(["collect_additional".to_string(), "property_name_format: \"snake_case\"".into(), "property_name_format: \"kebab-case\", collect_additional".into()]),
        _ => {}
    }
    v
}

/// Text without import lines.
fn strip(l: Lang, s: &str) -> String {
    let mut o: Vec<&str> = s
        .lines()
        .filter(|x| match l {
            Lang::Rust => !x.starts_with("use "),
            Lang::Python => !(x.starts_with("from ") || x.starts_with("import ")),
            _ => !x.starts_with("import "),
        })
        .collect();
    while o.first().is_some_and(|x| x.trim().is_empty()) {
        o.remove(0);
    }
    o.join("\n").trim_end().to_string()
}

/// The types of a module, their names replaced by the position of the declaration.
fn norm(m: &Module) -> (Vec<(String, Vec<(String, String, bool, bool, L)>, Option<L>)>, Vec<(String, L)>, Option<L>) {
    let names: HashMap<&str, String> =
        m.decls.iter().map(|d| d.name.as_str()).chain(m.aliases.iter().map(|a| a.1.as_str())).enumerate().map(|(i, n)| (n, format!("#{}", i))).collect();
    let at = |n: &str| names.get(n).cloned().unwrap_or_else(|| n.to_string());
    let mem = |x: &Mem| (x.ident.clone(), x.wire.clone(), x.opt, x.default, renamed(&x.ty, &names));
    (
        m.decls.iter().map(|d| (at(&d.name), d.members.iter().map(mem).collect(), d.extra.clone().map(|e| e.1))).collect(),
        m.aliases.iter().map(|a| (at(&a.1), renamed(&a.2, &names))).collect(),
        m.root.as_ref().map(|r| renamed(r, &names)),
    )
}

fn renamed(t: &L, n: &HashMap<&str, String>) -> L {
    let b = |x: &L| Box::new(renamed(x, n));
    match t {
        L::Ref(x) => L::Ref(n.get(x.as_str()).cloned().unwrap_or_else(|| x.clone())),
        L::Seq(x) => L::Seq(b(x)),
        L::Map(x) => L::Map(b(x)),
        L::Nullable(x) => L::Nullable(b(x)),
        L::Opt(x) => L::Opt(b(x)),
        L::Boxed(x) => L::Boxed(b(x)),
        L::Tup(v) => L::Tup(v.iter().map(|x| renamed(x, n)).collect()),
        L::Path(p, v) => L::Path(p.clone(), v.iter().map(|x| renamed(x, n)).collect()),
        x => x.clone(),
    }
}

pub fn judge26(run: &Run, l: Lang, name: &str, text: &str, extra: &str) {
    let mut out = vec![];
    for (s, style) in STYLES {
        let opts = if extra.is_empty() { format!("{{ import_style: \"{}\" }}", s) } else { format!("{{ import_style: \"{}\", {} }}", s, extra) };
        let c = Case { kind: "imports".into(), name: name.into(), input: text.into(), opts, mode: l.opt_name().into(), extra: extra.into() };
        match imp::generate(run, &c) {
            Err(p) => return run.violation("panic", p, c),
            Ok(Err(_)) => out.push((c, None)),
            Ok(Ok(code)) => match lang::parse(l, &code, name, style) {
                Err(e) => return run.violation("unresolved", format!("{} under {}: {}\n{}", l.opt_name(), s, e, code), c),
                Ok(m) => {
                    run.valid();
                    out.push((c, Some((code, m))))
                }
            },
        }
    }
    let c = out[0].0.clone();
    let (Some((c0, m0)), Some((c1, m1)), Some((c2, m2))) = (&out[0].1, &out[1].1, &out[2].1) else {
        if out.iter().any(|x| x.1.is_some()) {
            run.violation("error-differs", "an error under one import style only".into(), c);
        }
        return;
    };
    let n0 = norm(m0);
    if n0 != norm(m1) || n0 != norm(m2) {
        return run.violation("types-differ", format!("the import styles give different types\n{}\n----\n{}\n----\n{}", c0, c1, c2), c);
    }
    run.state(&format!("{:?}", n0));
    let same_names = m0.decls.iter().zip(&m1.decls).all(|(a, b)| a.name == b.name);
    if same_names && strip(l, c0) != strip(l, c1) {
        return run.violation("assume-differs", format!("assumed imports differ from added imports in more than import lines\n{}\n----\n{}", c0, c1), c);
    }
    if strip(l, c1) != c1.trim_end() {
        return run.violation("assume-imports", format!("assumed imports still import\n{}", c1), c);
    }
    if l != Lang::Python && strip(l, c2) != c2.trim_end() {
        return run.violation("qualified-imports", format!("qualified paths still import\n{}", c2), c);
    }
    // every derive is the same trait
    for (a, b) in m0.decls.iter().zip(&m2.decls) {
        let full: Vec<String> = a
            .derives
            .iter()
            .map(|d| m0.imports.iter().find(|i| last(i) == d).cloned().unwrap_or_else(|| d.clone()))
            .collect();
        if full != b.derives {
            return run.violation("derives-differ", format!("derives {:?} and {:?}", full, b.derives), c);
        }
    }
    let mut e: Vec<Vec<String>> = [m0, m1, m2].iter().map(|m| m.externals.clone()).collect();
    if l == Lang::Rust {
        e.iter_mut().for_each(|x| x.retain(|n| n.starts_with("std::") || n.starts_with("serde_json::")));
    }
    if e[0] != e[1] || e[0] != e[2] {
        run.violation("externals-differ", format!("different external names are used: {:?}", e), c);
    }
}

pub fn c26(run: &Run) {
    let u = Universe::new(if run.thorough { 6 } else { 5 });
    let n = u.total();
    let fams = vec![Family::new("all documents of bounded size", n, move |i| u.nth(i)), rows(if run.thorough { 4 } else { 3 }), tuples(2, 2)];
    for f in fams {
        run.each(f.n, |i| {
            let d = (f.get)(i);
            let t = d.text();
            run.doc();
            for l in EXT_MODES {
                for e in extra_opts(l) {
                    run.step(d.nodes() * 3);
                    judge26(run, l, "Root", &t, &e);
                }
            }
        });
        run.count(&format!("family: {}, 3 styles x options", f.name), f.n);
    }
    // names that meet the imported ones
    let w = [
        "serialize", "deserialize", "hash_map", "value", "Z", "z", "any", "optional", "base_model", "field", "json_property", "json_naming", "serializable", "serial_name",
        "json_any_setter", "property_naming_strategies", "typing", "pydantic", "x-y", "1", "class", "debug", "list", "T", "HashMap", "std", "serde", "serde_json", "com", "kotlinx",
    ];
    let q = w.len() as u64;
    run.each(q * q * 3, |i| {
        let (f, i) = (i % 3, i / 3);
        let (a, b) = (w[(i / q) as usize], w[(i % q) as usize]);
        if a == b {
            return;
        }
        let d = match f {
            0 => obj(&[(a, obj(&[("x y", int())])), (b, arr(&[obj(&[("z", Val::Null)]), obj(&[])]))]),
            1 => obj(&[(a, Val::Null), (b, arr(&[int(), st()]))]),
            _ => arr(&[obj(&[(a, obj(&[(b, obj(&[("q", flt())]))]))]), obj(&[])]),
        };
        let t = d.text();
        run.doc();
        for l in EXT_MODES {
            for e in extra_opts(l) {
                run.step(d.nodes() * 3);
                judge26(run, l, if i % 2 == 0 { "Root" } else { "Item" }, &t, &e);
            }
        }
    });
    run.count("family: pairs of keys named like external names", q * q * 3);
    run.sample("[{\"a\":null}] in rust, kotlin, python under add_imports / assume_existing / qualified_paths".into());
}

pub fn replay(run: &Run, c: &Case) {
    let Some(l) = Lang::from_name(&c.mode) else { return };
    match c.kind.as_str() {
        "rust-options" => {
            if let (Some(o), Ref::Ok(v)) = (RO::read(&c.extra, &c.name), jparse(c.input.as_bytes())) {
                judge18(run, &o, &infer(&v), &c.input)
            }
        }
        "format" => {
            let x: Vec<&str> = c.extra.splitn(3, ':').collect();
            if let ([s, f, more], Ref::Ok(v)) = (&x[..], jparse(c.input.as_bytes())) {
                judge25(run, l, f, s.parse().unwrap_or(0), &v, &infer(&v), more)
            }
        }
        _ => judge26(run, l, &c.name, &c.input, &c.extra),
    }
}

/// Options under which generated Rust code is compiled (see `export`).
pub fn export_options() -> Vec<(String, Sem, Style)> {
    let mut v = vec![];
    for i in 0..16u64 {
        for style in 0..3u8 {
            for derives in [None, Some("Default,Debug, Clone ,PartialEq,serde_derive::Serialize, serde_derive::Deserialize")] {
                for fvis in [None, Some("")] {
                    let mut o = combo(i);
                    o.style = style;
                    o.derives = derives.map(|x| x.to_string());
                    o.fvis = fvis.map(|x| x.to_string());
                    v.push((o.opts(), Sem { use_default: o.default, option_vec: o.option_vec }, STYLES[style as usize].1));
                }
            }
        }
    }
    v
}

pub fn export_styles(l: Lang) -> Vec<(String, Sem, Style)> {
    let mut v = vec![];
    for (name, style) in STYLES {
        for x in extra_opts(l).into_iter().filter(|x| !["use_type", "derives", "use_default", "threshold"].iter().any(|w| x.contains(w))) {
            let comma = if x.is_empty() { "" } else { ", " };
            v.push((format!("{{ import_style: \"{}\"{}{} }}", name, comma, x), SEM, style));
        }
        v.push((format!("{{ import_style: \"{}\", infer_map_threshold: \"0\" }}", name), SEM, style));
    }
    v
}
