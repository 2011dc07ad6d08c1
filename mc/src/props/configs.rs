//! C14 (unwrap), C15 (hints), C16 (map threshold): requests described by a small specification from
//! which both the options text and the expected type are derived.
use crate::consts;
use crate::drive::{Case, Run};
use crate::gen_::{Universe, digits, long_arrays, long_objects, rows, seq_count, seq_nth};
use crate::imp;
use crate::json::{Ref, Val, esc, parse as jparse, *};
use crate::lang::{self, ALL, Lang, SEM, Style};
use crate::model::{H, R, join, mark_hints, mark_threshold, select};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Spec {
    pub unwrap: Option<Vec<String>>,
    pub hints: Vec<(Vec<String>, H)>,
    pub lim: Option<usize>,
}

pub enum Want {
    Type(R),
    Error,
    Skip,
}

fn ptr(t: &[String]) -> String {
    t.iter().map(|x| format!("/{}", x)).collect()
}

impl Spec {
    pub fn opts(&self) -> String {
        let mut o = vec![];
        if let Some(u) = &self.unwrap {
            o.push(format!("unwrap: {}", esc(&ptr(u))));
        }
        for (p, h) in &self.hints {
            let t = match h {
                H::Map => "map".to_string(),
                H::Opaque(t) => t.clone(),
            };
            o.push(format!("{}: {{ use_type: {} }}", esc(&ptr(p)), esc(&t)));
        }
        if let Some(l) = self.lim {
            o.push(format!("infer_map_threshold: \"{}\"", l));
        }
        if o.is_empty() { String::new() } else { format!("{{ {} }}", o.join(", ")) }
    }
    /// The values whose join is generated, with maps and opaque values marked.
    pub fn selected(&self, doc: &Val) -> Result<Vec<Val>, ()> {
        let root = vec![];
        let mut out = vec![];
        select(doc, self.unwrap.as_ref().unwrap_or(&root), &mut out);
        if out.is_empty() {
            return Err(());
        }
        out.into_iter()
            .map(|v| {
                let v = match self.lim {
                    Some(l) => mark_threshold(v, l),
                    None => v.clone(),
                };
                mark_hints(&v, &self.hints)
            })
            .collect()
    }
    pub fn want(&self, doc: &Val) -> Want {
        match self.selected(doc) {
            Err(()) => Want::Error,
            Ok(vs) => {
                let r: Vec<&Val> = vs.iter().collect();
                if self.lim.is_some() || !self.hints.is_empty() {
                    if ambiguous(&r, self.lim) {
                        return Want::Skip;
                    }
                }
                Want::Type(join(&r))
            }
        }
    }
    fn text(&self) -> String {
        let mut s = vec![];
        if let Some(u) = &self.unwrap {
            s.push(format!("[\"unwrap\",{}]", u.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")).replace(",]", "]"));
        }
        for (p, h) in &self.hints {
            let t = match h {
                H::Map => "map".into(),
                H::Opaque(t) => t.clone(),
            };
            s.push(format!("[\"hint\",{}]", std::iter::once(&t).chain(p).map(|x| esc(x)).collect::<Vec<_>>().join(",")));
        }
        if let Some(l) = self.lim {
            s.push(format!("[\"lim\",\"{}\"]", l));
        }
        format!("[{}]", s.join(","))
    }
    fn read(s: &str) -> Option<Spec> {
        let Ref::Ok(Val::Arr(a)) = jparse(s.as_bytes()) else { return None };
        let mut o = Spec::default();
        for x in a {
            let Val::Arr(x) = x else { return None };
            let x: Vec<String> = x.iter().map(|v| if let Val::Str(s) = v { s.clone() } else { String::new() }).collect();
            match x[0].as_str() {
                "unwrap" => o.unwrap = Some(x[1..].to_vec()),
                "hint" => o.hints.push((x[2..].to_vec(), if x[1] == "map" { H::Map } else { H::Opaque(x[1].clone()) })),
                _ => o.lim = x[1].parse().ok(),
            }
        }
        Some(o)
    }
}

/// Positions at which the property leaves the result open: a map joined with a structured object, an
/// object that exceeds the threshold only by joining, an opaque type joined with conflicting values.
pub fn ambiguous(vals: &[&Val], lim: Option<usize>) -> bool {
    let mut objs: Vec<&Vec<(String, Val)>> = vec![];
    let mut maps: Vec<&Val> = vec![];
    let mut nmaps = 0;
    let mut elems: Vec<&Val> = vec![];
    let mut opq: Vec<&str> = vec![];
    let mut kinds = 0u8;
    for v in vals {
        kinds |= match v {
            Val::Null => 0,
            Val::Bool(_) => 1,
            Val::Num(_) => 2,
            Val::Str(_) => 4,
            Val::Arr(a) => {
                elems.extend(a);
                8
            }
            Val::Obj(f) => {
                objs.push(f);
                16
            }
            Val::MapObj(f) => {
                maps.extend(f.iter().map(|x| &x.1));
                nmaps += 1;
                32
            }
            Val::Opq(t) => {
                opq.push(t);
                0
            }
        };
    }
    if nmaps > 0 && !objs.is_empty() {
        return true;
    }
    opq.sort();
    opq.dedup();
    if opq.len() > 1 || (!opq.is_empty() && kinds.count_ones() > 1) {
        return true;
    }
    let mut keys: std::collections::BTreeMap<&str, Vec<&Val>> = Default::default();
    for o in &objs {
        for (k, v) in o.iter() {
            keys.entry(k).or_default().push(v);
        }
    }
    if lim.is_some_and(|l| keys.len() > l) {
        return true;
    }
    (!maps.is_empty() && ambiguous(&maps, lim))
        || (!elems.is_empty() && ambiguous(&elems, lim))
        || keys.values().any(|v| ambiguous(v, lim))
}

/// Checks one request in one mode.
pub fn judge(run: &Run, l: Lang, want: &Want, c: &Case) {
    match want {
        Want::Skip => {}
        Want::Type(r) => {
            super::structure::check(run, l, r, c, SEM, Style::Add);
        }
        Want::Error => match imp::generate(run, c) {
            Err(p) => run.violation("panic", p, c.clone()),
            Ok(Ok(s)) => run.violation("accepted", format!("an error is expected, but code is generated:\n{}", s), c.clone()),
            Ok(Err(_)) => run.valid(),
        },
    }
}

pub fn request(run: &Run, langs: &[Lang], doc: &Val, text: &str, spec: &Spec, opts: &str) -> bool {
    let want = spec.want(doc);
    if let Want::Skip = want {
        return false;
    }
    run.doc();
    run.step(doc.nodes() * langs.len());
    if let Want::Type(r) = &want {
        run.state(r);
    }
    for l in langs {
        let c = Case {
            kind: "spec".into(),
            name: "Root".into(),
            input: text.into(),
            opts: opts.into(),
            mode: l.opt_name().into(),
            extra: spec.text(),
        };
        judge(run, *l, &want, &c);
    }
    true
}

const STAND_IN: &str = "Qzqz";

/// The type named in a hint appears in the code as it was written, in every place, whatever its form:
/// the code is that for a plain name with the type in its place.
fn form_check(run: &Run, l: Lang, c: &Case) {
    let form = &c.extra;
    let base = Case { opts: c.opts.replace(&format!("use_type: {}", esc(form)), &format!("use_type: {}", esc(STAND_IN))), ..c.clone() };
    let (got, plain) = match (imp::generate(run, c), imp::generate(run, &base)) {
        (Ok(Ok(a)), Ok(Ok(b))) => (a, b),
        (Err(p), _) | (_, Err(p)) => return run.violation("panic", p, c.clone()),
        (Ok(Err(e)), _) | (_, Ok(Err(e))) => return run.violation("rejected", format!("a hint with the type {} is rejected: {}", form, e), c.clone()),
    };
    let text = if matches!(l, Lang::Schema | Lang::Shape) { crate::json::esc(form)[1..].strip_suffix('"').unwrap().to_string() } else { form.clone() };
    // in TypeScript, `[]` binds tighter than the operators of types
    let mut depth = 0;
    let mut operator = form.starts_with("keyof ") || form.contains("=>");
    for c in form.chars() {
        match c {
            '(' | '[' | '{' | '<' => depth += 1,
            ')' | ']' | '}' | '>' => depth -= 1,
            '|' | '&' if depth == 0 => operator = true,
            _ => {}
        }
    }
    let mut want = vec![];
    if l == Lang::Ts {
        want.push(plain.replace(&format!("{}[]", STAND_IN), &format!("({})[]", text)).replace(STAND_IN, &text));
    }
    if l != Lang::Ts || !operator || !plain.contains(&format!("{}[]", STAND_IN)) {
        want.push(plain.replace(STAND_IN, &text));
    }
    if !plain.contains(STAND_IN) {
        return run.violation("hint-lost", format!("{} output does not name the hinted type\n{}", l.opt_name(), plain), base);
    }
    if !want.contains(&got) {
        return run.violation("hint-form", format!("{} output does not hold the type {} as written\nexpected:\n{}\ngenerated:\n{}", l.opt_name(), form, want[0], got), c.clone());
    }
    run.valid();
}

fn forms(run: &Run) {
    let fs = [
        "java.time.Instant", "a::b::C", "crate::x::Y", "::std::time::Duration", "Vec<T>", "Foo<a::B, C<D>>", "chrono::DateTime<chrono::Utc>",
        "&'static str", "[u8; 16]", "(A, B)", "T?", "kotlin.collections.List<a.B?>", "Literal[\"a\", \"b\"]", "datetime.datetime", "X | Y",
        "'a' | 'b'", "\"a\" | \"b\"", "A & B", "keyof T", "typeof x", "T[]", "(A | B)[]", "[A, B]", "{ x: number }", "() => void",
        "z.date()", "z.union([a, b])", "Schema.optional()", "T.t", "lower", "UPPER", "snake_case", "camelCase", "kebab-case", "with space", "_", "T1",
        "1", "1.5", "true", "null", "string", "integer", "number", "object", "array", "any", "optional", "nullable", "Map", "maps", "mapper", "MAP",
        "bool", "i64", "String", "Vec", "Option<T>", "Box<T>", "HashMap", "Value", "Any", "any", "unknown", "List", "int", "float", "str", "list[T]",
        "Optional[T]", "Pair<A, B>", "é", "типы::Тип", "日本", "\u{1f600}", "a\\b", "a/b", "a~1b", "#/definitions/a", "r#type", "$T", "%s", "{}", "{0}", "{{}}", "\\1", "$1",
        "x", "X", "serde_json::Value", "std::collections::HashMap<String, T>", "T;", "T,", "/* c */ T", "T // c", "-", "0", "use_type", "values",
    ];
    let t = |p: &[&str]| strs(p);
    let places: Vec<(Val, Vec<String>)> = vec![
        (int(), t(&[])),
        (obj(&[("x", int())]), t(&["x"])),
        (arr(&[int()]), t(&["-"])),
        (arr(&[int(), st()]), t(&["1"])),
        (obj(&[("x", arr(&[int(), int()]))]), t(&["x", "-"])),
        (arr(&[obj(&[("x", int()), ("y", st())]), obj(&[("y", st())])]), t(&["-", "x"])),
        (arr(&[obj(&[("x", int())]), obj(&[("x", Val::Null)])]), t(&["-", "x"])),
        (obj(&[("x", arr(&[arr(&[int()])]))]), t(&["x", "-", "-"])),
        (obj(&[("x", arr(&[int(), Val::Null]))]), t(&["x", "0"])),
        (obj(&[("x", obj(&[("y", int()), ("z", st())]))]), t(&["x"])),
        (obj(&[("xs", arr(&[obj(&[("y", int())]), obj(&[("y", int()), ("z", int())])])), ("w", arr(&[int(), st(), obj(&[("q", int())])]))]), t(&["w", "2"])),
    ];
    let more = ["", "import_style: \"qualified_paths\"", "import_style: \"assume_existing\"", "use_default_for_missing_fields: true", "property_name_format: \"snake_case\""];
    let n = fs.len() * places.len() * more.len();
    run.each(n as u64, |i| {
        let i = i as usize;
        let (m, i) = (more[i % more.len()], i / more.len());
        let (p, f) = (&places[i % places.len()], fs[i / places.len()]);
        run.doc();
        for l in ALL {
            run.step(1);
            let s = Spec { hints: vec![(p.1.clone(), H::Opaque(f.into()))], ..Default::default() };
            let mut opts = s.opts();
            if !m.is_empty() {
                opts = opts.replacen("{ ", &format!("{{ {}, ", m), 1);
            }
            form_check(run, l, &Case { kind: "form".into(), name: "Root".into(), input: p.0.text(), opts, mode: l.opt_name().into(), extra: f.into() });
        }
    });
    run.count(&format!("family: {} written forms of types x {} places x {} options", fs.len(), places.len(), more.len()), n as u64);
}

pub fn replay(run: &Run, c: &Case) {
    if c.kind == "form" {
        return form_check(run, Lang::from_name(&c.mode).unwrap(), c);
    }
    let Some(spec) = Spec::read(&c.extra) else { return };
    let l = Lang::from_name(&c.mode).unwrap();
    let want = match jparse(c.input.as_bytes()) {
        Ref::Ok(v) => spec.want(&v),
        _ => Want::Error,
    };
    judge(run, l, &want, c);
}

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

fn pointers(tokens: &[&str], depth: usize) -> Vec<Vec<String>> {
    let k = tokens.len() as u64;
    (0..seq_count(k, depth))
        .map(|i| seq_nth(k, depth, i).into_iter().map(|d| tokens[d].to_string()).collect::<Vec<_>>())
        // a single empty token would be written "/", which denotes the root here
        .filter(|p: &Vec<String>| !(p.len() == 1 && p[0].is_empty()))
        .collect()
}

fn leaves() -> Vec<Val> {
    vec![Val::Null, int(), flt(), st()]
}

/// Long arrays of integers with one string, and long objects likewise: pointers to places near the ends,
/// near the string and at round positions.
fn far(run: &Run, spec: &(dyn Fn(Vec<String>) -> Vec<Spec> + Sync)) {
    let k = consts::scan();
    let mut lens: Vec<usize> = vec![17, 30, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513, 1000, 1001, 1024, 1025];
    lens.extend(k.ints.iter().copied().filter(|n| (16..=300).contains(n)));
    if run.thorough {
        lens.extend([2047, 2048, 2049, 4096, 4097, 10001, 65535, 65536, 65537]);
    }
    lens.sort();
    lens.dedup();
    let mut todo = vec![];
    for n in lens {
        let mut at = vec![0, 1, n / 2, n - 2, n - 1];
        at.extend([31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 511, 512, 999, 1000].iter().filter(|x| **x < n));
        at.dedup();
        for p in at.iter().copied() {
            for w in 0..4u8 {
                todo.push((n, p, at.clone(), w));
            }
        }
    }
    run.each(todo.len() as u64, |i| {
        let (n, p, at, w) = &todo[i as usize];
        let el = |j: usize| {
            let v = if j == *p { st() } else { int() };
            if w & 1 == 0 { v } else { obj(&[("x", v)]) }
        };
        let doc = if w & 2 == 0 {
            Val::Arr((0..*n).map(el).collect())
        } else {
            Val::Obj((0..*n).map(|j| (format!("{}", j), el(j))).collect())
        };
        let text = doc.text();
        let mut ps = vec![strs(&["-"]), vec![n.to_string()], vec![(n + 1).to_string()], vec![(p + 256).to_string()], vec![(p + 65536).to_string()], vec![format!("{}", *p as u128 + (1 << 64))]];
        for j in at {
            if j.abs_diff(*p) > 1 && *j != 0 && *j + 1 != *n {
                continue;
            }
            ps.push(vec![j.to_string()]);
        }
        if w & 1 == 1 {
            for q in ps.clone() {
                ps.push(q.into_iter().chain(["x".to_string()]).collect());
            }
        }
        for q in ps {
            for s in spec(q) {
                request(run, &[Lang::Shape], &doc, &text, &s, &s.opts());
            }
        }
    });
    run.count("family: long arrays and objects, pointers to places near the ends, a deviant and round positions", todo.len() as u64);
    // deep chains: pointers of every length
    let depths: Vec<usize> = if run.thorough { (1..=150).collect() } else { (1..=36).chain([50, 63, 64, 65, 100, 127, 128, 129]).collect() };
    let mut todo = vec![];
    for d in depths {
        for pat in 0..8u32 {
            for cut in 0..=d {
                if cut > 3 && cut + 3 < d && ![8, 16, 31, 32, 33, 63, 64, 65].contains(&cut) {
                    continue;
                }
                todo.push((d, pat, cut));
            }
        }
    }
    run.each(todo.len() as u64, |i| {
        let (d, pat, cut) = todo[i as usize];
        let mut doc = int();
        for l in (0..d).rev() {
            doc = if pat >> (l % 3) & 1 == 0 { arr(&[doc]) } else { Val::Obj(vec![("a".into(), doc), ("z".into(), st())]) };
        }
        let text = doc.text();
        for wild in [false, true] {
            let q: Vec<String> = (0..cut)
                .map(|l| match (wild, pat >> (l % 3) & 1) {
                    (true, _) => "-".to_string(),
                    (_, 0) => "0".into(),
                    _ => "a".into(),
                })
                .collect();
            for s in spec(q) {
                request(run, &[Lang::Shape], &doc, &text, &s, &s.opts());
            }
        }
    });
    run.count("family: deep chains, pointers of many lengths", todo.len() as u64 * 2);
}

/// Names of members that a careless comparison takes for one another, and names that mean something in
/// other kinds of paths.
const CONFUSABLE: [&str; 47] = [
    "", "a", "A", "aa", "ab", "b", " a", "a ", "a\t", "\ta", "a\u{a0}", "a\u{feff}", "a\u{200b}", "a\n", "a\r", "\u{e1}", "a\u{301}", "\u{c1}", "\u{ff41}", "\u{130}", "i", "\u{df}", "ss", "0", "00", "1", "01", "+1", "-1",
    "1.0", "-", "--", "- ", "_", "*", "#", "$", "~", "~0", "~1", "%61", "\\a", "a.b", "\"a\"", "\u{1f600}", "\u{1f601}", " ",
];

fn confusable(run: &Run, spec: &(dyn Fn(Vec<String>, Option<Vec<String>>) -> Vec<Spec> + Sync)) {
    let n = CONFUSABLE.len() as u64;
    run.each(n * n, |i| {
        let (k1, k2) = (CONFUSABLE[(i / n) as usize], CONFUSABLE[(i % n) as usize]);
        if k1 == k2 {
            return;
        }
        let two = obj(&[(k1, int()), (k2, st())]);
        let docs = [
            (vec![], two.clone()),
            (vec!["-"], arr(&[two.clone(), obj(&[(k2, int())])])),
            (vec![k1], obj(&[(k1, two.clone()), (k2, obj(&[(k1, st()), (k2, int())]))])),
        ];
        for (pre, doc) in docs {
            let text = doc.text();
            for k in CONFUSABLE {
                let mut p = strs(&pre);
                p.push(k.to_string());
                if p == [""] {
                    continue; // "/" denotes the root
                }
                let other = (k == k1 && (k2, &pre[..]) != ("", &[])).then(|| {
                    let mut p = strs(&pre);
                    p.push(k2.to_string());
                    p
                });
                let langs = if k == k1 && pre.is_empty() { &ALL[..] } else { &[Lang::Shape][..] };
                for s in spec(p, other) {
                    request(run, langs, &doc, &text, &s, &s.opts());
                }
            }
        }
    });
    run.count("family: pairs of easily confused names of members x every one of them as a token", 3 * n * n * n);
}

pub fn c14(run: &Run) {
    let universes: [(&str, &str, &[&str]); 3] = [("a", "b", &["a", "b", "-", "0", "1"]), ("1", "", &["1", "", "-", "0"]), ("-", "0", &["-", "0", "00", "1"])];
    for (k1, k2, toks) in universes {
        let big = if run.thorough { 7 } else { 5 };
        let u = Universe::with(big, leaves(), k1, k2);
        let ps = pointers(toks, 3);
        let opts: Vec<(Spec, String)> = ps.iter().map(|p| Spec { unwrap: Some(p.clone()), ..Default::default() }).map(|s| (s.clone(), s.opts())).collect();
        run.each(u.total(), |i| {
            let doc = u.nth(i);
            let text = doc.text();
            let small = doc.nodes() <= if run.thorough { 5 } else { 4 };
            for (s, o) in &opts {
                let n = s.unwrap.as_ref().unwrap().len();
                let langs = if small && n <= 2 { &ALL[..] } else { &[Lang::Shape][..] };
                request(run, langs, &doc, &text, s, o);
            }
        });
        run.count(&format!("family: documents <={} nodes over keys {:?},{:?}, pointers <=3 tokens", big, k1, k2), u.total() * ps.len() as u64);
    }
    // a single selected value: the very same output as for that value alone
    let u = Universe::with(4, leaves(), "a", "b");
    let ps = pointers(&["a", "b", "0", "1", "2"], 2);
    run.each(u.total(), |i| {
        let doc = u.nth(i);
        for p in &ps {
            let spec = Spec { unwrap: Some(p.clone()), ..Default::default() };
            let mut sel = vec![];
            select(&doc, p, &mut sel);
            if sel.len() != 1 {
                continue;
            }
            for l in ALL {
                let c = Case { kind: "spec".into(), name: "Root".into(), input: doc.text(), opts: spec.opts(), mode: l.opt_name().into(), extra: spec.text() };
                let d = Case { kind: "doc".into(), input: sel[0].text(), opts: String::new(), ..c.clone() };
                let (a, b) = (imp::generate(run, &c), imp::generate(run, &d));
                run.valid();
                if a != b {
                    run.violation("unwrapped-differs", format!("unwrapping gives\n{:?}\nthe selected value alone gives\n{:?}", a, b), c);
                }
            }
        }
    });
    run.count("family: single selections compared byte for byte", u.total() * ps.len() as u64);
    // long arrays: every index
    let k = consts::scan();
    let f = long_arrays(16, &k.ints.iter().copied().filter(|n| *n < 70).collect::<Vec<_>>());
    run.each(f.n, |i| {
        let doc = (f.get)(i);
        let text = doc.text();
        let n = if let Val::Arr(a) = &doc { a.len() } else { 0 };
        let mut ps: Vec<Vec<String>> = vec![strs(&["-"]), strs(&["-", "0"]), strs(&["-", "-"]), strs(&["-", "x"]), strs(&["1", "12"])];
        for j in 0..=n.min(15) {
            ps.push(vec![j.to_string()]);
        }
        for j in [n.saturating_sub(1), n] {
            ps.push(vec![j.to_string()]);
        }
        for p in ps {
            let s = Spec { unwrap: Some(p), ..Default::default() };
            request(run, &[Lang::Shape], &doc, &text, &s, &s.opts());
        }
    });
    run.count(&format!("family: {} x every index", f.name), f.n);
    far(run, &|q| vec![Spec { unwrap: Some(q), ..Default::default() }]);
    confusable(run, &|q, _| vec![Spec { unwrap: Some(q), ..Default::default() }]);
    // unwrap together with hints (relative to the selected node) and a threshold
    let u = Universe::with(if run.thorough { 5 } else { 4 }, leaves(), "a", "b");
    let up = pointers(&["a", "-", "0"], 2);
    let hp = pointers(&["a", "-", "0"], 2);
    run.each(u.total(), |i| {
        let doc = u.nth(i);
        let text = doc.text();
        for p in &up {
            if p.is_empty() {
                continue;
            }
            for q in &hp {
                for h in [H::Map, H::Opaque("T".into())] {
                    let s = Spec { unwrap: Some(p.clone()), hints: vec![(q.clone(), h)], lim: None };
                    request(run, &[Lang::Shape, Lang::Rust], &doc, &text, &s, &s.opts());
                }
            }
            for lim in 0..3 {
                let s = Spec { unwrap: Some(p.clone()), hints: vec![], lim: Some(lim) };
                request(run, &[Lang::Shape, Lang::Zod, Lang::Alias], &doc, &text, &s, &s.opts());
            }
        }
    });
    run.count("family: unwrap with hint or threshold", u.total());
    // the whole sample must be well-formed, whatever is selected
    let u = Universe::with(4, vec![int(), st()], "a", "b");
    let ps = pointers(&["a", "b", "-", "0", "1"], 2);
    let ps: Vec<&Vec<String>> = ps.iter().filter(|p| !p.is_empty()).collect();
    run.each(u.total(), |i| {
        let doc = u.nth(i);
        let text = doc.text();
        let b = text.as_bytes();
        let mut edits: Vec<String> = vec![];
        for j in 0..b.len() {
            edits.push(format!("{}{}", &text[..j], &text[j + 1..]));
            for r in ["]", "}", ",", ":", "x", "0", "\"", "[", "{"] {
                edits.push(format!("{}{}{}", &text[..j], r, &text[j + 1..]));
                edits.push(format!("{}{}{}", &text[..j], r, &text[j..]));
            }
            edits.push(text[..j].to_string());
        }
        for e in ["]", "}", ",", "1", "x", "{}"] {
            edits.push(format!("{}{}", text, e));
        }
        for t in edits {
            if !imp::inline(t.as_bytes()) {
                continue;
            }
            let r = jparse(t.as_bytes());
            let full = match &r {
                Ref::DontCare(_) => continue,
                Ref::Bad(_) => None,
                Ref::Ok(v) => Some(super::lexical::last_wins(v)),
            };
            for p in &ps {
                let s = Spec { unwrap: Some((*p).clone()), ..Default::default() };
                match &full {
                    None => {
                        let c = Case { kind: "spec".into(), name: "Root".into(), input: t.clone(), opts: s.opts(), mode: "shape".into(), extra: s.text() };
                        judge(run, Lang::Shape, &Want::Error, &c);
                    }
                    Some(v) => {
                        request(run, &[Lang::Shape], v, &t, &s, &s.opts());
                    }
                }
            }
        }
    });
    run.count("family: documents <=4 nodes with one edit, x pointers", u.total());
    run.sample("unwrap /-/a on [{\"a\":1},{\"a\":null},{\"b\":2}] -> join(1, null)".into());
}

pub fn c15(run: &Run) {
    let hs = [H::Map, H::Opaque("T".into()), H::Opaque("x::Y".into())];
    // one hint, every pointer
    for (k1, k2, toks) in [("a", "b", &["a", "b", "-", "0", "1"][..]), ("1", "-", &["1", "-", "0"][..]), ("", "a", &["", "a", "0"][..])] {
        let nodes = if run.thorough { 7 } else { 5 };
        let u = Universe::with(nodes, leaves(), k1, k2);
        let ps = pointers(toks, 3);
        let specs: Vec<(Spec, String)> = ps
            .iter()
            .flat_map(|p| hs[..2].iter().map(move |h| Spec { hints: vec![(p.clone(), h.clone())], ..Default::default() }))
            .map(|s| (s.clone(), s.opts()))
            .collect();
        run.each(u.total(), |i| {
            let doc = u.nth(i);
            let text = doc.text();
            let small = doc.nodes() <= 4;
            for (s, o) in &specs {
                let langs = if small && s.hints[0].0.len() <= 2 { &ALL[..] } else { &[Lang::Shape][..] };
                request(run, langs, &doc, &text, s, o);
            }
        });
        run.count(&format!("family: documents <={} nodes over keys {:?},{:?}, one hint, pointers <=3 tokens", nodes, k1, k2), u.total() * specs.len() as u64);
    }
    // two hints
    let nodes = if run.thorough { 6 } else { 4 };
    let u = Universe::with(nodes, vec![Val::Null, int(), st()], "a", "b");
    let ps = pointers(&["a", "b", "-", "0"], 2);
    let mut specs = vec![];
    for p in &ps {
        for q in &ps {
            for (g, h) in [(&hs[0], &hs[0]), (&hs[0], &hs[1]), (&hs[1], &hs[0]), (&hs[1], &hs[1])] {
                let s = Spec { hints: vec![(p.clone(), g.clone()), (q.clone(), h.clone())], ..Default::default() };
                let o = s.opts();
                specs.push((s, o));
            }
        }
    }
    run.each(u.total(), |i| {
        let doc = u.nth(i);
        let text = doc.text();
        let langs = if doc.nodes() <= 3 { &ALL[..] } else { &[Lang::Shape, Lang::Rust][..] };
        for (s, o) in &specs {
            request(run, langs, &doc, &text, s, o);
        }
    });
    run.count(&format!("family: documents <={} nodes, two hints", nodes), u.total() * specs.len() as u64);
    // hints together with optionality and nullability
    let f = rows(if run.thorough { 4 } else { 3 });
    let hp = [strs(&["-"]), strs(&["-", "a"]), strs(&["0", "a"]), strs(&["1", "a"]), strs(&["-", "a", "-"]), strs(&["-", "a", "x"]), strs(&["1"]), strs(&["-", "0", "a"]), strs(&["-", "0"])];
    run.each(f.n, |i| {
        let doc = (f.get)(i);
        let text = doc.text();
        for p in &hp {
            for h in &hs[..2] {
                let s = Spec { hints: vec![(p.clone(), h.clone())], ..Default::default() };
                request(run, &ALL, &doc, &text, &s, &s.opts());
            }
        }
    });
    run.count(&format!("family: {} with one hint", f.name), f.n * 18);
    // any index of a long array, wildcards below
    let k = consts::scan();
    let f = long_arrays(16, &k.ints.iter().copied().filter(|n| *n < 70).collect::<Vec<_>>());
    run.each(f.n, |i| {
        let doc = (f.get)(i);
        let text = doc.text();
        let n = if let Val::Arr(a) = &doc { a.len() } else { 0 };
        let mut ps: Vec<Vec<String>> = vec![strs(&["-"]), strs(&["-", "x"]), strs(&["-", "-"])];
        for j in 0..=n {
            if j > 15 && j + 2 < n {
                continue;
            }
            ps.push(vec![j.to_string()]);
            if j > 10 {
                ps.push(vec![j.to_string(), "x".into()]);
                ps.push(vec!["0".into(), j.to_string()]);
                ps.push(vec!["-".into(), j.to_string()]);
            }
        }
        for p in ps {
            for h in &hs[..2] {
                let s = Spec { hints: vec![(p.clone(), h.clone())], ..Default::default() };
                request(run, &[Lang::Shape], &doc, &text, &s, &s.opts());
            }
        }
    });
    run.count(&format!("family: {} x hints at every index", f.name), f.n);
    // with a threshold
    let u = Universe::with(4, vec![Val::Null, int(), st()], "a", "b");
    let hp = pointers(&["a", "-", "0"], 2);
    run.each(u.total(), |i| {
        let doc = u.nth(i);
        let text = doc.text();
        for p in &hp {
            for h in &hs[..2] {
                for lim in 0..3 {
                    let s = Spec { hints: vec![(p.clone(), h.clone())], lim: Some(lim), unwrap: None };
                    request(run, &ALL, &doc, &text, &s, &s.opts());
                }
            }
        }
    });
    run.count("family: documents <=4 nodes, hint and threshold", u.total() * hp.len() as u64 * 6);
    // deep wildcards and three hints
    let d = if run.thorough { 10 } else { 6 };
    run.each((1u64 << d) * d as u64, |i| {
        let shape = i % (1 << d);
        let at = (i >> d) as usize;
        let mut doc = obj(&[("x", int())]);
        for b in (0..d).rev() {
            doc = if shape >> b & 1 == 0 { arr(&[doc.clone(), doc]) } else { obj(&[("a", doc.clone()), ("b", doc)]) };
            if doc.nodes() > 400 {
                return;
            }
        }
        let text = doc.text();
        for (w, h) in [(true, &hs[1]), (false, &hs[1]), (true, &hs[0])] {
            let p: Vec<String> = (0..at)
                .map(|b| match (w && b + 1 != at, shape >> b & 1) {
                    (true, _) => "-".to_string(),
                    (_, 0) => "1".into(),
                    _ => "b".into(),
                })
                .collect();
            let mut hints = vec![(p.clone(), h.clone())];
            for extra in 0..2 {
                let s = Spec { hints: hints.clone(), ..Default::default() };
                request(run, &[Lang::Shape, Lang::Rust, Lang::Ts], &doc, &text, &s, &s.opts());
                if extra == 0 {
                    let mut q = p.clone();
                    q.push("-".into());
                    hints.push((q, hs[1].clone()));
                }
            }
        }
    });
    run.count(&format!("family: full binary documents of depth <={} with hints at every level", d), (1u64 << d) * d as u64);
    // chains of objects and arrays with two hints at any two levels
    let depth = if run.thorough { 8 } else { 6 };
    let mut todo = vec![];
    for d in 1..=depth {
        for shape in 0..1u32 << d {
            for a in 0..=d {
                for b in a..=d {
                    for k in 0..16u32 {
                        todo.push((d, shape, a, b, k));
                    }
                }
            }
        }
    }
    run.each(todo.len() as u64, |i| {
        let (d, shape, a, b, k) = todo[i as usize];
        let mut doc = int();
        for l in (0..d).rev() {
            doc = if shape >> l & 1 == 0 { arr(&[doc]) } else { Val::Obj(vec![("a".into(), doc), ("z".into(), st())]) };
        }
        let path = |n: usize, wild: bool| -> Vec<String> {
            (0..n)
                .map(|l| match (wild, shape >> l & 1) {
                    (true, _) => "-".to_string(),
                    (_, 0) => "0".into(),
                    _ => "a".into(),
                })
                .collect()
        };
        let kind = |m: bool| if m { H::Map } else { H::Opaque("T".into()) };
        let hints = vec![(path(a, k & 1 != 0), kind(k & 2 != 0)), (path(b, k & 4 != 0), if k & 8 != 0 { H::Map } else { H::Opaque("U".into()) })];
        let s = Spec { hints, ..Default::default() };
        request(run, &[Lang::Shape, Lang::Jackson], &doc, &doc.text(), &s, &s.opts());
    });
    run.count(&format!("family: chains of depth <={} with two hints at any levels", depth), todo.len() as u64);
    far(run, &|q| [H::Map, H::Opaque("T".into())].into_iter().map(|h| Spec { hints: vec![(q.clone(), h)], ..Default::default() }).collect());
    confusable(run, &|q, other| {
        let mut v = vec![Spec { hints: vec![(q.clone(), H::Opaque("T".into()))], ..Default::default() }];
        if let Some(o) = other {
            v.push(Spec { hints: vec![(q.clone(), H::Opaque("T".into())), (o, H::Opaque("U".into()))], ..Default::default() });
            let mut below = q.clone();
            below.push("-".into());
            v.push(Spec { hints: vec![(q, H::Map)], ..Default::default() });
            v.push(Spec { hints: vec![(below, H::Opaque("T".into()))], ..Default::default() });
        }
        v
    });
    forms(run);
    // many hints at once
    let ks: Vec<usize> = if run.thorough { (1..=130).collect() } else { (1..=20).chain([31, 32, 33, 50, 63, 64, 65, 66, 100, 128, 129]).collect() };
    run.each(ks.len() as u64 * 4 * 4, |i| {
        let (w, i) = (i % 4, i / 4);
        let (order, k) = (i % 4, ks[(i / 4) as usize]);
        let el = |j: usize| if j % 3 == 1 { obj(&[("x", int()), ("y", int())]) } else { int() };
        let (doc, at): (Val, Vec<Vec<String>>) = match w {
            0 => (Val::Obj((0..k + 1).map(|j| (format!("k{}", j), el(j))).collect()), (0..k).map(|j| vec![format!("k{}", j)]).collect()),
            1 => (arr(&[Val::Obj((0..k + 1).map(|j| (format!("k{}", j), el(j))).collect()), obj(&[])]), (0..k).map(|j| vec!["-".into(), format!("k{}", j)]).collect()),
            2 => (Val::Arr((0..k + 1).map(|j| obj(&[(&format!("k{}", j), el(j))])).collect()), (0..k).map(|j| vec![j.to_string(), format!("k{}", j)]).collect()),
            _ => (Val::Obj((0..k + 1).map(|j| (format!("k{}", j), obj(&[("in", el(j))]))).collect()), (0..k).map(|j| vec![format!("k{}", j), if j % 2 == 0 { "in".into() } else { "-".to_string() }]).collect()),
        };
        let mut hints: Vec<(Vec<String>, H)> = at.into_iter().enumerate().map(|(j, p)| (p, if j % 3 == 1 { H::Map } else { H::Opaque(format!("T{}", j)) })).collect();
        match order {
            0 => {}
            1 => hints.reverse(),
            2 => hints.rotate_left(k / 2),
            _ => {
                hints.pop();
            }
        }
        let s = Spec { hints, ..Default::default() };
        request(run, if k <= 20 { &ALL[..] } else { &[Lang::Shape][..] }, &doc, &doc.text(), &s, &s.opts());
    });
    run.count("family: up to 129 hints at once", ks.len() as u64 * 16);
    run.sample("{ \"/-/a\": { use_type: \"T\" } } on [{\"a\":1},{\"b\":2}]".into());
}

pub fn c16(run: &Run) {
    let nodes = if run.thorough { 7 } else { 6 };
    let u = Universe::with(nodes, vec![Val::Null, int(), flt(), st()], "a", "b");
    run.each(u.total(), |i| {
        let doc = u.nth(i);
        let text = doc.text();
        let langs = if doc.nodes() <= 5 { &ALL[..] } else { &[Lang::Shape, Lang::Zod, Lang::Alias][..] };
        for lim in [None, Some(0), Some(1), Some(2)] {
            let s = Spec { lim, ..Default::default() };
            request(run, langs, &doc, &text, &s, &s.opts());
        }
    });
    run.count(&format!("family: documents <={} nodes, thresholds 0..2 and none", nodes), u.total() * 4);
    let k = consts::scan();
    let max = if run.thorough { 24 } else { 14 };
    let f = long_objects(max, &k.ints.iter().copied().filter(|n| *n < 70).collect::<Vec<_>>());
    run.each(f.n, |i| {
        let doc = (f.get)(i);
        let n = if let Val::Obj(a) = &doc { a.len() } else { 0 };
        let mut lims: Vec<usize> = vec![0, 1, n.saturating_sub(1), n, n + 1, n * 2, usize::MAX];
        lims.sort();
        lims.dedup();
        for w in 0..3 {
            let d = match w {
                0 => doc.clone(),
                1 => arr(&[doc.clone(), obj(&[("k0", st())])]),
                _ => obj(&[("p", doc.clone()), ("q", arr(&[doc.clone(), doc.clone()]))]),
            };
            let text = d.text();
            for lim in &lims {
                let s = Spec { lim: Some(*lim), ..Default::default() };
                request(run, if n <= max { &ALL[..] } else { &[Lang::Shape][..] }, &d, &text, &s, &s.opts());
            }
        }
    });
    run.count(&format!("family: {} x thresholds around the size", f.name), f.n * 3);
    // nested objects of independent sizes
    let vals = [int(), st(), Val::Null, arr(&[int(), st()])];
    let m = if run.thorough { 6 } else { 4 };
    run.each(m * m * m * 4 * (m + 1), |i| {
        let d = digits(i, m, 3);
        let i = i / (m * m * m);
        let (v, lim) = (&vals[(i % 4) as usize], (i / 4) as usize);
        let inner = Val::Obj((0..d[0]).map(|j| (format!("i{}", j), v.clone())).collect());
        let mid = Val::Obj((0..d[1]).map(|j| (format!("m{}", j), if j % 2 == 0 { inner.clone() } else { arr(&[inner.clone()]) })).collect());
        let outer = Val::Obj((0..d[2]).map(|j| (format!("o{}", j), mid.clone())).collect());
        for doc in [outer.clone(), arr(&[outer.clone(), outer])] {
            let s = Spec { lim: Some(lim), ..Default::default() };
            request(run, &ALL, &doc, &doc.text(), &s, &s.opts());
        }
    });
    run.count("family: three nested object sizes x thresholds", m * m * m * 4 * (m + 1) * 2);
    // observations of maps
    let f = rows(if run.thorough { 4 } else { 3 });
    run.each(f.n, |i| {
        let doc = (f.get)(i);
        let text = doc.text();
        for lim in [0, 1] {
            let s = Spec { lim: Some(lim), ..Default::default() };
            request(run, &ALL, &doc, &text, &s, &s.opts());
        }
    });
    run.count(&format!("family: {} x thresholds 0, 1", f.name), f.n * 2);
    // observations of members that hold maps of several members, absent or null here and there
    let big = |n: usize, v: &[Val]| Val::Obj((0..n).map(|j| (format!("k{}", j), v[j % v.len()].clone())).collect());
    let cells = |n: usize| -> Vec<Option<Val>> {
        vec![
            None,
            Some(Val::Null),
            Some(big(n, &[int()])),
            Some(big(n, &[st(), Val::Null])),
            Some(arr(&[big(n, &[int()])])),
            Some(arr(&[])),
            Some(arr(&[Val::Null, big(n, &[int()])])),
            Some(st()),
        ]
    };
    let one = cells(2);
    let two = cells(3);
    let rows_n = if run.thorough { 4 } else { 3 };
    let (n1, n2) = ((one.len() as u64).pow(rows_n), (two.len() as u64).pow(4));
    run.each(n1 + n2, |i| {
        let (doc, lim) = if i < n1 {
            let d = digits(i, one.len() as u64, rows_n as usize);
            (Val::Arr(d.iter().map(|x| Val::Obj(one[*x as usize].iter().map(|v| ("a".to_string(), v.clone())).collect())).collect()), 1)
        } else {
            let d = digits(i - n1, two.len() as u64, 4);
            let row = |x: usize, y: usize| {
                Val::Obj(two[x].iter().map(|v| ("a".to_string(), v.clone())).chain(two[y].iter().map(|v| ("b".to_string(), v.clone()))).collect())
            };
            (arr(&[row(d[0] as usize, d[1] as usize), row(d[2] as usize, d[3] as usize)]), 2)
        };
        let s = Spec { lim: Some(lim), ..Default::default() };
        request(run, &ALL, &doc, &doc.text(), &s, &s.opts());
    });
    run.count("family: rows whose members are maps, null, absent, arrays of maps or others", n1 + n2);
    // together with hints and `unwrap`
    let u = Universe::with(if run.thorough { 5 } else { 4 }, vec![Val::Null, int(), st()], "a", "b");
    let hp = pointers(&["a", "b", "-", "0"], 2);
    run.each(u.total(), |i| {
        let doc = u.nth(i);
        let text = doc.text();
        for p in &hp {
            for h in [H::Map, H::Opaque("T".into())] {
                for lim in 0..3 {
                    let s = Spec { hints: vec![(p.clone(), h.clone())], lim: Some(lim), unwrap: None };
                    request(run, &[Lang::Shape, Lang::Rust, Lang::Python], &doc, &text, &s, &s.opts());
                }
            }
            for lim in 0..3 {
                let s = Spec { lim: Some(lim), unwrap: Some(p.clone()), ..Default::default() };
                request(run, &[Lang::Shape, Lang::Rust, Lang::Python], &doc, &text, &s, &s.opts());
            }
        }
    });
    run.count("family: small documents, threshold and a hint or `unwrap`", u.total() * hp.len() as u64 * 9);
    // every other option leaves the threshold as it is
    let others = [
        "derives: \"Debug\"", "deny_unknown_fields", "use_default_for_missing_fields", "collect_additional", "allow_option_vec: false", "allow_option_vec",
        "property_name_format: \"camelCase\"", "import_style: \"qualified_paths\"", "import_style: \"assume_existing\"", "field_visibility: \"\"", "input_mode: \"json\"",
    ];
    let u = Universe::with(if run.thorough { 6 } else { 5 }, vec![Val::Null, int(), st()], "a", "b");
    run.each(u.total(), |i| {
        let doc = u.nth(i);
        let text = doc.text();
        for lim in 0..3 {
            let s = Spec { lim: Some(lim), ..Default::default() };
            for o in others {
                for opts in [format!("{{ {}, infer_map_threshold: \"{}\" }}", o, lim), format!("{{ infer_map_threshold: \"{}\", {} }}", lim, o)] {
                    request(run, &[Lang::Shape], &doc, &text, &s, &opts);
                }
            }
        }
    });
    run.count("family: small documents, threshold and one other option", u.total() * 3 * 2 * others.len() as u64);
    let _ = lang::ALL;
    run.sample("{ infer_map_threshold: \"2\" } on {\"a\":1,\"b\":null,\"c\":3}".into());
}
