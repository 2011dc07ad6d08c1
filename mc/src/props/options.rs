//! C17: options blocks and macro texts against a reference reader of the documented grammar.
use crate::drive::{Case, Run};
use crate::gen_::{seq_count, seq_nth};
use crate::json::{Val, arr, int, obj};
use crate::lang::{self, Lang, Sem, Style};
use crate::model::H;
use super::configs::{Spec, Want};
use json_typegen_shared::{ImportStyle, Options, OutputMode, StringTransform, codegen, parse};
use std::sync::atomic::AtomicU64;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Debug, PartialEq)]
enum T {
    P(char),
    Id(String),
    S(String),
}

/// Rust tokens: punctuation, words, string literals.
fn lex(s: &str) -> Result<Vec<T>, ()> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut o = vec![];
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() {
            i += 1;
            continue;
        }
        if ch == 'r' && matches!(c.get(i + 1), Some('"' | '#')) {
            let mut h = 0;
            let mut j = i + 1;
            while c.get(j) == Some(&'#') {
                h += 1;
                j += 1;
            }
            if c.get(j) == Some(&'"') {
                j += 1;
                let st = j;
                loop {
                    if j >= c.len() {
                        return Err(());
                    }
                    if c[j] == '"' && c[j + 1..].iter().take(h).filter(|x| **x == '#').count() == h {
                        break;
                    }
                    j += 1;
                }
                o.push(T::S(c[st..j].iter().collect()));
                i = j + 1 + h;
                continue;
            }
        }
        if ch == '_' || ch.is_alphabetic() {
            let st = i;
            while i < c.len() && (c[i] == '_' || c[i].is_alphanumeric()) {
                i += 1;
            }
            o.push(T::Id(c[st..i].iter().collect()));
        } else if ch == '"' {
            let mut v = String::new();
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err(()),
                    Some('"') => {
                        i += 1;
                        break;
                    }
                    Some('\\') => {
                        i += 1;
                        match c.get(i).ok_or(())? {
                            'n' => v.push('\n'),
                            'r' => v.push('\r'),
                            't' => v.push('\t'),
                            '0' => v.push('\0'),
                            '\\' => v.push('\\'),
                            '\'' => v.push('\''),
                            '"' => v.push('"'),
                            'x' => {
                                let h: String = c[i + 1..].iter().take(2).collect();
                                let n = u32::from_str_radix(&h, 16).map_err(|_| ())?;
                                v.push(char::from_u32(n).filter(|x| x.is_ascii()).ok_or(())?);
                                i += 2;
                            }
                            'u' => {
                                let e = c[i..].iter().position(|x| *x == '}').ok_or(())?;
                                let h: String = c[i + 2..i + e].iter().collect();
                                v.push(char::from_u32(u32::from_str_radix(&h, 16).map_err(|_| ())?).ok_or(())?);
                                i += e;
                            }
                            '\n' => {
                                while c.get(i + 1).is_some_and(|x| x.is_whitespace()) {
                                    i += 1;
                                }
                            }
                            _ => return Err(()),
                        }
                        i += 1;
                    }
                    Some(x) => {
                        v.push(*x);
                        i += 1;
                    }
                }
            }
            o.push(T::S(v));
        } else {
            o.push(T::P(ch));
            i += 1;
        }
    }
    Ok(o)
}

const BOOLS: [&str; 4] = ["deny_unknown_fields", "use_default_for_missing_fields", "allow_option_vec", "collect_additional"];
const STRINGS: [&str; 8] = ["output_mode", "input_mode", "derives", "property_name_format", "import_style", "field_visibility", "unwrap", "infer_map_threshold"];

#[derive(Clone, Debug, PartialEq, Default)]
struct Set {
    strings: Vec<(String, String)>,
    bools: Vec<(String, bool)>,
    hints: Vec<(String, String)>,
}

struct Rd<'a> {
    t: &'a [T],
    i: usize,
}

impl Rd<'_> {
    fn eat(&mut self, c: char) -> bool {
        if self.t.get(self.i) == Some(&T::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn string(&mut self) -> Result<String, ()> {
        match self.t.get(self.i) {
            Some(T::S(s)) => {
                self.i += 1;
                Ok(s.clone())
            }
            _ => Err(()),
        }
    }
    fn block(&mut self, entry: &mut dyn FnMut(&mut Self, &str) -> Result<(), ()>) -> Result<(), ()> {
        if !self.eat('{') {
            return Err(());
        }
        loop {
            if self.eat('}') {
                return Ok(());
            }
            let k = match self.t.get(self.i) {
                Some(T::Id(s) | T::S(s)) => s.clone(),
                _ => return Err(()),
            };
            self.i += 1;
            entry(self, &k)?;
            if self.eat('}') {
                return Ok(());
            }
            if !self.eat(',') {
                return Err(());
            }
        }
    }
    fn options(&mut self) -> Result<Set, ()> {
        let mut s = Set::default();
        self.block(&mut |p, k| {
            if STRINGS.contains(&k) {
                if !p.eat(':') {
                    return Err(());
                }
                s.strings.push((k.into(), p.string()?));
            } else if BOOLS.contains(&k) {
                if matches!(p.t.get(p.i), Some(T::P(',' | '}'))) {
                    s.bools.push((k.into(), true));
                } else {
                    if !p.eat(':') {
                        return Err(());
                    }
                    match p.t.get(p.i) {
                        Some(T::Id(b)) if b == "true" || b == "false" => s.bools.push((k.into(), b == "true")),
                        _ => return Err(()),
                    }
                    p.i += 1;
                }
            } else if k.is_empty() || k.starts_with('/') {
                if !p.eat(':') {
                    return Err(());
                }
                p.block(&mut |p, h| {
                    if !p.eat(':') {
                        return Err(());
                    }
                    let v = p.string()?;
                    match h {
                        "use_type" => s.hints.push((k.into(), v)),
                        "type_name" => {}
                        _ => return Err(()),
                    }
                    Ok(())
                })?;
            } else {
                return Err(());
            }
            Ok(())
        })?;
        Ok(s)
    }
}

/// Values that name no known mode (left open by the property) make this `None`.
fn expected(s: &Set, base: Options) -> Option<(Options, bool, bool)> {
    let mut o = base;
    let mut sql = false;
    let mut option_vec = false;
    for (k, v) in &s.strings {
        match k.as_str() {
            "output_mode" => {
                o.output_mode = match v.as_str() {
                    "rust" => OutputMode::Rust,
                    "typescript" => OutputMode::Typescript,
                    "typescript/typealias" => OutputMode::TypescriptTypeAlias,
                    "kotlin" | "kotlin/jackson" => OutputMode::KotlinJackson,
                    "kotlin/kotlinx" => OutputMode::KotlinKotlinx,
                    "python" => OutputMode::PythonPydantic,
                    "json_schema" => OutputMode::JsonSchema,
                    "zod" => OutputMode::ZodSchema,
                    "shape" => OutputMode::Shape,
                    _ => return None,
                }
            }
            "input_mode" => {
                sql = match v.as_str() {
                    "json" => false,
                    "sql" => true,
                    _ => return None,
                }
            }
            "derives" => o.derives = v.clone(),
            "property_name_format" => {
                use StringTransform as X;
                o.property_name_format = Some(match v.as_str() {
                    "lowercase" => X::LowerCase,
                    "uppercase" | "UPPERCASE" => X::UpperCase,
                    "pascalcase" | "uppercamelcase" | "PascalCase" => X::PascalCase,
                    "camelcase" | "camelCase" => X::CamelCase,
                    "snakecase" | "snake_case" => X::SnakeCase,
                    "screamingsnakecase" | "SCREAMING_SNAKE_CASE" => X::ScreamingSnakeCase,
                    "kebabcase" | "kebab-case" => X::KebabCase,
                    "screamingkebabcase" | "SCREAMING-KEBAB-CASE" => X::ScreamingKebabCase,
                    _ => return None,
                })
            }
            "import_style" => {
                o.import_style = match v.as_str() {
                    "add_imports" => ImportStyle::AddImports,
                    "assume_existing" => ImportStyle::AssumeExisting,
                    "qualified_paths" => ImportStyle::QualifiedPaths,
                    _ => return None,
                }
            }
            "field_visibility" => o.field_visibility = Some(v.clone()),
            "unwrap" => o.unwrap = v.clone(),
            _ => match v.parse() {
                Ok(n) if v.bytes().all(|b| b.is_ascii_digit()) => o.infer_map_threshold = Some(n),
                _ => return None,
            },
        }
    }
    for (k, v) in &s.bools {
        match k.as_str() {
            "deny_unknown_fields" => o.deny_unknown_fields = *v,
            "use_default_for_missing_fields" => o.use_default_for_missing_fields = *v,
            "collect_additional" => o.collect_additional = *v,
            _ => option_vec = *v,
        }
    }
    Some((o, option_vec, sql))
}

fn base(macro_: bool) -> Options {
    let mut o = Options::default();
    if macro_ {
        o.import_style = ImportStyle::QualifiedPaths;
    }
    o
}

fn probe_doc() -> Val {
    obj(&[("p", arr(&[obj(&[("l", arr(&[int()]))]), obj(&[])])), ("a", obj(&[("x", int())]))])
}

/// Do these options set exactly what `s` says?
fn compare(run: &Run, got: &Options, s: &Set, macro_: bool, c: &Case, probe: bool) {
    let Some((want, option_vec, sql)) = expected(s, base(macro_)) else { return };
    run.valid();
    let mut diff = vec![];
    macro_rules! cmp {
        ($($f:ident),*) => { $( if got.$f != want.$f { diff.push(format!("{} is {:?}, expected {:?}", stringify!($f), got.$f, want.$f)); } )* };
    }
    cmp!(output_mode, derives, property_name_format, import_style, field_visibility, type_visibility, unwrap, infer_map_threshold, deny_unknown_fields, use_default_for_missing_fields, collect_additional);
    // the type of this option is not public
    if (got.input_mode != Options::default().input_mode) != sql {
        diff.push(format!("input_mode is {:?}", got.input_mode));
    }
    if !diff.is_empty() {
        run.violation("wrong-value", diff.join("; "), c.clone());
        return;
    }
    if !probe {
        return;
    }
    // options without a public field are observed through a generation with everything else at its default
    let d = Options::default();
    let mut o = got.clone();
    o.output_mode = d.output_mode;
    o.input_mode = d.input_mode;
    o.derives = d.derives;
    o.property_name_format = None;
    o.import_style = d.import_style;
    o.field_visibility = d.field_visibility;
    o.unwrap = d.unwrap;
    o.infer_map_threshold = None;
    o.deny_unknown_fields = false;
    o.use_default_for_missing_fields = false;
    o.collect_additional = false;
    let doc = probe_doc();
    let hints = s
        .hints
        .iter()
        .map(|(p, t)| {
            let p = p.split('/').skip(1).map(|x| x.to_string()).collect();
            (p, if t == "map" { H::Map } else { H::Opaque(t.clone()) })
        })
        .collect();
    let spec = Spec { hints, ..Default::default() };
    let code = match run.call(c, || codegen("Root", &doc.text(), o)) {
        Err(p) => {
            run.violation("panic", p, c.clone());
            return;
        }
        Ok(r) => r,
    };
    match (spec.want(&doc), code) {
        (Want::Skip, _) => {}
        (Want::Error, Err(_)) => {}
        (Want::Error, Ok(s)) => run.violation("hint", format!("the map hint selects no object, but code is generated\n{}", s), c.clone()),
        (Want::Type(_), Err(e)) => run.violation("hint", format!("probe fails: {}", e), c.clone()),
        (Want::Type(r), Ok(code)) => {
            let sem = Sem { use_default: false, option_vec };
            let m = lang::parse(Lang::Rust, &code, "Root", Style::Add);
            let e = match m {
                Err(e) => e,
                Ok(m) => match lang::denotes(Lang::Rust, &m, "Root", &r, sem) {
                    Ok(_) => return,
                    Err(e) => e.msg,
                },
            };
            run.violation("hidden-option", format!("hints or allow_option_vec do not have their effect: {}\n{}", e, code), c.clone());
        }
    }
}

/// One options text.
pub fn judge(run: &Run, text: &str, probe: bool) {
    run.doc();
    let c = Case { kind: "options".into(), input: text.into(), ..Default::default() };
    let t = lex(text);
    let want = t.and_then(|t| {
        run.step(t.len());
        let mut r = Rd { t: &t, i: 0 };
        let s = r.options()?;
        if r.i == t.len() { Ok(s) } else { Err(()) }
    });
    let got = match run.call(&c, || parse::options(text)) {
        Err(p) => {
            run.violation("panic", p, c);
            return;
        }
        Ok(g) => g,
    };
    match (want, got) {
        (Err(()), Err(_)) => run.valid(),
        (Err(()), Ok(o)) => run.violation("accepted", format!("not an options block, but read as {:?}", o), c),
        (Ok(s), Err(e)) => {
            if expected(&s, base(false)).is_some() {
                run.violation("rejected", format!("a valid options block is rejected: {}", e), c)
            }
        }
        (Ok(s), Ok(o)) => {
            run.state(&format!("{:?}", s));
            compare(run, &o, &s, false, &c, probe)
        }
    }
}

/// One macro text: `full` with `json_typegen!(` `);` around it, otherwise the arguments alone.
pub fn judge_macro(run: &Run, text: &str, full: bool) {
    run.doc();
    let c = Case { kind: if full { "full_macro" } else { "macro_input" }.into(), input: text.into(), ..Default::default() };
    let inner = if full {
        let t = text.trim();
        t.strip_prefix("json_typegen!(").and_then(|x| x.strip_suffix(");")).ok_or(())
    } else {
        Ok(text)
    };
    let want = inner.and_then(lex).and_then(|t| {
        run.step(t.len());
        let mut r = Rd { t: &t, i: 0 };
        let name = r.string()?;
        if !r.eat(',') {
            return Err(());
        }
        let sample = r.string()?;
        if r.i == t.len() {
            return Ok((name, sample, Set::default()));
        }
        if !r.eat(',') {
            return Err(());
        }
        let s = match t.get(r.i) {
            Some(T::S(inner)) => {
                r.i += 1;
                let u = lex(inner)?;
                let mut q = Rd { t: &u, i: 0 };
                let s = q.options()?;
                if q.i != u.len() {
                    return Err(());
                }
                s
            }
            _ => r.options()?,
        };
        if r.i == t.len() { Ok((name, sample, s)) } else { Err(()) }
    });
    let got = match run.call(&c, || if full { parse::full_macro(text) } else { parse::macro_input(text) }) {
        Err(p) => {
            run.violation("panic", p, c);
            return;
        }
        Ok(g) => g,
    };
    match (want, got) {
        (Err(()), Err(_)) => run.valid(),
        (Err(()), Ok(o)) => run.violation("accepted", format!("not a macro invocation, but read as {:?}", o), c),
        (Ok((_, _, s)), Err(e)) => {
            if expected(&s, base(true)).is_some() {
                run.violation("rejected", format!("a valid macro is rejected: {}", e), c)
            }
        }
        (Ok((n, d, s)), Ok(o)) => {
            run.state(&format!("{} {} {:?}", n, d, s));
            if o.name != n || o.sample_source != d {
                run.violation("wrong-argument", format!("read as name {:?}, sample {:?}", o.name, o.sample_source), c);
            } else {
                compare(run, &o.options, &s, true, &c, false)
            }
        }
    }
}

pub fn replay(run: &Run, c: &Case) {
    match c.kind.as_str() {
        "options" => judge(run, &c.input, true),
        k => judge_macro(run, &c.input, k == "full_macro"),
    }
}

fn lit(s: &str) -> String {
    crate::json::esc(s)
}

/// All entries: (key, value tokens).
fn entries(full: bool) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![];
    let mut st = |k: &str, vals: &[&str]| {
        for (i, x) in vals.iter().enumerate() {
            if full || i < 2 {
                v.push(vec![k.into(), ":".into(), lit(x)]);
            }
        }
    };
    st("output_mode", &["shape", "zod", "rust", "typescript", "typescript/typealias", "kotlin", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema", "nonsense"]);
    st("input_mode", &["sql", "json"]);
    st("derives", &["", "Debug, Clone", "a::B", "é\"\\"]);
    st("property_name_format", &["camelCase", "kebab-case", "lowercase", "uppercase", "UPPERCASE", "pascalcase", "uppercamelcase", "PascalCase", "camelcase", "snakecase", "snake_case", "screamingsnakecase", "SCREAMING_SNAKE_CASE", "kebabcase", "screamingkebabcase", "SCREAMING-KEBAB-CASE", ""]);
    st("import_style", &["assume_existing", "qualified_paths", "add_imports"]);
    st("field_visibility", &["", "pub(crate)", "pub"]);
    st("unwrap", &["/a/-", "", "x"]);
    st("infer_map_threshold", &["0", "30", "18446744073709551615", "-1", ""]);
    for b in BOOLS {
        v.push(vec![b.into()]);
        v.push(vec![b.into(), ":".into(), "false".into()]);
        if full {
            v.push(vec![b.into(), ":".into(), "true".into()]);
        }
    }
    let blocks: &[&str] = &["use_type : \"T\"", "use_type : \"map\"", "", "type_name : \"N\"", "use_type : \"T\" , type_name : \"N\"", "type_name : \"N\" , use_type : \"map\" ,"];
    for p in ["", "/a", "/p/-", "/p"] {
        for (i, b) in blocks.iter().enumerate() {
            if full || (i < 2 && p != "/p") {
                let mut e = vec![lit(p), ":".into(), "{".into()];
                e.extend(b.split(' ').filter(|x| !x.is_empty()).map(|x| x.to_string()));
                e.push("}".into());
                v.push(e);
            }
        }
    }
    v
}

fn assemble(es: &[&Vec<String>], trailing: bool) -> Vec<String> {
    let mut t = vec!["{".to_string()];
    for (i, e) in es.iter().enumerate() {
        if i > 0 {
            t.push(",".into());
        }
        t.extend(e.iter().cloned());
    }
    if trailing && !es.is_empty() {
        t.push(",".into());
    }
    t.push("}".into());
    t
}

/// Other spellings of a token list.
fn spell(t: &[String], how: usize) -> String {
    let w = |x: &String, f: &dyn Fn(&str) -> String| -> String {
        if x.starts_with(|c: char| c.is_ascii_lowercase()) && x != "true" && x != "false" { f(x) } else { x.clone() }
    };
    let raw = |x: &String| -> String {
        if x.starts_with('"') && !x.contains('\\') { format!("r#{}#", x) } else { x.clone() }
    };
    let hexed = |x: &String| -> String {
        if x.starts_with('"') && x.len() > 2 && !x.contains('\\') {
            x[1..x.len() - 1].chars().map(|c| if c.is_ascii() { format!("\\x{:02x}", c as u32) } else { format!("\\u{{{:x}}}", c as u32) }).fold(String::from("\""), |a, b| a + &b) + "\""
        } else {
            x.clone()
        }
    };
    match how {
        0 => t.join(" "),
        1 => t.concat(),
        2 => t.iter().map(|x| w(x, &|k| format!("\"{}\"", k))).collect::<Vec<_>>().join(""),
        3 => t.iter().map(|x| w(x, &|k| format!("r\"{}\"", k))).collect::<Vec<_>>().join("\n\t "),
        4 => format!(" \n{}\n", t.iter().map(raw).collect::<Vec<_>>().join("  ")),
        5 => t.iter().map(hexed).collect::<Vec<_>>().join("\r\n"),
        6 => t.iter().map(|x| w(x, &|k| format!("\"\\u{{{:x}}}{}\"", k.chars().next().unwrap() as u32, &k[1..]))).collect::<Vec<_>>().join(" "),
        _ => t.iter().map(|x| if x.starts_with('"') && x.len() > 2 { format!("\"\\\n   {}", &x[1..]) } else { x.clone() }).collect::<Vec<_>>().join(" "),
    }
}
const SPELLINGS: usize = 8;

pub fn c17(run: &Run) {
    // all token sequences
    let toks = ["{", "}", ",", ":", "deny_unknown_fields", "true", "false", "derives", "\"unwrap\"", "\"x\"", "\"/a\"", "use_type"];
    let k = toks.len() as u64;
    let len = if run.thorough { 7 } else { 6 };
    run.each(seq_count(k, len), |i| {
        let t: Vec<&str> = seq_nth(k, len, i).into_iter().map(|d| toks[d]).collect();
        judge(run, &t.join(" "), true);
    });
    run.count(&format!("family: all sequences of <={} tokens over 12", len), seq_count(k, len));
    // all token sequences inside a block
    let inner = if run.thorough { 7 } else { 6 };
    run.each(seq_count(k, inner), |i| {
        let t: Vec<&str> = seq_nth(k, inner, i).into_iter().map(|d| toks[d]).collect();
        judge(run, &format!("{{{}}}", t.join(" ")), true);
    });
    run.count(&format!("family: all sequences of <={} tokens in braces", inner), seq_count(k, inner));
    // sentences of the grammar, in every spelling
    let all = entries(true);
    let n = all.len() as u64;
    run.each((n * n + n + 1) * 2, |i| {
        let (tr, i) = (i % 2 == 1, i / 2);
        let es: Vec<&Vec<String>> = if i == 0 {
            vec![]
        } else if i <= n {
            vec![&all[(i - 1) as usize]]
        } else {
            vec![&all[((i - n - 1) / n) as usize], &all[((i - n - 1) % n) as usize]]
        };
        let t = assemble(&es, tr);
        for h in 0..SPELLINGS {
            judge(run, &spell(&t, h), h == 0);
        }
    });
    run.count("family: blocks of <=2 options, all values, 8 spellings", (n * n + n + 1) * 2 * 8);
    let few = entries(false);
    let m = few.len() as u64;
    let d = if run.thorough { 4 } else { 3 };
    run.each(m.pow(d), |i| {
        let es: Vec<&Vec<String>> = crate::gen_::digits(i, m, d as usize).into_iter().map(|x| &few[x]).collect();
        judge(run, &assemble(&es, i % 2 == 0).join(" "), true);
    });
    run.count(&format!("family: blocks of {} options", d), m.pow(d));
    // one edit of a sentence: delete, insert, replace or swap a token
    let ins = ["{", "}", ",", ":", "true", "false", "x", "\"x\"", "derives", "deny_unknown_fields", "\"/a\"", "use_type", ";", "[", "1", "=", "'a'", "\"", "unwrap", "Derives", "derives_", "/a", "map"];
    let edits = AtomicU64::new(0);
    run.each(n + m * m, |i| {
        let es: Vec<&Vec<String>> = if i < n { vec![&all[i as usize]] } else { vec![&few[((i - n) / m) as usize], &few[((i - n) % m) as usize]] };
        let t = assemble(&es, i % 2 == 0);
        let mut go = |v: Vec<String>| {
            edits.fetch_add(1, Relaxed);
            judge(run, &v.join(" "), false);
        };
        for j in 0..t.len() {
            let mut v = t.clone();
            v.remove(j);
            go(v);
            for x in ins {
                let mut v = t.clone();
                v.insert(j, x.to_string());
                go(v);
                let mut v = t.clone();
                v[j] = x.to_string();
                go(v);
            }
            if j + 1 < t.len() {
                let mut v = t.clone();
                v.swap(j, j + 1);
                go(v);
            }
        }
        for x in ins {
            let mut v = t.clone();
            v.push(x.to_string());
            go(v);
        }
    });
    run.count("family: single-token edits of valid blocks", edits.load(Relaxed));
    // macro texts
    let mt = ["\"A\"", "\"{}\"", ",", "{ }", "{ deny_unknown_fields }", "\"{ unwrap: \\\"/a\\\" }\"", "x", "r#\"{\"a\":1}\"#", "}", ";", ")"];
    let k = mt.len() as u64;
    let len = if run.thorough { 7 } else { 6 };
    run.each(seq_count(k, len), |i| {
        let t: Vec<&str> = seq_nth(k, len, i).into_iter().map(|d| mt[d]).collect();
        let s = t.join(" ");
        judge_macro(run, &s, false);
        judge_macro(run, &format!("json_typegen!({});", s), true);
    });
    run.count(&format!("family: macro argument sequences of <={} tokens", len), seq_count(k, len) * 2);
    let pre = ["json_typegen!(", " \n json_typegen!(", "json_typegen!", "json_typegen(", "xjson_typegen!(", "json_typegen!( ", ""];
    let post = [");", " );\n", ")", "", "};", ");x"];
    let small = entries(false);
    for p in pre {
        for q in post {
            for e in &small {
                let t = assemble(&[e], true).join(" ");
                let s = format!("{}\"N\", \"[1]\",{}{}", p, t, q);
                judge_macro(run, &s, true);
                let s = format!("{}\"N\", \"[1]\",{}{}", p, lit(&t), q);
                judge_macro(run, &s, true);
            }
        }
    }
    run.count("family: macro prefixes and suffixes", (pre.len() * post.len() * small.len() * 2) as u64);
    run.sample("{ derives : \"x\" , deny_unknown_fields }".into());
}
