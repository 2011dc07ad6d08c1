//! C12: every request returns; nothing panics, overflows the stack or loops.
use super::names::{odd_chars, words};
use crate::consts;
use crate::drive::{Case, Run};
use crate::gen_::*;
use crate::imp;
use crate::json::{Val, esc, *};
use crate::lang::{ALL, Lang};
use json_typegen_shared::{Options, Shape, codegen, codegen_from_macro, codegen_from_macro_input, codegen_from_shape, parse};

/// One request; a returned value or error is fine.
fn go(run: &Run, c: Case) {
    run.doc();
    let r = run.call(&c, || act(run, &c));
    match r {
        Ok(()) => run.valid(),
        Err(p) => run.violation("panic", p, c),
    }
}

fn act(run: &Run, c: &Case) {
    match c.kind.as_str() {
        "macro" => {
            let _ = codegen_from_macro(&c.input);
            let _ = parse::full_macro(&c.input);
        }
        "macro-args" => {
            let _ = codegen_from_macro_input(&c.input);
        }
        "options" => {
            let _ = parse::options(&c.input);
        }
        "bytes" => {
            let b = super::lexical::unhex(&c.extra);
            let _ = codegen(&c.name, &imp::as_file(run, &b), imp::options(&c.opts, &c.mode).unwrap());
        }
        "deep" => {
            let t = deep_text(&c.extra);
            let kind = c.extra.split(':').next().unwrap();
            std::thread::scope(|s| {
                // the default stack of a spawned thread
                let h = std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(s, || match kind {
                        "options" => drop(parse::options(&t)),
                        "macro" => drop(codegen_from_macro(&t)),
                        "sql" => drop(codegen(&c.name, &t, imp::options("{ input_mode: \"sql\" }", &c.mode).unwrap())),
                        _ => {
                            if imp::inline(t.as_bytes()) {
                                drop(codegen(&c.name, &t, imp::options(&c.opts, &c.mode).unwrap()))
                            } else {
                                drop(codegen(&c.name, &imp::as_file(run, t.as_bytes()), imp::options(&c.opts, &c.mode).unwrap()))
                            }
                        }
                    })
                    .unwrap();
                if h.join().is_err() {
                    panic!("panic on a small stack");
                }
            });
        }
        "shape" => {
            let s = shape_nth(c.extra.parse().unwrap());
            let _ = codegen_from_shape(&c.name, &s, imp::options(&c.opts, &c.mode).unwrap());
        }
        _ => {
            let Ok(o) = imp::options(&c.opts, &c.mode) else { return };
            if c.kind == "sql" || imp::inline(c.input.as_bytes()) {
                let _ = codegen(&c.name, &c.input, o);
            } else {
                let _ = codegen(&c.name, &imp::as_file(run, c.input.as_bytes()), o);
            }
        }
    }
}

const DEEP: [&str; 22] = [
    "arr", "obj", "mixed", "open-arr", "open-obj", "arr-sib", "obj-sib", "arr-tail", "opt-obj", "tuple", "rows", "two-rows", "shared", "close", "nums", "strs", "keys", "options", "macro", "sql", "sql-sub", "ptr",
];

/// Texts of a given depth or size: `pattern:n`.
fn deep_text(d: &str) -> String {
    let (p, n) = d.split_once(':').unwrap();
    let n: usize = n.parse().unwrap();
    let w = |a: &str, m: &str, b: &str| format!("{}{}{}", a.repeat(n), m, b.repeat(n));
    match p {
        "arr" => w("[", "1", "]"),
        "obj" => w("{\"a\":", "1", "}"),
        "mixed" => w("[{\"a\":", "null", "}]"),
        "open-arr" => "[".repeat(n),
        "open-obj" => "{\"a\":".repeat(n),
        "arr-sib" => w("[1,", "2", "]"),
        "obj-sib" => w("{\"b\":1,\"a\":", "2", "}"),
        "arr-tail" => w("[", "1", ",{}]"),
        "opt-obj" => w("[{},{\"a\":", "1", "}]"),
        "tuple" => w("[\"x\",1,", "2", "]"),
        "rows" => w("[{\"a\":", "1", "},{\"a\":null},{}]"),
        "two-rows" => {
            let one = w("{\"a\":[{},", "1", "]}");
            format!("[{},{}]", one, one)
        }
        "shared" => {
            let one = w("{\"a\":", "1", "}");
            format!("{{\"p\":{},\"q\":{},\"r\":[{},{{}}]}}", one, one, one)
        }
        "close" => format!("[{}", "]".repeat(n)),
        "nums" => format!("[{}]", vec!["1"; n.max(1)].join(",")),
        "strs" => format!("[{}]", (0..n).map(|i| format!("{{\"k{}\":\"v\"}}", i % 50)).collect::<Vec<_>>().join(",")),
        "keys" => format!("{{{}}}", (0..n.min(5000)).map(|i| format!("\"k{}\":{{\"x{}\":1}}", i, i)).collect::<Vec<_>>().join(",")),
        "options" => format!("{{ {} }}", "deny_unknown_fields, ".repeat(n)),
        "macro" => format!("json_typegen!(\"A\", \"{}\");", w("[", "1", "]")),
        "sql" => format!("CREATE TABLE t (a INT CHECK ({}))", w("(", "1", ")")),
        "sql-sub" => w("SELECT * FROM (", "a", ")"),
        "ptr" => w("[", "1", "]"),
        _ => unreachable!(),
    }
}

fn leaf_shapes() -> Vec<Shape> {
    vec![Shape::Bottom, Shape::Any, Shape::Null, Shape::Bool, Shape::StringT, Shape::Integer, Shape::Floating, Shape::Opaque("D".into()), Shape::Opaque("".into()), Shape::Tuple(vec![], 1), st_shape(vec![])]
}

fn st_shape(f: Vec<(&str, Shape)>) -> Shape {
    let mut s = Shape::Struct { fields: Default::default() };
    if let Shape::Struct { fields } = &mut s {
        for (k, x) in f {
            fields.insert(k.into(), x);
        }
    }
    s
}

const WRAPS: u64 = 9;

/// All shapes made of up to three constructors over up to two leaves, sensible or not.
fn shape_count() -> u64 {
    let l = leaf_shapes().len() as u64;
    l * l * seq_count(WRAPS, 3)
}

fn shape_nth(i: u64) -> Shape {
    let l = leaf_shapes();
    let n = l.len() as u64;
    let (a, b) = (l[(i % n) as usize].clone(), l[(i / n % n) as usize].clone());
    let mut s = a;
    for w in seq_nth(WRAPS, 3, i / n / n) {
        s = match w {
            0 => Shape::Optional(Box::new(s)),
            1 => Shape::Nullable(Box::new(s)),
            2 => Shape::VecT { elem_type: Box::new(s) },
            3 => Shape::MapT { val_type: Box::new(s) },
            4 => Shape::Tuple(vec![s], 1),
            5 => Shape::Tuple(vec![s, b.clone()], 2),
            6 => Shape::Tuple(vec![b.clone(), s.clone(), s, b.clone()], 1),
            7 => st_shape(vec![("", s), ("a", b.clone())]),
            _ => st_shape(vec![("a", b.clone()), ("b", s)]),
        };
    }
    s
}

fn case(kind: &str, input: &str, opts: &str, mode: &str) -> Case {
    Case { kind: kind.into(), name: "Root".into(), input: input.into(), opts: opts.into(), mode: mode.into(), ..Default::default() }
}

pub fn c12(run: &Run) {
    let th = run.thorough;
    // token sequences as samples
    let tok = ["{", "}", "[", "]", ",", ":", "1", "\"a\"", "null", "true", "-", "1.5e3", "\"", "x", " "];
    let (q, len) = (tok.len() as u64, if th { 6 } else { 5 });
    let n = seq_count(q, len);
    run.each(n, |i| {
        let t: String = seq_nth(q, len, i).into_iter().map(|d| tok[d]).collect();
        run.state(&t);
        run.step(t.len());
        go(run, case("doc", &t, "", ALL[(i % 9) as usize].opt_name()));
    });
    run.count(&format!("family: token sequences <={}", len), n);
    // documents x option blocks that do not fit them x modes
    let ptrs = ["", "/", "/-", "/a", "/0", "/b", "/-/-", "/a/-", "/-/a", "/a/a", "/1/a", "/0/0", "/a/b/-", "//", "/-/-/-", "/99999999999999999999", "/00", "/-1", "/a~1b", "/\u{e9}"];
    let mut blocks: Vec<String> = vec!["".into()];
    for p in ptrs {
        for t in ["map", "Date", "", "Map<A, B>", "\u{e9}", "a b"] {
            if p.starts_with('/') || p.is_empty() {
                blocks.push(format!("{{ {}: {{ use_type: {} }} }}", esc(p), esc(t)));
            }
        }
        blocks.push(format!("{{ unwrap: {} }}", esc(p)));
        blocks.push(format!("{{ unwrap: {}, \"/a\": {{ use_type: \"map\" }}, infer_map_threshold: \"0\" }}", esc(p)));
        for p2 in ptrs.iter().skip(1).take(12) {
            blocks.push(format!("{{ {}: {{ use_type: \"map\" }}, {}: {{ use_type: \"map\" }} }}", esc(p), esc(p2)));
            blocks.push(format!("{{ {}: {{ use_type: \"map\" }}, unwrap: {} }}", esc(p), esc(p2)));
        }
    }
    for t in ["0", "1", "2", "18446744073709551615", "18446744073709551616", "-1", "", "x", "1.5"] {
        blocks.push(format!("{{ infer_map_threshold: \"{}\" }}", t));
    }
    for v in ["", " ", ",", ", ,", "::", "a::", "::a", "Debug,,Clone", "\u{e9}", "a b", "#[x]", "Debug,Debug"] {
        blocks.push(format!("{{ derives: {} }}", esc(v)));
        blocks.push(format!("{{ field_visibility: {} }}", esc(v)));
        blocks.push(format!("{{ type_visibility: {} }}", esc(v)));
        blocks.push(format!("{{ property_name_format: {} }}", esc(v)));
    }
    let flags = ["deny_unknown_fields", "use_default_for_missing_fields", "allow_option_vec", "collect_additional", "import_style: \"add_imports\"", "import_style: \"qualified_paths\""];
    for m in 0..64u32 {
        let f: Vec<&str> = (0..6).filter(|k| m >> k & 1 == 1).map(|k| flags[k]).collect();
        blocks.push(format!("{{ {} }}", f.join(", ")));
    }
    blocks.sort();
    blocks.dedup();
    let nb = blocks.len() as u64;
    let u = Universe::new(if th { 5 } else { 4 });
    let nd = u.total();
    run.each(nb * nd, |i| {
        let d = u.nth(i / nb);
        let t = d.text();
        let b = &blocks[(i % nb) as usize];
        run.state(&(&t, b));
        run.step(9 * d.nodes());
        for l in ALL {
            go(run, case("doc", &t, b, l.opt_name()));
        }
    });
    run.count(&format!("family: documents x {} option blocks x 9 modes", nb), nb * nd * 9);
    // structural families, all modes
    for f in [rows(if th { 4 } else { 3 }), tuples(3, 2), long_arrays(20, &consts::scan().ints), long_objects(16, &consts::scan().ints), deep(40)] {
        run.each(f.n, |i| {
            let d = (f.get)(i);
            let t = d.text();
            run.state(&t);
            run.step(d.nodes() * 9);
            for l in ALL {
                go(run, case("doc", &t, ["", "{ use_default_for_missing_fields, collect_additional }", "{ infer_map_threshold: \"1\" }"][(i % 3) as usize], l.opt_name()));
            }
        });
        run.count(&format!("family: {}", f.name), f.n);
    }
    // deep and long texts on a small stack
    let mut sizes: Vec<usize> = (0..=300).step_by(if th { 1 } else { 7 }).collect();
    sizes.extend([255, 256, 257, 512, 1000, 4096, 10_000, 30_000]);
    if th {
        sizes.extend([100_000, 300_000]);
    }
    let mut v = vec![];
    for p in DEEP {
        for n in &sizes {
            // repeated literals are re-scanned by the old parser; keep those moderate
            if (p == "options" || p == "macro" || p.starts_with("sql")) && *n > 4096 {
                continue;
            }
            for l in ALL {
                v.push((p, *n, l));
                if ["options", "macro", "sql", "sql-sub", "open-arr", "open-obj", "close"].contains(&p) {
                    break;
                }
            }
        }
    }
    run.each(v.len() as u64, |i| {
        let (p, n, l) = v[i as usize];
        run.state(&(p, n));
        run.step(n);
        for o in if n < 300 { &["", "{ infer_map_threshold: \"0\" }"][..] } else { &[""][..] } {
            go(run, Case { kind: "deep".into(), name: "Root".into(), opts: o.to_string(), mode: l.opt_name().into(), extra: format!("{}:{}", p, n), ..Default::default() });
        }
    });
    run.count("family: deep and long texts (2 MiB stack)", v.len() as u64);
    // names
    let ch = odd_chars();
    let mut ns: Vec<String> = vec!["".into(), "pub".into(), "pub ".into(), "pub(".into(), "pub()".into(), "pub() ".into(), "pub(crate)".into(), "pub(crate) ".into(), "pub(in a::b) X".into(), "pub  X".into(), "pub(crate)X".into()];
    ns.extend(ch.iter().map(|c| c.to_string()));
    ns.extend(ch.iter().map(|c| format!("{}a", c)));
    ns.extend(ch.iter().map(|c| format!("A{}b", c)));
    ns.extend(words());
    let docs = ["[]", "{}", "[1,\"a\"]", "{\"a\":{\"a\":1},\"b\":[{}]}", "[{\"a\":null},{}]"];
    run.each(ns.len() as u64 * 45, |i| {
        let l = ALL[(i % 9) as usize];
        let d = docs[(i / 9 % 5) as usize];
        let name = ns[(i / 45) as usize].clone();
        run.step(1);
        go(run, Case { name, ..case("doc", d, "", l.opt_name()) });
    });
    run.count("family: root names", ns.len() as u64 * 45);
    // keys x formats
    let ks: Vec<String> = ns.iter().map(|x| x.to_string()).chain(["_", "__", "-", "--a", "a--", " ", "a b c", "1", "11a", "_1", "AAA", "aAaA", "é É", "ǅ", "İi", "ß", "a\u{301}"].map(|x| x.to_string())).collect();
    let fm = ["", "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"];
    let nk = ks.len() as u64;
    run.each(nk * 9 * 9, |i| {
        let l = ALL[(i % 9) as usize];
        let f = fm[(i / 9 % 9) as usize];
        let k = &ks[(i / 81) as usize];
        let t = obj(&[(k, obj(&[(k, int()), ("a", Val::Null)])), ("a", arr(&[obj(&[(k, int())]), obj(&[])]))]).text();
        run.step(1);
        run.state(&(k, f));
        let o = if f.is_empty() { String::new() } else { format!("{{ property_name_format: \"{}\" }}", f) };
        go(run, case("doc", &t, &o, l.opt_name()));
    });
    run.count("family: keys x naming formats x modes", nk * 81);
    // bytes
    run.each(65536 + 256 * 40, |i| {
        let b: Vec<u8> = if i < 65536 {
            vec![(i >> 8) as u8, i as u8]
        } else {
            let j = i - 65536;
            let base = b"[\"\xc3\xa9\\u00e9\",{\"k\":-1.5e+3},null,true]";
            let mut v = base.to_vec();
            let p = (j / 256) as usize % v.len();
            v[p] = j as u8;
            v
        };
        run.step(b.len());
        go(run, Case { kind: "bytes".into(), name: "Root".into(), mode: "shape".into(), extra: super::lexical::hex(&b), ..Default::default() });
    });
    run.count("family: all byte pairs, all single byte replacements", 65536 + 256 * 40);
    // options and macro texts
    let ot = ["{", "}", ",", ":", "\"", "\\", "unwrap", "\"/a\"", "use_type", "true", "false", "derives", "\"x\"", "/", "deny_unknown_fields", "r\"", "r#\"", "\"#", "'", "\u{e9}", " ", "1", "//c\n", "/*", "*/", "b\"x\""];
    let (q, len) = (ot.len() as u64, if th { 5 } else { 4 });
    let n = seq_count(q, len);
    run.each(n, |i| {
        let s: String = seq_nth(q, len, i).into_iter().map(|d| ot[d]).collect();
        run.state(&s);
        run.step(s.len());
        go(run, case("options", &s, "", ""));
        go(run, case("options", &format!("{{ {} }}", s), "", ""));
        go(run, case("options", &format!("{{ \"/a\": {{ {} }} }}", s), "", ""));
        go(run, case("macro-args", &format!("\"A\", \"[1]\", {}", s), "", ""));
    });
    run.count(&format!("family: options texts of <={} tokens", len), n * 4);
    let mt = ["json_typegen!", "(", ")", ";", "\"A\"", ",", "\"[1]\"", "{", "}", "\"", " ", "x", "\\", "derives: \"\"", "r\"[]\""];
    let (q, len) = (mt.len() as u64, if th { 6 } else { 5 });
    let n = seq_count(q, len);
    run.each(n, |i| {
        let s: String = seq_nth(q, len, i).into_iter().map(|d| mt[d]).collect();
        run.step(s.len());
        go(run, case("macro", &s, "", ""));
        go(run, case("macro-args", &s, "", ""));
        go(run, case("macro", &format!("json_typegen!({});", s), "", ""));
    });
    run.count(&format!("family: macro texts of <={} tokens", len), n * 3);
    // escapes in string literals of options and macros
    let ec: Vec<char> = "\\xun0r7Fg{}'\"\n é".chars().collect();
    let (q, len) = (ec.len() as u64, if th { 6 } else { 5 });
    let n = seq_count(q, len);
    run.each(n, |i| {
        let s: String = seq_nth(q, len, i).into_iter().map(|d| ec[d]).collect();
        run.step(s.len());
        go(run, case("options", &format!("{{ derives: \"\\{}\" }}", s), "", ""));
        go(run, case("macro-args", &format!("\"{}\", \"[]\"", s), "", ""));
    });
    run.count(&format!("family: string literals of <={} characters after a backslash", len), n * 2);
    // SQL
    let sq = ["CREATE", "TABLE", "t", "(", ")", "a", "INT", ",", "NOT NULL", ";", "\"", "'", "DEFAULT", "1", "\"\"", "ENUM", "--", "/*", "SELECT", "\u{e9}", "VARCHAR(99999999999999999999)", "AS"];
    let (q, len) = (sq.len() as u64, if th { 5 } else { 4 });
    let n = seq_count(q, len);
    run.each(n, |i| {
        let s: String = seq_nth(q, len, i).into_iter().map(|d| sq[d]).collect::<Vec<_>>().join(" ");
        run.step(s.len());
        go(run, case("sql", &s, "{ input_mode: \"sql\" }", ALL[(i % 9) as usize].opt_name()));
        go(run, case("sql", &format!("CREATE TABLE t ({})", s), "{ input_mode: \"sql\" }", ALL[(i % 9) as usize].opt_name()));
    });
    run.count(&format!("family: SQL texts of <={} tokens", len), n * 2);
    // shapes handed to the generators directly
    let n = shape_count();
    run.each(n * 9, |i| {
        let l = ALL[(i % 9) as usize];
        run.step(1);
        go(run, Case { kind: "shape".into(), name: "Root".into(), mode: l.opt_name().into(), extra: (i / 9).to_string(), ..Default::default() });
    });
    run.count("family: shapes given directly", n * 9);
    run.sample("{\"a\":[1]} with \"/a\": { use_type: \"map\" } in every mode".into());
    run.sample("30000 times [ on a 2 MiB stack".into());
    let _ = Options::default();
}

pub fn replay(run: &Run, c: &Case) {
    if c.kind == "deep" || Lang::from_name(&c.mode).is_some() || c.mode.is_empty() {
        go(run, c.clone());
    }
}
