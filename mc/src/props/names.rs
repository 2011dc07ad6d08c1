//! C08 (keys) and C09 (type names).
use super::sweep::{Req, sweep};
use crate::consts;
use crate::drive::Run;
use crate::gen_::{digits, seq_count, seq_nth};
use crate::json::*;
use crate::lang::{ALL, Lang, kotlin, python, rust};
use std::collections::BTreeSet;

/// Characters with distinct treatment somewhere: in identifiers, literals or case mapping.
pub fn odd_chars() -> Vec<char> {
    let mut v: Vec<char> = (0u8..128).map(|c| c as char).collect();
    v.extend("éßÅİıŉǆǅªº²٣Ⅷſ中あ\u{301}\u{200d}\u{200b}\u{2028}\u{2029}\u{feff}\u{202e}\u{2066}\u{85}\u{a0}\u{ad}\u{7ff}\u{800}\u{fffd}\u{ffff}\u{10000}\u{1f600}\u{1d7d8}\u{10ffff}\u{e000}ͺΣςΐﬁ⓪①𝐀".chars());
    v
}

fn caps(s: &str) -> String {
    let mut c = s.chars();
    match c.next() {
        Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
        None => String::new(),
    }
}

/// Words that mean something in a target language, to the generator, or to a serialization library.
pub fn words() -> Vec<String> {
    let mut s: BTreeSet<String> = BTreeSet::new();
    for k in rust::KEYWORDS.iter().chain(kotlin::KEYWORDS).chain(python::KEYWORDS).chain(python::BASE_MODEL) {
        s.insert(k.to_string());
    }
    for k in [
        "union", "static", "raw", "safe", "macro_rules", "default", "auto", "r#type", "crate", "str", "u8", "usize",
        "i64", "f64", "bool", "char", "String", "Vec", "Option", "Box", "HashMap", "Value", "Some", "None", "Ok", "Err",
        "Result", "Self", "Default", "Debug", "Clone", "PartialEq", "Serialize", "Deserialize", "serde", "serde_json",
        "std", "core", "Int", "Long", "Double", "Boolean", "List", "Map", "Pair", "Triple", "Any", "Nothing", "Unit",
        "Array", "Set", "MutableMap", "JsonProperty", "JsonNaming", "JsonAnyGetter", "JsonAnySetter", "Serializable",
        "SerialName", "PropertyNamingStrategies", "mutableMapOf", "field", "it", "value", "data", "suspend", "open", "int",
        "float", "list", "dict", "tuple", "object", "type", "id", "Field", "BaseModel", "Optional", "typing", "pydantic",
        "match", "case", "print", "self", "cls", "number", "string", "boolean", "any", "unknown", "never", "void",
        "undefined", "__proto__", "hasOwnProperty", "valueOf", "prototype", "__defineGetter__", "then", "Record", "Date", "Object", "Function", "Symbol", "Number", "interface", "enum", "export", "let",
        "const", "var", "new", "delete", "constructor", "toString", "arguments", "eval", "additional_fields",
        "additionalFields", "additional", "z", "Root", "root", "GeneratedType", "field1", "definitions", "properties",
        "required", "items", "$schema", "$ref", "title", "name", "class", "news", "data", "series", "status", "bus",
        "addresses", "boxes", "people", "children", "s", "ss", "es", "ies", "As", "a_b", "aB", "AB", "URL", "HTTPServer",
    ] {
        s.insert(k.to_string());
    }
    for k in consts::scan().strings {
        s.insert(k);
    }
    s.into_iter().collect()
}

pub fn variants(w: &str) -> Vec<String> {
    let mut v = vec![
        w.to_string(),
        caps(w),
        w.to_uppercase(),
        w.to_lowercase(),
        format!("{}_", w),
        format!("_{}", w),
        format!("{}s", w),
        format!("{}2", w),
        format!("2{}", w),
        format!("{}-", w),
        format!("@{}", w),
        format!("{}?", w),
        format!("{} {}", w, w),
    ];
    let mut seen = BTreeSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

/// Names that end up close to each other in some language.
pub fn colliding() -> Vec<String> {
    [
        "a", "A", "a_", "_a", "__a", "a-", "-a", " a", "a ", "a b", "a-b", "a_b", "aB", "AB", "ab", "a.b", "a1", "a_1", "a2", "a_2",
        "1a", "_1a", "1", "_1", "", "_", "__", "-", "é", "aé", "éa", "type", "type_", "_type", "Type", "TYPE", "r#type", "type_field",
        "self", "field", "field1", "field_1", "Field", "additional_fields", "additionalFields", "\u{0}", "\"", "\\", "$", "$a", "a$",
        "${a}", "list", "List", "int", "str", "i64", "String", "string", "Root", "root", "none", "None", "null", "true", "in", "In",
        "\u{2028}", "a\nb", "a'b", "`", "a`b", "😀", "aa", "as", "as_", "class", "class_", "clazz",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}

fn o1(k: &str, v: Val) -> Val {
    Val::Obj(vec![(k.to_string(), v)])
}

/// The generator's reading of keys is checked except where a mode cannot express it.
fn fits(_k: &str) -> bool {
    true
}

pub fn c08(run: &Run) {
    let odd = odd_chars();
    let n = odd.len() as u64;
    // every character alone, before, after and between letters
    sweep(run, "one odd character, in 6 contexts", &ALL, n * 6, |i| {
        let c = odd[(i / 6) as usize];
        let k = match i % 6 {
            0 => format!("{}", c),
            1 => format!("a{}", c),
            2 => format!("{}a", c),
            3 => format!("a{}b", c),
            4 => format!("{}{}", c, c),
            _ => format!("a{}1", c),
        };
        // the last context makes the member optional, too
        if i % 6 == 5 {
            return Req::doc(arr(&[o1(&k, int()), obj(&[])]));
        }
        Req::doc(o1(&k, int()))
    });
    let alpha: Vec<char> = "aA1_- \"\\$é{'\nu".chars().collect();
    let len = if run.thorough { 4 } else { 3 };
    sweep(run, &format!("all keys of length <={} over {:?}", len, alpha.iter().collect::<String>()), &ALL, seq_count(alpha.len() as u64, len), |i| {
        let k: String = seq_nth(alpha.len() as u64, len, i).into_iter().map(|d| alpha[d]).collect();
        Req::doc(o1(&k, int()))
    });
    // every character of the basic plane (and a selection of the others): alone and within a word
    let mut cps: Vec<char> = (0x80u32..0x10000).filter_map(char::from_u32).collect();
    let mut step = 0x10000u32;
    while step < 0x110000 {
        cps.extend(char::from_u32(step));
        step += if run.thorough { 1 } else if step < 0x20000 { 7 } else { 0xfff };
    }
    sweep(run, "every character outside ASCII, alone and within a word", &ALL, cps.len() as u64, |i| {
        let c = cps[i as usize];
        Req::doc(Val::Obj(vec![(c.to_string(), int()), (format!("a{}b", c), st()), (format!("A{}", c), Val::Null)]))
    });
    let mut w: BTreeSet<String> = BTreeSet::new();
    for x in words() {
        w.extend(variants(&x));
    }
    w.extend(colliding());
    w.retain(|k| fits(k));
    let w: Vec<String> = w.into_iter().collect();
    let vals = [int(), obj(&[("x", int())]), arr(&[obj(&[("x", int())])]), Val::Null];
    sweep(run, "reserved and meaningful words and their variants", &ALL, w.len() as u64 * 4, |i| {
        Req::doc(o1(&w[(i / 4) as usize], vals[(i % 4) as usize].clone()))
    });
    // long names, alone and with another that only differs at the end
    let sz = long_sizes(run.thorough);
    sweep(run, "names of up to 1025 characters, and pairs that differ at the end", &ALL, sz.len() as u64 * 7 * 4, |i| {
        let (w, shape) = (i % 4, i / 4 % 7);
        let n = sz[(i / 28) as usize];
        let k = |j| long_name(shape, n, j);
        Req::doc(match w {
            0 => o1(&k(0), int()),
            1 => Val::Obj(vec![(k(1), int()), (k(3), st())]),
            2 => Val::Obj(vec![(k(0), o1("x", int())), (k(2), arr(&[o1("y", int())]))]),
            _ => arr(&[Val::Obj(vec![(k(0), int()), (k(1), Val::Null)]), o1(&k(0), int())]),
        })
    });
    // hundreds of names that want the same identifier
    let many = [50u64, 64, 65, 99, 100, 101, 128, 129, 200, 255, 256, 257, 300, 500, 513, 1000];
    sweep(run, "up to 1000 names that want the same identifier", &ALL, many.len() as u64 * 3, |i| {
        let n = many[(i / 3) as usize];
        let base = ["a", "item_", "1"][(i % 3) as usize];
        Req::doc(Val::Obj(
            (0..n)
                .map(|j| (format!("{}{}", base, digits(j, 5, 5).into_iter().map(|d| ["_", "-", " ", ".", "/"][d]).collect::<String>()), [int(), st()][(j % 2) as usize].clone()))
                .collect(),
        ))
    });
    // pairs and triples of names that may coincide after conversion
    let c = colliding();
    let m = c.len() as u64;
    sweep(run, "pairs of colliding names", &ALL, m * m * 2, |i| {
        let (a, b) = (&c[(i / 2 / m) as usize], &c[(i / 2 % m) as usize]);
        if a == b {
            return Req::doc(o1(a, st()));
        }
        let v = if i % 2 == 0 { [int(), st()] } else { [obj(&[("x", int())]), arr(&[obj(&[("y", int())])])] };
        let [x, y] = v;
        Req::doc(Val::Obj(vec![(a.clone(), x), (b.clone(), y)]))
    });
    let t = if run.thorough { 40 } else { 26 };
    sweep(run, "triples of colliding names", &ALL, t * t * t, |i| {
        let d = digits(i, t, 3);
        let mut f: Vec<(String, Val)> = vec![];
        for (j, x) in d.iter().enumerate() {
            let k = &c[*x];
            if !f.iter().any(|(q, _)| q == k) {
                f.push((k.clone(), [int(), st(), flt()][j].clone()));
            }
        }
        Req::doc(Val::Obj(f))
    });
    // many names that want the same identifier
    let pool = |b: &str| -> Vec<String> {
        let sep = ["", "_", "-", " ", ".", "/", "é"];
        let mut v: Vec<String> = vec![];
        for (i, j) in (0..49).map(|x| (x % 7, x / 7)) {
            for k in [format!("{}{}{}", sep[i], b, sep[j]), format!("{}{}{}{}", sep[i], sep[j], b, sep[j])] {
                if !v.contains(&k) {
                    v.push(k);
                }
            }
        }
        v
    };
    let bases = ["a", "type", "1", "a2", "", "aB", "list", "additional_fields", "field", "n1"];
    let most = if run.thorough { 60 } else { 40 };
    sweep(run, &format!("up to {} names that want the same identifier", most), &ALL, bases.len() as u64 * most * 3, |i| {
        let p = pool(bases[(i % 10) as usize]);
        let (n, w) = ((i / 10 % most) as usize + 1, i / 10 / most);
        let mut ks: Vec<String> = p.into_iter().take(n).collect();
        match w {
            1 => ks.reverse(),
            // the numbered names are taken, too
            2 => ks = (0..ks.len()).flat_map(|j| [format!("{}{}", bases[(i % 10) as usize], j), ks[j].clone()]).collect(),
            _ => {}
        }
        let mut f: Vec<(String, Val)> = vec![];
        for (j, k) in ks.into_iter().enumerate() {
            if !f.iter().any(|x| x.0 == k) {
                f.push((k, [int(), st(), obj(&[("x", int())])][j % 3].clone()));
            }
        }
        Req::doc(Val::Obj(f))
    });
    // every pair of consecutive characters of a wide alphabet
    let wide: Vec<char> = odd.iter().copied().filter(|c| !c.is_ascii_alphanumeric() || "aAzZ019u".contains(*c)).collect();
    let q = wide.len() as u64;
    sweep(run, "all pairs of special characters", &ALL, q * q, |i| {
        let k: String = [wide[(i / q) as usize], wide[(i % q) as usize]].iter().collect();
        Req::doc(o1(&k, int()))
    });
}

/// Names of one length, in several shapes; `j` tells names of the same shape and length apart.
pub fn long_name(shape: u64, n: usize, j: usize) -> String {
    let tail = ["", "b", "_c", "D"][j];
    match shape {
        0 => "a".repeat(n) + tail,
        1 => "aB".repeat(n / 2 + 1)[..n].to_string() + tail,
        2 => "a_".repeat(n / 2 + 1)[..n].to_string() + tail,
        3 => "\u{e9}".repeat(n) + tail,
        4 => "1".repeat(n) + tail,
        5 => "a\"\\".repeat(n / 3 + 1)[..n].to_string() + tail,
        _ => "ab ".repeat(n / 3 + 1)[..n].to_string() + "s" + tail,
    }
}

pub fn long_sizes(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=if thorough { 300 } else { 140 }).collect();
    v.extend([199, 200, 201, 250, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025]);
    if thorough {
        v.extend([2047, 2048, 4095, 4096, 4097, 65535, 65536]);
    }
    v.sort();
    v.dedup();
    v
}

pub fn type_words() -> Vec<String> {
    let mut v: BTreeSet<String> = [
        "a", "as", "item", "items", "item2", "items2", "Item", "item_2", "root", "roots", "Root", "root2", "node", "nodes", "generated_type", "generatedType",
        "", "1", "1a", "é", "_", "url", "URL", "urls", "i64", "string", "String", "strings", "vec", "option", "options",
        "box", "boxes", "value", "values", "hash_map", "hashMap", "some", "none", "ok", "err", "result", "default", "debug", "clone",
        "partial_eq", "serialize", "deserialize", "self", "Self", "any", "anys", "long", "double", "boolean", "list", "lists", "map", "maps",
        "pair", "triple", "int", "number", "array", "arrays", "date", "object", "record", "records", "json_property", "jsonNaming", "serializable",
        "serial_name", "json_any_getter", "jsonAnySetter", "property_naming_strategies", "base_model", "baseModels", "optional", "field", "fields", "dict", "tuple", "true", "false", "null", "nil", "symbol", "function", "class",
        "type", "types", "typing", "pydantic", "z", "promise", "partial", "readonly", "pick", "error", "set", "sets", "char", "byte", "short", "float", "unit", "nothing", "throwable", "str",
        "bool", "u8", "iterator", "iterators", "into", "from", "drop", "copy", "send", "sized", "sync", "fn", "to_string", "news", "series", "data", "children",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for k in consts::scan().strings {
        if k.len() < 20 && !k.contains(['/', '"']) {
            v.insert(k);
        }
    }
    v.into_iter().collect()
}

const NAMED: [Lang; 6] = [Lang::Rust, Lang::Ts, Lang::Jackson, Lang::Kotlinx, Lang::Python, Lang::Zod];

pub fn forms(i: u64, a: &str, b: &str) -> Val {
    let x = obj(&[("x", int())]);
    let y = obj(&[("y", st())]);
    let two = |p: Val, q: Val| if a == b { o1(a, p) } else { Val::Obj(vec![(a.to_string(), p), (b.to_string(), q)]) };
    match i {
        // different types side by side
        0 => two(x, y),
        // nested in each other
        1 => o1(a, o1(b, x)),
        // list elements, whose names are made singular
        2 => two(arr(&[x.clone(), x]), y),
        // shared type
        3 => two(x.clone(), arr(&[x])),
        // external names are needed as well (any, map, optional)
        4 => arr(&[two(obj(&[("x", arr(&[int(), st()])), ("y", Val::Null), ("z", obj(&[]))]), obj(&[("x", arr(&[int(), st()]))])), obj(&[])]),
        // three levels of the same name
        _ => o1(a, o1(a, o1(b, o1(a, int())))),
    }
}

pub fn c09(run: &Run) {
    let w = type_words();
    let n = w.len() as u64;
    sweep(run, "one name in 6 forms, 5 root names", &NAMED, n * 30, |i| {
        let a = &w[(i / 30) as usize];
        let root = ["Root", "FOO", "foo", "Item", "Node2"][(i / 6 % 5) as usize];
        Req::named(forms(i % 6, a, a), root)
    });
    let small: Vec<String> = if run.thorough { w.clone() } else { w.iter().filter(|s| s.len() <= 6).cloned().collect() };
    let m = small.len() as u64;
    sweep(run, "pairs of names in 6 forms", &NAMED, m * m * 6, |i| {
        let (a, b) = (&small[(i / 6 / m) as usize], &small[(i / 6 % m) as usize]);
        Req::doc(forms(i % 6, a, b))
    });
    // root names that coincide with member names
    let roots = ["Item", "Items", "Item2", "Node", "A", "As", "Url", "URL", "url", "item", "GeneratedType", "Field2", "É"];
    let roots: Vec<&str> = roots.iter().copied().filter(|r| r.is_ascii()).collect();
    let k = ["item", "items", "Item", "ITEM", "item2", "item_2", "node", "a", "as", "url", "URL", "Url", "generated_type", "field2", ""];
    let (r, q) = (roots.len() as u64, k.len() as u64);
    sweep(run, "root names against pairs of member names", &NAMED, r * q * q * 8, |i| {
        let (f, i) = (i % 8, i / 8);
        let (a, b) = (k[(i % q) as usize], k[(i / q % q) as usize]);
        let name = roots[(i / q / q) as usize];
        match f {
            6 => Req::named(arr(&[forms(0, a, b), obj(&[])]), name),
            7 => Req::named(arr(&[arr(&[forms(1, a, b)])]), name),
            f => Req::named(forms(f, a, b), name),
        }
    });
    // numbering: many types that want the same name
    let names = ["item", "Item", "ITEM", "item2", "item_2", "Item3", "items", "item-", "item 2"];
    let t = names.len() as u64;
    let depth = if run.thorough { 6 } else { 5 };
    sweep(run, &format!("chains of <={} names that number each other", depth), &NAMED, seq_count(t, depth), |i| {
        let s = seq_nth(t, depth, i);
        let mut v = obj(&[("x", int())]);
        for (j, d) in s.iter().enumerate() {
            v = Val::Obj(vec![(names[*d].to_string(), v), (format!("y{}", j), int())]);
        }
        Req::named(v, if i % 2 == 0 { "Root" } else { "Item" })
    });
    // long names of types, alone and with another that only differs at the end
    let sz = long_sizes(run.thorough);
    sweep(run, "type names of up to 1025 characters, and pairs that differ at the end", &NAMED, sz.len() as u64 * 7 * 3, |i| {
        let (w, shape) = (i % 3, i / 3 % 7);
        let n = sz[(i / 21) as usize];
        let k = |j| long_name(shape, n, j);
        Req::doc(match w {
            0 => Val::Obj(vec![(k(1), o1("x", int())), (k(3), o1("y", int()))]),
            1 => o1(&k(0), Val::Obj(vec![(k(0), o1("x", int())), (k(2), arr(&[o1("y", int())]))])),
            _ => Val::Obj(vec![(k(0) + "s", arr(&[o1("x", int()), obj(&[])])), (k(0), o1("y", int()))]),
        })
    });
    // hundreds of different types
    let many = [50u64, 64, 65, 99, 100, 101, 128, 129, 200, 255, 256, 257, 300];
    sweep(run, "up to 300 types that want the same name or different ones", &NAMED, many.len() as u64 * 3, |i| {
        let n = many[(i / 3) as usize];
        Req::doc(Val::Obj((0..n).map(|j| match i % 3 {
            0 => (format!("p{}", j), o1("item", o1(&format!("x{}", j), int()))),
            1 => (format!("item{}", j), arr(&[o1(&format!("x{}", j), int())])),
            _ => (format!("item{}", digits(j, 5, 4).into_iter().map(|d| ["_", "-", " ", ".", "/"][d]).collect::<String>()), o1(&format!("x{}", j), int())),
        }).collect()))
    });
    // many different types that want the same name
    let most = if run.thorough { 40 } else { 24 };
    let bases = ["a", "item", "items", "a2", "1", "", "type", "root", "Root", "string", "a_2"];
    let b = bases.len() as u64;
    sweep(run, &format!("up to {} types that want the same name, nested and side by side", most), &NAMED, b * most * 4, |i| {
        let k = bases[(i % b) as usize];
        let (n, w) = ((i / b % most) as usize, i / b / most);
        Req::doc(match w {
            0 | 1 => {
                let mut v = obj(&[("x", int())]);
                for j in 0..n {
                    v = Val::Obj(vec![(k.to_string(), if w == 0 { v } else { arr(&[v]) }), (format!("y{}", j), int())]);
                }
                v
            }
            2 => Val::Obj((0..n).map(|j| (format!("p{}", j), o1(k, o1(&format!("x{}", j), int())))).collect()),
            _ => Val::Obj((0..n).map(|j| (format!("{}{}", k, "_".repeat(j)), o1(&format!("x{}", j), int()))).collect()),
        })
    });
    let f = crate::gen_::near(run.thorough);
    sweep(run, &f.name, &NAMED, f.n, |i| Req::doc((f.get)(i)));
    // sharing: two positions whose objects are equal, or differ in one member, order, optionality or nullability
    let shapes = [
        obj(&[]),
        obj(&[("x", int())]),
        obj(&[("x", flt())]),
        obj(&[("x", Val::Null)]),
        obj(&[("x", int()), ("y", st())]),
        obj(&[("y", st()), ("x", int())]),
        obj(&[("x", Val::Null), ("y", st())]),
        obj(&[("x", arr(&[]))]),
        obj(&[("x", arr(&[int()]))]),
        obj(&[("x", arr(&[Val::Null]))]),
        obj(&[("x", obj(&[]))]),
        obj(&[("x", obj(&[("x", int())]))]),
        obj(&[("x", arr(&[obj(&[("x", int())]), obj(&[])]))]),
    ];
    let g = shapes.len() as u64;
    sweep(run, "sharing of similar object types at three positions", &NAMED, g * g * g * 3, |i| {
        let (f, i) = (i % 3, i / 3);
        let d = digits(i, g, 3);
        let (a, b, c) = (shapes[d[0]].clone(), shapes[d[1]].clone(), shapes[d[2]].clone());
        Req::doc(match f {
            0 => obj(&[("p", a), ("q", b), ("r", c)]),
            1 => obj(&[("p", arr(&[a, b])), ("q", c)]),
            _ => obj(&[("p", arr(&[obj(&[("p", a)]), obj(&[("p", Val::Null)])])), ("q", obj(&[("p", b)])), ("r", arr(&[obj(&[("p", c)]), obj(&[])]))]),
        })
    });
}
