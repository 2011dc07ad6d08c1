//! C10 (what is accepted) and C11 (spelling does not matter).
use crate::drive::{Case, Run};
use crate::gen_::{Universe, seq_count, seq_nth};
use crate::imp;
use crate::json::{Ref, Val, parse as jparse, *};
use crate::lang::{self, ALL, Lang, SEM, Style};
use crate::model::infer;
use json_typegen_shared::codegen;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// A repeated member counts with its last occurrence.
pub fn last_wins(v: &Val) -> Val {
    match v {
        Val::Arr(a) => Val::Arr(a.iter().map(last_wins).collect()),
        Val::Obj(f) => {
            let mut o: Vec<(String, Val)> = vec![];
            for (k, x) in f {
                o.retain(|y| y.0 != *k);
                o.push((k.clone(), last_wins(x)));
            }
            Val::Obj(o)
        }
        v => v.clone(),
    }
}

fn depth(v: &Val) -> usize {
    match v {
        Val::Arr(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        Val::Obj(f) => 1 + f.iter().map(|x| depth(&x.1)).max().unwrap_or(0),
        _ => 0,
    }
}

/// The reference says whether these bytes are a sample; so must the implementation, from a file and inline.
pub fn judge(run: &Run, b: &[u8]) {
    run.doc();
    let r = jparse(b);
    run.step(b.len());
    let mut c = Case { kind: "bytes".into(), name: "Root".into(), input: String::from_utf8_lossy(b).into(), extra: hex(b), mode: "shape".into(), ..Default::default() };
    let text = std::str::from_utf8(b).ok();
    let mut ways = vec!["file"];
    if imp::inline(b) {
        // white space around an inline sample is ignored even where JSON does not allow it
        let t = text.unwrap();
        if t.trim() == t.trim_matches([' ', '\t', '\n', '\r']) {
            ways.push("inline");
        }
    }
    for w in ways {
        c.opts = String::new();
        c.kind = format!("bytes/{}", w);
        let got = run.call(&c, || {
            let o = imp::options("", "shape").unwrap();
            let r = if w == "inline" { codegen("Root", text.unwrap(), o) } else { codegen("Root", &imp::as_file(run, b), o) };
            r.map_err(|e| imp::err_text(&e))
        });
        let got = match got {
            Err(p) => {
                run.violation("panic", p, c.clone());
                continue;
            }
            Ok(g) => g,
        };
        run.valid();
        match (&r, got) {
            (Ref::DontCare(_), _) => {}
            // a byte order mark may be skipped
            (Ref::Bad(_), Ok(_)) if b.starts_with(&[0xef, 0xbb, 0xbf]) && matches!(jparse(&b[3..]), Ref::Ok(_)) => {}
            (Ref::Bad(why), Ok(code)) => {
                run.violation("accepted", format!("not JSON ({}), but types are produced:\n{}", why, code), c.clone())
            }
            (Ref::Ok(v), Err(e)) => {
                if depth(v) <= 200 {
                    run.violation("rejected", format!("well-formed JSON is rejected: {}", e), c.clone())
                }
            }
            (Ref::Ok(v), Ok(code)) => {
                let r = infer(&last_wins(v));
                run.state(&r);
                match lang::parse(Lang::Shape, &code, "Root", Style::Add).and_then(|m| lang::denotes(Lang::Shape, &m, "Root", &r, SEM).map_err(|e| e.msg)) {
                    Ok(_) => {}
                    Err(e) => run.violation("type", format!("accepted with another type: {}\nexpected {:?}\n{}", e, r, code), c.clone()),
                }
            }
            (Ref::Bad(w), Err(_)) => {
                run.state(w);
            }
        }
    }
}

pub fn replay_bytes(run: &Run, c: &Case) {
    if c.opts.is_empty() { judge(run, &unhex(&c.extra)) } else { judge_under(run, &unhex(&c.extra), &c.opts) }
}

/// Also where a part of the sample is passed over or only counted, it has to be well-formed.
fn judge_under(run: &Run, b: &[u8], opts: &str) {
    run.doc();
    let r = jparse(b);
    run.step(b.len());
    let text = String::from_utf8_lossy(b).to_string();
    let c = Case { kind: "under".into(), name: "Root".into(), input: text.clone(), extra: hex(b), opts: opts.into(), mode: "shape".into() };
    let got = run.call(&c, || {
        let o = imp::options(opts, "shape").unwrap();
        // white space around an inline sample is ignored even where JSON does not allow it
        let same = text.trim() == text.trim_matches([' ', '\t', '\n', '\r']);
        let r = if imp::inline(b) && same { codegen("Root", &text, o) } else { codegen("Root", &imp::as_file(run, b), o) };
        r.map_err(|e| imp::err_text(&e))
    });
    match (r, got) {
        (_, Err(p)) => run.violation("panic", p, c),
        (Ref::Bad(_), Ok(Ok(_))) if b.starts_with(&[0xef, 0xbb, 0xbf]) => {}
        (Ref::Bad(why), Ok(Ok(code))) => run.violation("accepted", format!("not JSON ({}), but types are produced under {}:\n{}", why, opts, code), c),
        (Ref::Ok(v), Ok(Err(e))) if !opts.contains("unwrap") && depth(&v) <= 200 => run.violation("rejected", format!("well-formed JSON is rejected under {}: {}", opts, e), c),
        (Ref::DontCare(_), _) => {}
        (r, _) => {
            run.valid();
            run.state(&(matches!(r, Ref::Ok(_)), opts));
        }
    }
}

const UNDER: [&str; 7] = [
    "{unwrap: \"/-\"}",
    "{unwrap: \"/a\"}",
    "{unwrap: \"/0\"}",
    "{\"\": {use_type: \"T\"}}",
    "{\"/-\": {use_type: \"T\"}, \"/z\": {use_type: \"U\"}}",
    "{\"/1\": {use_type: \"T\"}, \"/-/-\": {use_type: \"U\"}}",
    "{infer_map_threshold: \"0\"}",
];

/// Texts as they are, as the last element of an array, and as the last member of an object.
fn passed_over(run: &Run, label: &str, n: u64, get: impl Fn(u64) -> Vec<u8> + Sync) {
    run.each(n * 3, |i| {
        let t = get(i / 3);
        let t = match i % 3 {
            0 => t,
            1 => [b"[0,", &t[..], b"]"].concat(),
            _ => [b"{\"a\":0,\"z\":", &t[..], b"}"].concat(),
        };
        for o in UNDER {
            judge_under(run, &t, o);
        }
    });
    run.count(&format!("family: {}, alone and within, under 7 options", label), n * 3 * 7);
}

fn space(run: &Run, label: &str, n: u64, get: impl Fn(u64) -> Vec<u8> + Sync) {
    run.each(n, |i| judge(run, &get(i)));
    run.count(&format!("family: {}", label), n);
    for i in [n / 3, n / 2, n - 1] {
        run.sample(String::from_utf8_lossy(&get(i)).chars().take(120).collect());
    }
}

pub fn seeds() -> Vec<&'static str> {
    vec![
        "null",
        "true",
        "false",
        "-0.5e+10",
        "\"a\\u0041\\n\u{e9}\u{1f600}\\ud83d\\ude00\"",
        "[]",
        "{}",
        "[1, [2.5, \"x\"], {\"a\": null}]",
        "{\"a\": [true, false], \"b\\\"c\": {\"d\": -12}, \"\": \"\"}",
        " [ 1 , 2 ]\n",
        "[0,-0,0.0,1E5,10]",
        "{\"k\":{\"k\":{\"k\":[[[]]]}}}",
    ]
}

pub fn c10(run: &Run) {
    let th = run.thorough;
    // token sequences
    let toks: Vec<&str> = vec!["{", "}", "[", "]", ",", ":", "\"a\"", "1", "null", "true", "-0.5"];
    let len = if th { 7 } else { 6 };
    let k = toks.len() as u64;
    space(run, &format!("all sequences of <={} tokens", len), seq_count(k, len), |i| {
        seq_nth(k, len, i).into_iter().map(|d| toks[d]).collect::<Vec<_>>().join("").into_bytes()
    });
    // ... separated by blanks, so that no two tokens run together
    let l2 = if th { 6 } else { 5 };
    space(run, &format!("all sequences of <={} tokens with blanks", l2), seq_count(k, l2), |i| {
        seq_nth(k, l2, i).into_iter().map(|d| toks[d]).collect::<Vec<_>>().join(" ").into_bytes()
    });
    // bytes
    let bytes: &[u8] = b"{}[],:\"\\01-.ea \n\x00\x0c\xc3\xa9\xef";
    let k = bytes.len() as u64;
    let len = if th { 5 } else { 4 };
    space(run, &format!("all byte strings of length <={} over {} bytes", len, k), seq_count(k, len), |i| {
        seq_nth(k, len, i).into_iter().map(|d| bytes[d]).collect()
    });
    // number lexemes, alone and inside an array
    let num = b"01-+.eE";
    let len = if th { 8 } else { 7 };
    space(run, &format!("all number lexemes of length <={}", len), seq_count(7, len) * 2, |i| {
        let s: Vec<u8> = seq_nth(7, len, i / 2).into_iter().map(|d| num[d]).collect();
        if i % 2 == 0 { s } else { [b"[", &s[..], b"]"].concat() }
    });
    // every byte after and before each kind of number and literal
    let heads: [&[u8]; 12] = [b"1", b"-1", b"0", b"1.5", b"1e5", b"1E-7", b"null", b"true", b"false", b"\"a\"", b"[]", b"{}"];
    space(run, "every byte before and after a token", 12 * 256 * 2, |i| {
        let h = heads[(i / 512) as usize];
        let b = (i / 2 % 256) as u8;
        if i % 2 == 0 { [h, &[b]].concat() } else { [&[b], h].concat() }
    });
    // literals: all strings over their letters
    let lit = b"truefalsn";
    let lit: Vec<u8> = {
        let mut v = lit.to_vec();
        v.sort();
        v.dedup();
        v.push(b'N');
        v
    };
    let k = lit.len() as u64;
    space(run, "all strings of <=5 letters of the literals", seq_count(k, 5), |i| seq_nth(k, 5, i).into_iter().map(|d| lit[d]).collect());
    // string bodies, as value and as key
    let atoms: Vec<&[u8]> = vec![
        b"a", b"\\n", b"\\\"", b"\\\\", b"\\/", b"\\u0041", b"\\ud83d\\ude00", b"\\x", b"\\u12", b"\\u00g0", b"\\", b"\"", b"\xc3\xa9", b"\xff",
        b"\xc3", b"\xe2\x80", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf0\x9f\x98\x80", b"\xf4\x90\x80\x80", b"\\U0041", b"\\u0000", b"{", b"\x7f", b"\\ud83d",
    ];
    let k = atoms.len() as u64;
    let len = if th { 4 } else { 3 };
    space(run, &format!("all string bodies of <={} atoms, as value and key", len), seq_count(k, len) * 2, |i| {
        let s: Vec<u8> = seq_nth(k, len, i / 2).into_iter().flat_map(|d| atoms[d].to_vec()).collect();
        if i % 2 == 0 { [b"[\"", &s[..], b"\"]"].concat() } else { [b"{\"", &s[..], b"\":1}"].concat() }
    });
    // sequences of bytes of every class, in strings: UTF-8 and what is not
    let cls: &[u8] = if th {
        &[0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfc, 0xfe, 0xff]
    } else {
        &[0x41, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc1, 0xc2, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff]
    };
    let k = cls.len() as u64;
    space(run, &format!("all strings of <=5 bytes over {} classes", k), seq_count(k, 4) * 2 + k * k * k * k, |i| {
        let (s, key): (Vec<u8>, bool) = if i < seq_count(k, 4) * 2 {
            (seq_nth(k, 4, i / 2).into_iter().map(|d| cls[d]).collect(), i % 2 == 1)
        } else {
            (crate::gen_::digits(i - seq_count(k, 4) * 2, k, 4).into_iter().map(|d| cls[d]).chain([0x80]).collect(), false)
        };
        if key { [b"{\"", &s[..], b"\":1}"].concat() } else { [b"[\"", &s[..], b"\"]"].concat() }
    });
    // every escape letter
    space(run, "every byte after a backslash, and as each digit of a unicode escape", 256 * 5, |i| {
        let b = (i / 5) as u8;
        match i % 5 {
            0 => [b"[\"\\", &[b][..], b"\"]"].concat(),
            j => {
                let mut u = *b"0041";
                u[(j - 1) as usize] = b;
                [b"[\"\\u", &u[..], b"\"]"].concat()
            }
        }
    });
    // the same, where the sample is only partly looked at
    let k = toks.len() as u64;
    let len = if th { 6 } else { 5 };
    passed_over(run, &format!("all sequences of <={} tokens", len), seq_count(k, len), |i| {
        seq_nth(k, len, i).into_iter().map(|d| toks[d]).collect::<Vec<_>>().join("").into_bytes()
    });
    let len = if th { 7 } else { 5 };
    passed_over(run, &format!("all number lexemes of length <={}", len), seq_count(7, len), |i| seq_nth(7, len, i).into_iter().map(|d| num[d]).collect());
    let k = lit.len() as u64;
    passed_over(run, "all strings of <=4 letters of the literals", seq_count(k, 4), |i| seq_nth(k, 4, i).into_iter().map(|d| lit[d]).collect());
    let k = atoms.len() as u64;
    passed_over(run, "all string bodies of <=2 atoms, as value and key", seq_count(k, 2) * 2, |i| {
        let s: Vec<u8> = seq_nth(k, 2, i / 2).into_iter().flat_map(|d| atoms[d].to_vec()).collect();
        if i % 2 == 0 { [b"[\"", &s[..], b"\"]"].concat() } else { [b"{\"", &s[..], b"\":1}"].concat() }
    });
    passed_over(run, "every byte after a backslash, as a digit of an escape, after and before a token", 256 * (5 + 6), |i| {
        let b = (i / 11) as u8;
        match i % 11 {
            0 => [b"\"\\", &[b][..], b"\""].concat(),
            j if j < 5 => {
                let mut u = *b"0041";
                u[(j - 1) as usize] = b;
                [b"\"\\u", &u[..], b"\""].concat()
            }
            j => [heads[(j * 2 - 10) as usize], &[b]].concat(),
        }
    });
    let edited: Vec<(&str, usize)> = seeds().into_iter().flat_map(|s| (0..s.len()).map(move |p| (s, p))).collect();
    passed_over(run, "every truncation, deletion, doubling and 20 replacements of one byte in 12 documents", edited.len() as u64 * 23, |i| {
        let (s, p) = edited[(i / 23) as usize];
        let mut v = s.as_bytes().to_vec();
        match i % 23 {
            0 => v.truncate(p),
            1 => {
                v.remove(p);
            }
            2 => v.insert(p, v[p]),
            j => v[p] = bytes[(j - 3) as usize],
        }
        v
    });
    // edits of documents
    let sd = seeds();
    let mut at = vec![];
    for s in &sd {
        for p in 0..=s.len() {
            at.push((*s, p));
        }
    }
    space(run, "every truncation, deletion, replacement and insertion of one byte in 12 documents", at.len() as u64 * 514, |i| {
        let (s, p) = at[(i / 514) as usize];
        let b = s.as_bytes();
        let mut v = b.to_vec();
        match i % 514 {
            512 => {
                if p < b.len() {
                    v.remove(p);
                }
            }
            513 => v.truncate(p),
            j if j < 256 => v.insert(p, j as u8),
            j => {
                if p < b.len() {
                    v[p] = (j - 256) as u8;
                }
            }
        }
        v
    });
    if th {
        // two edits: delete or duplicate a byte at two places
        let mut at2 = vec![];
        for s in &sd {
            for p in 0..s.len() {
                for q in 0..s.len() {
                    at2.push((*s, p, q));
                }
            }
        }
        space(run, "two deletions, duplications or swaps", at2.len() as u64 * 4, |i| {
            let (s, p, q) = at2[(i / 4) as usize];
            let mut v = s.as_bytes().to_vec();
            match i % 4 {
                0 => {
                    v.remove(p);
                    if q < v.len() {
                        v.remove(q);
                    }
                }
                1 => {
                    let x = v[p];
                    v.insert(p, x);
                    let y = v[q];
                    v.insert(q, y);
                }
                2 => v.swap(p, q),
                _ => {
                    let x = v[p];
                    v.insert(q, x);
                }
            }
            v
        });
    }
    // white space: every byte in every gap
    space(run, "every byte in every gap between tokens", 256 * 9, |i| {
        let parts: [&[u8]; 8] = [b"{", b"\"a\"", b":", b"[", b"1", b",", b"null", b"]}"];
        let gap = (i % 9) as usize;
        let mut v = vec![];
        for (j, p) in parts.iter().enumerate() {
            if j == gap {
                v.push((i / 9) as u8);
            }
            v.extend_from_slice(p);
        }
        if gap == 8 {
            v.push((i / 9) as u8);
        }
        v
    });
    // nesting
    space(run, "nesting up to 210, complete, truncated and with a stray bracket", 211 * 4 * 3, |i| {
        let d = (i / 12) as usize;
        let pat = i / 3 % 4;
        let mut a = String::new();
        let mut z = String::new();
        for k in 0..d {
            if (pat >> (k % 2)) & 1 == 0 {
                a.push('[');
                z.insert(0, ']');
            } else {
                a.push_str("{\"k\":");
                z.insert(0, '}');
            }
        }
        match i % 3 {
            0 => format!("{}1{}", a, z),
            1 => format!("{}1{}", a, z.get(1..).unwrap_or("")),
            _ => format!("{}1{}]", a, z),
        }
        .into_bytes()
    });
    // long tokens, around the sizes of read buffers
    let mut sizes = vec![];
    for c in [0usize, 4096, 8192, 65536, 131072, 262144] {
        for d in 0..7 {
            sizes.push((c + d).saturating_sub(3));
        }
    }
    space(run, "strings, numbers, blanks and arrays of sizes around powers of two", sizes.len() as u64 * 6, |i| {
        let n = sizes[(i / 6) as usize];
        match i % 6 {
            0 => format!("[\"{}\",1]", "é".repeat(n)),
            1 => format!("[\"a{}\",1]", "é".repeat(n)),
            2 => format!("[{}1,\"x\"]", "1".repeat(n)),
            3 => format!("[{}1.5e3,null]", " ".repeat(n)),
            4 => format!("[{}true]", "true,".repeat(n.min(70000))),
            _ => format!("[{}null,nul]", " ".repeat(n)),
        }
        .into_bytes()
    });
}

/// Pieces of a document: tokens with their alternative spellings (index 0 is the base one).
enum Piece {
    Fixed(String),
    Alt(Vec<String>),
}

fn escaped(s: &str) -> String {
    let mut o = String::from("\"");
    for u in s.encode_utf16() {
        o += &format!("\\u{:04X}", u);
    }
    o + "\""
}

fn pieces(v: &Val, out: &mut Vec<Piece>) {
    match v {
        Val::Num(n) if n.contains(['.', 'e']) => out.push(Piece::Alt(
            ["1.5", "0.0", "-2.25", "1e5", "1E+2", "-0.1e-3", "123456789.123456789", "1e400", "0e0"].iter().map(|s| s.to_string()).collect(),
        )),
        Val::Num(_) => out.push(Piece::Alt(
            ["1", "0", "-0", "-17", "2147483648", "9007199254740993", "-9223372036854775808", "123456789012345678901234567890"]
                .iter()
                .map(|s| s.to_string())
                .collect(),
        )),
        Val::Str(_) => out.push(Piece::Alt(
            ["\"s\"", "\"\\u0073\"", "\"\"", "\"1\"", "\"null\"", "\"\\\"\\\\\\/\\b\\f\\n\\r\\t\"", "\"\u{e9}\u{1f600}\"", "\"2020-01-01\"", "\"true\"", "\"[{\"", "\"\\ud83d\\ude00\""]
                .iter()
                .map(|s| s.to_string())
                .chain([format!("\"{}\"", "x".repeat(300))])
                .collect(),
        )),
        Val::Bool(_) => out.push(Piece::Alt(vec!["true".into(), "false".into()])),
        Val::Arr(a) => {
            out.push(Piece::Fixed("[".into()));
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(Piece::Fixed(",".into()));
                }
                pieces(x, out);
            }
            out.push(Piece::Fixed("]".into()));
        }
        Val::Obj(f) => {
            out.push(Piece::Fixed("{".into()));
            for (i, (k, x)) in f.iter().enumerate() {
                if i > 0 {
                    out.push(Piece::Fixed(",".into()));
                }
                let mut alts = vec![esc(k), escaped(k)];
                // escape only the last character
                let mut half: Vec<char> = k.chars().collect();
                if let Some(l) = half.pop() {
                    let h: String = half.into_iter().collect();
                    let e = escaped(&l.to_string());
                    alts.push(format!("{}{}", esc(&h).trim_end_matches('"').to_string() + if h.is_empty() { "" } else { "" }, &e[1..]));
                }
                alts.retain(|a| matches!(jparse(a.as_bytes()), Ref::Ok(Val::Str(s)) if s == *k));
                out.push(Piece::Alt(alts));
                out.push(Piece::Fixed(":".into()));
                pieces(x, out);
            }
            out.push(Piece::Fixed("}".into()));
        }
        v => out.push(Piece::Fixed(v.text())),
    }
}

const GAPS: [&str; 5] = [" ", "\n", "\t", "\r\n", " \n\t \r "];

pub fn c11(run: &Run) {
    let nodes = if run.thorough { 5 } else { 4 };
    let us = [Universe::new(nodes), Universe::with(3, scalars_of(), "é", "k\"\\")];
    let opts = ["", "{unwrap: \"/a\"}", "{unwrap: \"-\", infer_map_threshold: \"1\"}", "{\"/a\": {use_type: \"T\"}, \"/-\": {use_type: \"T\"}}"];
    for u in &us {
        run.each(u.total(), |i| {
            let v = u.nth(i);
            run.doc();
            let mut ps = vec![];
            pieces(&v, &mut ps);
            let base: Vec<String> = ps
                .iter()
                .map(|p| match p {
                    Piece::Fixed(s) => s.clone(),
                    Piece::Alt(a) => a[0].clone(),
                })
                .collect();
            // all single respellings, all gaps, everything at once
            let mut texts: Vec<String> = vec![];
            for (j, p) in ps.iter().enumerate() {
                if let Piece::Alt(a) = p {
                    for x in &a[1..] {
                        let mut t = base.clone();
                        t[j] = x.clone();
                        texts.push(t.concat());
                    }
                }
            }
            for g in GAPS {
                for j in 0..=base.len() {
                    texts.push(format!("{}{}{}", base[..j].concat(), g, base[j..].concat()));
                }
                texts.push(base.join(g));
            }
            for k in 1..4 {
                let t: Vec<String> = ps
                    .iter()
                    .map(|p| match p {
                        Piece::Fixed(s) => s.clone(),
                        Piece::Alt(a) => a[k % a.len()].clone(),
                    })
                    .collect();
                texts.push(t.join(GAPS[k]));
            }
            let all_opts = if i % 8 == 0 || v.nodes() <= 3 { &opts[..] } else { &opts[..1] };
            for o in all_opts {
                for l in ALL {
                    let b = Case { kind: "doc".into(), name: "Root".into(), input: base.concat(), opts: o.to_string(), mode: l.opt_name().into(), ..Default::default() };
                    let Some(want) = outcome(run, &b) else { continue };
                    run.state(&want);
                    for t in &texts {
                        let c = Case { input: t.clone(), extra: b.input.clone(), ..b.clone() };
                        same(run, &c, &want);
                    }
                }
            }
        });
        run.count(&format!("family: documents of <={} nodes", nodes), u.total());
    }
    // every character of a key, literal and escaped: all of the BMP, and the others by surrogate pairs
    let mut cps: Vec<char> = (0x20u32..0x10000).filter_map(char::from_u32).collect();
    for hi in 0xd800u32..0xdc00 {
        for lo in [0xdc00, 0xdc01, 0xde55, 0xdfff] {
            cps.push(char::from_u32(0x10000 + ((hi - 0xd800) << 10) + (lo - 0xdc00)).unwrap());
        }
    }
    if run.thorough {
        for hi in [0xd800u32, 0xd801, 0xd83d, 0xdbfe, 0xdbff] {
            for lo in 0xdc00..0xe000 {
                cps.push(char::from_u32(0x10000 + ((hi - 0xd800) << 10) + (lo - 0xdc00)).unwrap());
            }
        }
    }
    let modes = if run.thorough { &ALL[..] } else { &[Lang::Alias, Lang::Shape][..] };
    run.each(cps.len() as u64, |i| {
        let k = format!("a{}b", cps[i as usize]);
        run.doc();
        for l in modes {
            let c = Case { kind: "doc".into(), name: "Root".into(), input: format!("{{{}:1}}", esc(&k)), mode: l.opt_name().into(), ..Default::default() };
            let Some(want) = outcome(run, &c) else { continue };
            run.state(&want);
            let up = escaped(&k);
            for t in [up.clone(), up.to_lowercase()] {
                same(run, &Case { input: format!("{{{}:1}}", t), extra: c.input.clone(), ..c.clone() }, &want);
            }
        }
    });
    run.count("family: keys with one escaped character", cps.len() as u64);
    // short escapes against the long ones, in every pair
    let short = [("\\\"", 0x22u32), ("\\\\", 0x5c), ("\\/", 0x2f), ("\\b", 8), ("\\f", 12), ("\\n", 10), ("\\r", 13), ("\\t", 9), ("e", 0x65), ("/", 0x2f)];
    run.each(100, |i| {
        let (a, b) = (short[(i / 10) as usize], short[(i % 10) as usize]);
        for l in ALL {
            let base = format!("{{\"\\u{:04x}\\u{:04X}\":1}}", a.1, b.1);
            let c = Case { kind: "doc".into(), name: "Root".into(), input: base.clone(), mode: l.opt_name().into(), ..Default::default() };
            let Some(want) = outcome(run, &c) else { continue };
            same(run, &Case { input: format!("{{\"{}{}\":1}}", a.0, b.0), extra: base, ..c.clone() }, &want);
        }
        run.doc();
    });
    run.count("family: pairs of short escapes", 100);
    // what a string or number holds, in several positions
    let mut strs: Vec<String> = [
        "2020-01-01", "2020-12-31", "12:34:56", "2020-01-01T00:00:00Z", "2020-01-01T12:34:56.789+02:00", "2020-01-01 12:34:56", "Wed, 21 Oct 2015 07:28:00 GMT", "P1D", "1577836800", "123e4567-e89b-12d3-a456-426614174000",
        "00000000-0000-0000-0000-000000000000", "a@b.com", "http://a.b/c?d=e#f", "https://example.com", "ftp://a", "urn:a:b", "/a/b", "C:\\a", "127.0.0.1", "::1", "#ffffff", "aGVsbG8=", "deadbeef", "0x10", "1", "-1", "0", "1.5", "1e5",
        "-0.5", "NaN", "Infinity", "-Infinity", "true", "false", "null", "None", "undefined", "True", "yes", "no", "on", "", " ", "  ", "\t", "\n", "\0", "\u{7f}", "\u{e9}", "\u{1f600}", "\u{feff}", "\u{2028}", "{}", "[]", "{\"a\":1}", "[1]", "(", "$a",
        "${a}", "{{a}}", "%s", "a b", "a,b", "1,5", "$1.00", "10%", "1/2", "+12345678", "en-US", "US", "image/png", "a.b.c", "1.2.3", "v1.0.0", "<a>", "&amp;", "'", "\"", "\\", "`", "//", "/*", "*/", "\"\"\"", "map", "string", "any", "Z", "A",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    strs.extend(crate::consts::scan().strings);
    for n in (1..=130).chain([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]) {
        strs.push("x".repeat(n));
        strs.push("\u{e9}".repeat(n));
    }
    let mut nums: Vec<(String, bool)> = vec![];
    for n in 1..=42 {
        for d in ["1", "9", "5"] {
            for m in ["", "-"] {
                nums.push((format!("{}{}", m, d.repeat(n)), false));
                nums.push((format!("{}{}.0", m, d.repeat(n)), true));
                nums.push((format!("{}0.{}", m, d.repeat(n)), true));
                nums.push((format!("{}{}e{}", m, d, n), true));
                nums.push((format!("{}{}.5E-{}", m, d, n), true));
            }
        }
    }
    for b in [7u32, 8, 15, 16, 31, 32, 53, 63, 64, 127] {
        let p = if b < 127 { 1u128 << b } else { (1u128 << 126) * 2 };
        for x in [p - 2, p - 1, p, p + 1] {
            nums.push((x.to_string(), false));
            nums.push((format!("-{}", x), false));
        }
    }
    for y in [0, 1, 1900, 1970, 2020, 1577836800] {
        nums.push((y.to_string(), false));
        nums.push((format!("{}.0", y), true));
    }
    let mut contents: Vec<(String, &str)> = strs.iter().map(|s| (esc(s), "\"s\"")).collect();
    contents.extend(nums.into_iter().map(|(n, f)| (n, if f { "1.5" } else { "1" })));
    let places: Vec<fn(&str, &str) -> String> = vec![
        |x, _| x.to_string(),
        |x, _| format!("{{\"a\":{}}}", x),
        |x, b| format!("[{},{},{}]", b, x, b),
        |x, _| format!("[{},{}]", x, x),
        |x, b| format!("[{{\"a\":{}}},{{\"a\":{}}},{{}}]", x, b),
        |x, _| format!("{{\"a\":{},\"b\":{},\"c\":{{\"d\":[{}]}}}}", x, x, x),
        |x, _| format!("[{{\"date\":{},\"id\":{},\"url\":{}}},{{\"date\":{},\"id\":null}}]", x, x, x, x),
    ];
    let np = places.len() as u64;
    run.each(contents.len() as u64 * np, |i| {
        let (x, b) = &contents[(i / np) as usize];
        let place = places[(i % np) as usize];
        run.doc();
        for l in ALL {
            for o in ["", "{infer_map_threshold: \"1\"}"] {
                let c = Case { kind: "doc".into(), name: "Root".into(), input: place(b, b), opts: o.into(), mode: l.opt_name().into(), ..Default::default() };
                let Some(want) = outcome(run, &c) else { continue };
                same(run, &Case { input: place(x, b), extra: c.input.clone(), ..c.clone() }, &want);
            }
        }
    });
    run.count("family: contents of strings and digits of numbers, in several places", contents.len() as u64 * np);
    // repeated members: the last one counts
    let vals = [int(), st(), Val::Null, obj(&[("x", int())]), arr(&[])];
    let n = vals.len() as u64;
    let ways = ["", "{infer_map_threshold: \"1\"}", "{infer_map_threshold: \"2\"}", "{unwrap: \"/a\"}", "{unwrap: \"/-\"}", "{\"/a\": {use_type: \"T\"}}", "{\"\": {use_type: \"map\"}}", "{\"/-/a\": {use_type: \"T\"}, \"/b\": {use_type: \"U\"}}"];
    run.each(n * n * n * 4 * ways.len() as u64, |i| {
        let (o, i) = (ways[(i % ways.len() as u64) as usize], i / ways.len() as u64);
        let d = crate::gen_::digits(i / 4, n, 3);
        let (x, y, z) = (&vals[d[0]].text(), &vals[d[1]].text(), &vals[d[2]].text());
        let (dup, first, last) = match i % 4 {
            0 => (format!("{{\"a\":{},\"a\":{}}}", x, y), format!("{{\"a\":{}}}", y), None),
            1 => (format!("{{\"a\":{},\"b\":{},\"a\":{}}}", x, z, y), format!("{{\"a\":{},\"b\":{}}}", y, z), Some(format!("{{\"b\":{},\"a\":{}}}", z, y))),
            2 => (format!("{{\"a\":{},\"\\u0061\":{},\"a\":{}}}", x, z, y), format!("{{\"a\":{}}}", y), None),
            _ => (format!("[{{\"a\":{},\"a\":{}}},{{}}]", x, y), format!("[{{\"a\":{}}},{{}}]", y), None),
        };
        run.doc();
        for l in ALL {
            let c = Case { kind: "dup".into(), name: "Root".into(), input: dup.clone(), opts: o.into(), mode: l.opt_name().into(), extra: first.clone(), ..Default::default() };
            let got = outcome(run, &c);
            let a = outcome(run, &Case { input: first.clone(), ..c.clone() });
            let b = last.as_ref().and_then(|l| outcome(run, &Case { input: l.clone(), ..c.clone() }));
            run.valid();
            if got.is_some() && got != a && (b.is_none() || got != b) {
                run.violation("duplicate-member", format!("repeated member: {:?}\nexpected {:?}", got, a), c);
            }
        }
    });
    run.count("family: objects with repeated members, under 8 options", n * n * n * 4 * ways.len() as u64);
    run.sample("[1,{\"a\":\"s\"}] ~ [ -17 ,\\n{\"\\u0061\" : \"\" }]".into());
}

fn scalars_of() -> Vec<Val> {
    vec![int(), flt(), st(), Val::Bool(true), Val::Null]
}

fn outcome(run: &Run, c: &Case) -> Option<Result<String, ()>> {
    match imp::generate(run, c) {
        Err(p) => {
            run.violation("panic", p, c.clone());
            None
        }
        Ok(r) => Some(r.map_err(|_| ())),
    }
}

fn same(run: &Run, c: &Case, want: &Result<String, ()>) {
    if let Some(got) = outcome(run, c) {
        run.valid();
        if got != *want {
            run.violation("spelling", format!("same value spelled {} gives\n{:?}\ninstead of\n{:?}", c.extra, got, want), c.clone());
        }
    }
}

pub fn replay11(run: &Run, c: &Case) {
    if let Some(w) = outcome(run, &Case { input: c.extra.clone(), ..c.clone() }) {
        same(run, c, &w);
    }
}
