//! C13, library part: the sample file is delivered in every possible way.
use crate::consts;
use crate::drive::{Case, Run};
use crate::gen_::*;
use crate::hook::{Act, EINTR, EIO, reading};
use crate::imp;
use crate::lang::ALL;
use json_typegen_shared::codegen;

fn acts_text(a: &[Act]) -> String {
    a.iter().map(|x| match x { Act::N(n) => n.to_string(), Act::E(e) => format!("E{}", e) }).collect::<Vec<_>>().join(",")
}
fn acts_read(s: &str) -> Vec<Act> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| match x.strip_prefix('E') { Some(e) => Act::E(e.parse().unwrap()), None => Act::N(x.parse().unwrap()) }).collect()
}

type Got = Result<String, String>;

fn plain(run: &Run, text: &[u8], opts: &str, mode: &str) -> Option<Got> {
    let c = case(text, opts, mode, &[], 0);
    match run.call(&c, || codegen("Root", &imp::as_file(run, text), imp::options(opts, mode).unwrap()).map_err(|e| imp::err_text(&e))) {
        Ok(r) => Some(r),
        Err(p) => {
            run.violation("panic", p, c);
            None
        }
    }
}

fn case(text: &[u8], opts: &str, mode: &str, acts: &[Act], open_err: i32) -> Case {
    Case {
        kind: if text.len() > 2000 { "long" } else { "reads" }.into(),
        name: "Root".into(),
        input: String::from_utf8_lossy(&text[..text.len().min(2000)]).into(),
        opts: opts.into(),
        mode: mode.into(),
        extra: format!("{};{}", acts_text(acts), open_err),
    }
}

/// One delivery of `text`; `want` is the outcome of plain delivery.
fn deliver(run: &Run, text: &[u8], opts: &str, mode: &str, acts: &[Act], open_err: i32, want: &Got) {
    let c = case(text, opts, mode, acts, open_err);
    let path = imp::as_file(run, text);
    run.step(acts.len() + 1);
    let r = run.call(&c, || reading(&path, open_err, acts, || codegen("Root", &path, imp::options(opts, mode).unwrap()).map_err(|e| imp::err_text(&e))));
    let (got, failed) = match r {
        Err(p) => return run.violation("panic", p, c),
        Ok(x) => x,
    };
    if failed > 0 {
        match got {
            Err(_) => run.valid(),
            Ok(code) => run.violation("failed-read-ignored", format!("a read failed, yet types are produced\n{}", code), c),
        }
    } else if got.is_ok() != want.is_ok() || (got.is_ok() && got != *want) {
        run.violation("delivery-matters", format!("{:?}\nwhen delivered like this, but otherwise\n{:?}", got, want), c)
    } else if acts.iter().any(|a| matches!(a, Act::E(e) if *e != EINTR)) && want.is_ok() {
        // the whole file was not read, so a failure later in it would go unnoticed
        run.violation("not-read-to-the-end", "types are produced without reading to the end of the sample".into(), c)
    } else {
        run.valid()
    }
}

fn samples() -> Vec<(String, &'static str)> {
    let mut v: Vec<(String, &'static str)> = vec![];
    for t in [
        "1", "-2.5e1", "null", "true", "\"a\"", "\"\u{e9}\"", "\"\\u00e9\"", "[]", "{}", "[1,2]", "[1,\"a\"]", "{\"a\":1}", "{\"\u{e9}\":[]}", "[{}, {}]", " [1] ", "[1]\n", "[tru]", "[1", "{\"a\"", "[1]x", "[-]", "\"\\ud83d\\ude00\"", "[1.5]",
        "[1e5,2]", "",
    ] {
        v.push((t.into(), ""));
    }
    v.push(("[1,\"a\"]".into(), "{ unwrap: \"/0\" }"));
    v.push(("{\"a\":1}".into(), "{ unwrap: \"/a\" }"));
    v.push(("{\"a\":1}".into(), "{ \"/a\": { use_type: \"X\" } }"));
    v.push(("[[1]]".into(), "{ \"\": { use_type: \"X\" } }"));
    v.push(("{\"a\":1}".into(), "{ \"\": { use_type: \"map\" } }"));
    v
}

/// The composition of n given by the bits of m.
fn parts(n: usize, m: u64) -> Vec<usize> {
    let mut v = vec![];
    let mut k = 1;
    for i in 0..n.saturating_sub(1) {
        if m >> i & 1 == 1 {
            v.push(k);
            k = 1;
        } else {
            k += 1;
        }
    }
    if n > 0 {
        v.push(k);
    }
    v
}

pub fn c13(run: &Run) {
    let th = run.thorough;
    let ss = samples();
    let maxl = if th { 15 } else { 12 };
    for (t, o) in &ss {
        let b = t.as_bytes();
        let want = match plain(run, b, o, "shape") {
            Some(w) => w,
            None => continue,
        };
        run.doc();
        if b.len() <= maxl {
            // every way to split the file into reads; a failure or interruption at every read
            let m = 1u64 << b.len().saturating_sub(1);
            run.each(m, |m| {
                let p = parts(b.len(), m);
                let acts: Vec<Act> = p.iter().map(|n| Act::N(*n)).collect();
                run.state(&(t, o, &p));
                deliver(run, b, o, "shape", &acts, 0, &want);
                for k in 0..=acts.len() {
                    for e in [EIO, 11, 9, 21, 110] {
                        if e != EIO && p.len() > 3 && !th {
                            continue;
                        }
                        let mut a = acts[..k].to_vec();
                        a.push(Act::E(e));
                        // the rest would arrive if asked for again
                        a.extend(&acts[k..]);
                        deliver(run, b, o, "shape", &a, 0, &want);
                    }
                    for twice in [false, true] {
                        let mut a = acts[..k].to_vec();
                        a.push(Act::E(EINTR));
                        if twice {
                            a.push(Act::E(EINTR));
                        }
                        a.extend(&acts[k..]);
                        deliver(run, b, o, "shape", &a, 0, &want);
                    }
                }
            });
            run.count("family: ways to split a sample x failure or interruption at every read", m * (1 + 3 * (b.len() as u64 + 1)));
        }
        if b.len() <= if th { 11 } else { 9 } {
            // bytewise delivery, interrupted before any subset of the reads
            run.each(1 << (b.len() + 1), |m| {
                let mut a = vec![];
                for i in 0..=b.len() {
                    if m >> i & 1 == 1 {
                        a.push(Act::E(EINTR));
                    }
                    a.push(Act::N(1));
                }
                deliver(run, b, o, "shape", &a, 0, &want);
            });
            run.count("family: interruptions before every subset of single-byte reads", 1 << (b.len() + 1));
        }
        for e in [2, 13, 20, 5, 24] {
            deliver(run, b, o, "shape", &[], e, &want);
        }
    }
    // tokens across every likely buffer boundary, and a failing read at it
    let mut bounds: Vec<usize> = vec![512, 1024, 4096, 8192, 16384, 32768, 65536, 131072, 262144];
    for k in consts::scan().ints {
        if k > 1 && k <= 1024 {
            bounds.push(k * 1024);
        }
        if (16..2_000_000).contains(&k) {
            bounds.push(k);
        }
    }
    bounds.sort();
    bounds.dedup();
    let toks = ["\"\u{e9}\u{1d7d8}x\"", "\"\\ud83d\\ude00\\n\"", "-12.5e+10", "123456", "true", "null", "{\"k\u{e9}\":1}", "[1,\"a\"]", "[[],{}]"];
    let work: Vec<(usize, usize)> = bounds.iter().flat_map(|b| (0..toks.len()).map(move |t| (*b, t))).collect();
    run.each(work.len() as u64, |i| {
        let (b, t) = work[i as usize];
        let tok = toks[t];
        for at in 0..=tok.len() {
            // `[`, white space, the token with its byte `at` at the boundary, `]`
            let mut s = b"[".to_vec();
            if b < at + 1 {
                continue;
            }
            s.resize(b - at, b' ');
            s.extend(tok.as_bytes());
            let want = plain(run, format!("[{}]", tok).as_bytes(), "", "shape");
            let Some(want) = want else { continue };
            let mut whole = s.clone();
            whole.push(b']');
            run.state(&(b, t, at));
            deliver(run, &whole, "", "shape", &[], 0, &want);
            deliver(run, &whole, "", "shape", &[Act::N(b)], 0, &want);
            deliver(run, &whole, "", "shape", &[Act::N(b), Act::E(EINTR)], 0, &want);
            deliver(run, &whole, "", "shape", &[Act::N(b), Act::E(EIO)], 0, &want);
            deliver(run, &whole, "", "shape", &[Act::N(b - 1), Act::N(1), Act::N(1), Act::E(EIO)], 0, &want);
            // a complete document of exactly this size, and then a failing read
            if at == 0 {
                let mut s = format!("[{}]", tok).into_bytes();
                if s.len() <= b {
                    s.resize(b, b'\n');
                    deliver(run, &s, "", "shape", &[], 0, &want);
                    deliver(run, &s, "", "shape", &[Act::N(b), Act::E(EIO)], 0, &want);
                    let mut u = s.clone();
                    u.push(b'x');
                    deliver(run, &u, "", "shape", &[], 0, &Err(String::new()));
                    deliver(run, &u, "", "shape", &[Act::N(b), Act::N(1)], 0, &Err(String::new()));
                }
            }
        }
    });
    run.count("family: tokens placed across buffer boundaries", work.len() as u64);
    run.note("boundaries", format!("{:?}", bounds));
    // very long samples: white space before, within and behind the value, long strings, many elements
    let sizes: Vec<usize> = (18..if th { 29u32 } else { 26 }).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    run.each(sizes.len() as u64 * 7, |i| {
        let (n, w) = (sizes[(i / 7) as usize], i % 7);
        let fill = |a: &str, f: &str, b: &str| {
            let k = n.saturating_sub(a.len() + b.len()) / f.len();
            let mut v = String::with_capacity(n + 8);
            v.push_str(a);
            v.extend(std::iter::repeat_n(f, k));
            v.push_str(b);
            v.into_bytes()
        };
        let (long, short): (Vec<u8>, &str) = match w {
            0 => (fill("[1", "\n", "]"), "[1]"),
            1 => (fill("", " ", "[1]"), "[1]"),
            2 => (fill("[1]", " ", ""), "[1]"),
            3 => (fill("[\"", "a", "\",1]"), "[\"a\",1]"),
            4 => (fill("[1", ",1", ",1.5]"), "[1,1.5,1,1,1,1,1,1,1,1,1,1,1,1]"),
            5 => (fill("[[", "],[", "],null]"), "[[],null]"),
            _ => (fill("{\"b\":{\"c\":\"", "é", "\"}}"), "{\"b\":{\"c\":\"\"}}"),
        };
        run.doc();
        run.state(&(n, w, "long"));
        let Some(want) = plain(run, short.as_bytes(), "", "shape") else { return };
        deliver(run, &long, "", "shape", &[], 0, &want);
        // the very end matters
        let mut bad = long;
        bad.push(b'x');
        deliver(run, &bad, "", "shape", &[], 0, &Err(String::new()));
        if w == 3 {
            bad.truncate(bad.len() - 3);
            deliver(run, &bad, "", "shape", &[], 0, &Err(String::new()));
        }
    });
    run.count(&format!("family: samples of up to {} MiB", sizes[sizes.len() - 1] >> 20), sizes.len() as u64 * 7);
    // the same text inline and from a file, in all modes
    let u = Universe::new(if th { 6 } else { 5 });
    run.each(u.total(), |i| {
        let d = u.nth(i);
        let t = match i % 3 {
            0 => d.text(),
            1 => format!(" {}\n", d.text()),
            _ => format!("\t\r\n{} ", d.text()),
        };
        if !imp::inline(t.as_bytes()) {
            return;
        }
        run.doc();
        run.step(18);
        for l in ALL {
            let c = case(t.as_bytes(), "", l.opt_name(), &[], 0);
            let a = plain(run, t.as_bytes(), "", l.opt_name());
            let b = run.call(&c, || codegen("Root", &t, imp::options("", l.opt_name()).unwrap()).map_err(|e| imp::err_text(&e)));
            if a.as_ref() != b.as_ref().ok() {
                run.violation("inline", format!("from a file\n{:?}\ninline\n{:?}", a, b), c);
            } else {
                run.valid();
            }
        }
    });
    run.count("family: documents inline and from a file, in 9 modes", u.total() * 9);
    run.sample("{\"a\":1} read as 3+1+3 bytes with EIO after the second read".into());
}

pub fn replay(run: &Run, c: &Case) {
    let (a, e) = c.extra.split_once(';').unwrap_or(("", "0"));
    if c.kind != "reads" {
        return;
    }
    if let Some(w) = plain(run, c.input.as_bytes(), &c.opts, &c.mode) {
        deliver(run, c.input.as_bytes(), &c.opts, &c.mode, &acts_read(a), e.parse().unwrap_or(0), &w);
    }
}
