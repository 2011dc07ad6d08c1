//! C21: the same request gives the same output whatever was served before, at the same time, in
//! another process, or with other hash seeds.
use crate::drive::{Case, Run};
use crate::gen_::{digits, seq_count, seq_nth};
use crate::hook;
use crate::imp;
use crate::json::esc;
use crate::lang::ALL;
use std::collections::{HashMap, HashSet};
use std::sync::mpsc::{Receiver, Sender, channel};
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Out = Result<Result<String, String>, String>;

fn run_one(run: &Run, c: &Case) -> Out {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let o = match imp::options(&c.opts, &c.mode) {
            Ok(o) => o,
            Err(e) => return Err(e),
        };
        // the text is given inline or through a file that always has the same name
        let r = if c.kind == "file" || !(c.kind == "sql" || imp::inline(c.input.as_bytes())) {
            json_typegen_shared::codegen(&c.name, &imp::as_file(run, c.input.as_bytes()), o)
        } else {
            json_typegen_shared::codegen(&c.name, &c.input, o)
        };
        r.map_err(|e| imp::err_text(&e))
    }))
    .map_err(|_| "panic".to_string())
}

/// File names differ between threads and processes; they occur in messages about missing files only.
fn tidy(o: Out, run: &Run) -> Out {
    match o {
        Ok(Err(e)) => Ok(Err(e.replace(&run.scratch, "SCRATCH").split("SCRATCH").next().unwrap_or("").to_string())),
        o => o,
    }
}

pub fn requests() -> Vec<Case> {
    let docs = [
        "{\"a\":1,\"b\":[{\"c\":\"x\"},{}],\"d\":null,\"e\":{},\"f\":[1,\"a\"],\"g\":[1,\"a\",null]}",
        "[{\"serialize\":{\"x y\":1}},{\"serialize\":null,\"value\":[true,2.5]}]",
        "{\"type\":{\"a\":{\"b\":{\"c\":[]}}},\"Type\":{\"z\":1},\"type1\":{\"z\":\"\"}}",
        "[[1,2],[\"a\"]]",
        "[]",
        "{\"a\":",
        "{\"a\":1} x",
    ];
    let opts = [
        "",
        "{ import_style: \"qualified_paths\" }",
        "{ collect_additional, use_default_for_missing_fields, derives: \"Debug, serde::Serialize, serde::Deserialize, std::hash::Hash, a::b::C, d::E\" }",
        "{ infer_map_threshold: \"1\", property_name_format: \"camelCase\" }",
        "{ unwrap: \"/-\" }",
        "{ \"/a\": { use_type: \"map\" } }",
        "{ nonsense }",
        "{ import_style: \"assume_existing\", collect_additional }",
    ];
    let mut v = vec![];
    for (i, d) in docs.iter().enumerate() {
        for (j, o) in opts.iter().enumerate() {
            for l in ALL {
                if j >= 4 && i > 2 {
                    continue;
                }
                v.push(Case {
                    kind: if (i + j) % 2 == 0 { "file" } else { "inline" }.into(),
                    name: ["Root", "pub(crate) Item", "GeneratedType"][i % 3].into(),
                    input: d.to_string(),
                    opts: o.to_string(),
                    mode: l.opt_name().into(),
                    ..Default::default()
                });
            }
        }
    }
    for l in ALL {
        v.push(Case {
            kind: "sql".into(),
            name: "Root".into(),
            input: "CREATE TABLE t (a INT NOT NULL, \"b c\" DATE)".into(),
            opts: "{ input_mode: \"sql\" }".into(),
            mode: l.opt_name().into(),
            ..Default::default()
        });
    }
    v
}

/// Requests that have much in common: groups of which every ordered pair is served one after the
/// other (a result kept under too coarse a key is found again by a later request).
fn related(th: bool) -> Vec<Vec<Case>> {
    let mut docs: Vec<String> = vec![];
    // the same words in other spellings
    for k in ["fooBars", "FOOBARS", "foobars", "foo_bars", "foo-bars", "Foo Bars", "fooBar", "FooBars", "foo_Bars", "f\u{f6}oBars"] {
        docs.push(format!("{{\"{}\":[{{\"x\":1}}]}}", k));
    }
    // the same keys with other values, orders, repetitions and forms
    for v in [
        "{\"a\":1,\"b\":{\"c\":1}}", "{\"a\":1,\"b\":{\"c\":2.5}}", "{\"a\":1,\"b\":{\"c\":null}}", "{\"a\":1,\"b\":{\"C\":1}}", "{\"b\":{\"c\":1},\"a\":1}", "{\"a\":2,\"b\":{\"c\":3}}",
        "{\"a\":1, \"b\":{\"c\":1}}", "{\"a\":1,\"b\":[{\"c\":1}]}", "{\"a\":1,\"b\":[{\"c\":1},{}]}", "{\"a\":\"1\",\"b\":{\"c\":1}}", "{\"a\":1,\"b\":{\"c\":1}", "{\"a\":1,\"b\":{}}",
        "{\"a\":1,\"b\":[1,\"x\"]}", "{\"a\":1,\"b\":[\"x\",1]}", "{\"a\":1,\"b\":[1,\"x\",1]}", "[{\"a\":1,\"b\":{\"c\":1}}]", "[{\"a\":1,\"b\":{\"c\":1}},{\"a\":1}]", "{\"a\":1,\"a2\":{\"c\":1}}",
        "{\"type\":{\"c\":1}}", "{\"Type\":{\"c\":1}}", "{\"type\":{\"c\":1},\"Type\":{\"d\":1}}",
    ] {
        docs.push(v.into());
    }
    let names = ["Root", "root", "ROOT", "pub Root", "pub(crate) Root", "Roots", "Item", "RootItem", "Foo", "x"];
    let opts = [
        "", "{ property_name_format: \"camelCase\" }", "{ property_name_format: \"kebab-case\" }", "{ infer_map_threshold: \"0\" }", "{ infer_map_threshold: \"1\" }", "{ unwrap: \"/b\" }", "{ unwrap: \"/-\" }",
        "{ unwrap: \"/a\" }", "{ import_style: \"qualified_paths\" }", "{ import_style: \"assume_existing\" }", "{ collect_additional }", "{ deny_unknown_fields }", "{ use_default_for_missing_fields }",
        "{ derives: \"Debug\" }", "{ derives: \"debug\" }", "{ field_visibility: \"\" }", "{ \"/b\": { use_type: \"map\" } }", "{ \"/b\": { use_type: \"T\" } }", "{ \"/b\": { use_type: \"m::T\" } }", "{ \"/a\": { use_type: \"T\" } }",
        "{ unknown }", "{ unwrap: \"/nope\" }",
    ];
    let case = |name: &str, doc: &str, o: &str, l: crate::lang::Lang, n: usize| Case { kind: if n % 3 == 0 { "file" } else { "inline" }.into(), name: name.into(), input: doc.into(), opts: o.into(), mode: l.opt_name().into(), ..Default::default() };
    let mut groups: Vec<Vec<Case>> = vec![];
    for l in ALL {
        // documents
        for o in if th { &opts[..8] } else { &opts[..2] } {
            groups.push(docs.iter().enumerate().map(|(n, d)| case("Root", d, o, l, n)).collect());
        }
        // options
        for d in [&docs[10], &docs[18], &docs[26]] {
            groups.push(opts.iter().enumerate().map(|(n, o)| case("Root", d, o, l, n)).collect());
        }
        // names
        for d in [&docs[0], &docs[10], &docs[22]] {
            groups.push(names.iter().enumerate().map(|(n, m)| case(m, d, "", l, n)).collect());
        }
    }
    // modes
    for d in &docs {
        for o in ["", "{ property_name_format: \"camelCase\" }", "{ import_style: \"qualified_paths\" }"] {
            groups.push(ALL.iter().enumerate().map(|(n, l)| case("Root", d, o, *l, n)).collect());
        }
    }
    groups
}

/// A spread over the requests: every mode, every option, failing ones.
fn chosen(all: &[Case], n: usize) -> Vec<usize> {
    let step = all.len() / n;
    (0..n).map(|i| (i * step + i % step.max(1)) % all.len()).collect()
}

fn fresh(run: &Run, reqs: &[Case]) -> Vec<Out> {
    let exe = std::env::current_exe().unwrap();
    let out: Mutex<HashMap<u64, Out>> = Default::default();
    let envs: [(&[(&str, &str)], &str); 3] = [(&[], "/"), (&[("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Tokyo"), ("HOME", "/nowhere")], "/tmp"), (&[("RUST_BACKTRACE", "1"), ("NO_COLOR", "1"), ("USER", "x")], "/verif")];
    run.each(reqs.len() as u64, |i| {
        let mut first: Option<Out> = None;
        for (e, (vars, dir)) in envs.iter().enumerate() {
            let mut p = std::process::Command::new(&exe);
            p.arg("one").arg(reqs[i as usize].json()).current_dir(if std::path::Path::new(dir).exists() { dir } else { "/" });
            for (k, v) in vars.iter() {
                p.env(k, v);
            }
            let o = p.output().unwrap();
            run.step(1);
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            let r: Out = match t.split_once('\n') {
                Some(("ok", x)) => Ok(Ok(x.into())),
                Some(("err", x)) => Ok(Err(x.into())),
                _ => Err(format!("process failed: {:?}", o.status)),
            };
            match &first {
                None => first = Some(r),
                Some(f) if *f != r => run.violation("process", format!("process environment {} gives\n{:?}\ninstead of\n{:?}", e, r, f), reqs[i as usize].clone()),
                _ => {}
            }
        }
        out.lock().unwrap().insert(i, first.unwrap());
    });
    let mut m = out.into_inner().unwrap();
    (0..reqs.len() as u64).map(|i| m.remove(&i).unwrap()).collect()
}

/// `mc one <case>`: one request in a fresh process.
pub fn one(run: &Run, c: &Case) {
    match tidy(run_one(run, c), run) {
        Ok(Ok(s)) => print!("ok\n{}", s),
        Ok(Err(s)) => print!("err\n{}", s),
        Err(s) => print!("panic\n{}", s),
    }
}

fn seq_case(reqs: &[Case], q: &[usize], what: &str) -> Case {
    let l = q.last().unwrap();
    Case {
        kind: what.into(),
        extra: format!("{}#{}", q.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), q.iter().map(|x| reqs[*x].json()).collect::<Vec<_>>().join("\n")),
        input: format!("[{}]", q.iter().map(|x| esc(&format!("{} {} {} {}", reqs[*x].mode, reqs[*x].name, reqs[*x].input, reqs[*x].opts))).collect::<Vec<_>>().join(", ")),
        mode: reqs[*l].mode.clone(),
        ..Default::default()
    }
}

fn sequence(run: &Run, reqs: &[Case], want: &[Out], q: &[usize]) {
    run.step(q.len());
    std::thread::scope(|s| {
        // a fresh thread, so that what one sequence leaves in thread-local state does not reach others
        s.spawn(|| {
            for (n, x) in q.iter().enumerate() {
                let o = tidy(run_one(run, &reqs[*x]), run);
                if o != want[*x] {
                    return run.violation("history", format!("request {} of the sequence gives\n{:?}\nbut on its own\n{:?}", n + 1, o, want[*x]), seq_case(reqs, q, "sequence"));
                }
                run.valid();
            }
        });
    });
}

/// A second thread on which requests are served while the first is suspended.
struct Partner {
    go: Sender<(Case, u64)>,
    resume: Sender<()>,
    back: Receiver<Msg>,
}
enum Msg {
    Paused,
    Done(Out),
}

fn partner(run: &Arc<Run>) -> Partner {
    let (go, rgo) = channel::<(Case, u64)>();
    let (resume, rres) = channel::<()>();
    let (tb, back) = channel();
    let run = run.clone();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let rres = Arc::new(Mutex::new(rres));
            while let Ok((c, j)) = rgo.recv() {
                let (t2, r2) = (tb.clone(), rres.clone());
                let o = hook::at(
                    j,
                    move || {
                        let _ = t2.send(Msg::Paused);
                        let _ = r2.lock().unwrap().recv();
                    },
                    || run_one(&run, &c),
                );
                if tb.send(Msg::Done(tidy(o, &run))).is_err() {
                    break;
                }
            }
        })
        .unwrap();
    Partner { go, resume, back }
}

thread_local! {
    static PARTNER: std::cell::RefCell<Option<std::rc::Rc<Partner>>> = const { std::cell::RefCell::new(None) };
}

/// A is suspended at its k-th allocation, B runs (to its j-th allocation, or to the end), A runs to
/// its end, B to its end. False if B cannot proceed while A is suspended.
fn schedule(run: &Arc<Run>, a: &Case, b: &Case, k: u64, j: u64) -> (bool, Out, Out) {
    let p = PARTNER.with(|x| x.borrow_mut().get_or_insert_with(|| std::rc::Rc::new(partner(run))).clone());
    let state: std::rc::Rc<std::cell::RefCell<(bool, Option<Out>, bool)>> = Default::default(); // started, result, paused
    let (p2, s2, b2) = (p.clone(), state.clone(), b.clone());
    let hook = move || {
        s2.borrow_mut().0 = true;
        p2.go.send((b2, j)).unwrap();
        match p2.back.recv_timeout(Duration::from_millis(2000)) {
            Ok(Msg::Paused) => s2.borrow_mut().2 = true,
            Ok(Msg::Done(o)) => s2.borrow_mut().1 = Some(o),
            Err(_) => {} // B waits for something A holds
        }
    };
    let oa = tidy(hook::at(k, hook, || run_one(run, a)), run);
    let mut st = state.borrow_mut();
    if !st.0 {
        // A has fewer points than expected: run B afterwards
        p.go.send((b.clone(), 0)).unwrap();
    }
    let mut feasible = true;
    let ob = match st.1.take() {
        Some(o) => o,
        None => {
            let mut paused = st.2;
            feasible = st.2 || !st.0;
            loop {
                if paused {
                    let _ = p.resume.send(());
                    paused = false;
                }
                match p.back.recv_timeout(Duration::from_secs(15)) {
                    Ok(Msg::Paused) => paused = true,
                    Ok(Msg::Done(o)) => break o,
                    Err(_) => {
                        PARTNER.with(|x| *x.borrow_mut() = None);
                        break Err("blocked for 15 s".into());
                    }
                }
            }
        }
    };
    (feasible, oa, ob)
}

pub fn c21(run: &Arc<Run>) {
    let reqs = requests();
    let want = fresh(run, &reqs);
    for (i, w) in want.iter().enumerate() {
        if let Err(e) = w {
            run.violation("panic", e.clone(), reqs[i].clone());
        }
        run.state(&(i, format!("{:?}", w)));
    }
    run.count("family: requests, each in 3 fresh processes with different environments", reqs.len() as u64 * 3);
    let th = run.thorough;
    // hash seeds
    let seeds: u64 = if th { 512 } else { 96 };
    let mut orders: HashSet<Vec<&str>> = HashSet::new();
    for s in 1..=seeds {
        hook::seed(s);
        let asked = hook::asked();
        let o = std::thread::spawn(|| HashSet::<&str>::from_iter(["serde::Serialize", "serde::Deserialize", "std::collections::HashMap", "a::b::C"]).into_iter().collect::<Vec<_>>()).join().unwrap();
        if hook::asked() == asked {
            run.note("hash seeds", "not under control: each thread takes its own random seed".into());
        }
        orders.insert(o);
        run.each(reqs.len() as u64, |i| {
            let o = std::thread::scope(|s| s.spawn(|| tidy(run_one(run, &reqs[i as usize]), run)).join().unwrap());
            run.step(1);
            if o != want[i as usize] {
                run.violation("hash-order", format!("with hash seed {}\n{:?}\nbut otherwise\n{:?}", s, o, want[i as usize]), Case { extra: format!("seed:{}:{}", s, i), kind: "seed".into(), ..reqs[i as usize].clone() });
            } else {
                run.valid();
            }
        });
    }
    hook::seed(0);
    run.count("family: requests x hash seeds", reqs.len() as u64 * seeds);
    run.count("iteration orders of a 4-element set met (of 24)", orders.len() as u64);
    // the same Options value used twice
    run.each(reqs.len() as u64, |i| {
        let c = &reqs[i as usize];
        let Ok(o) = imp::options(&c.opts, &c.mode) else { return };
        let t = if imp::inline(c.input.as_bytes()) || c.kind == "sql" { c.input.clone() } else { imp::as_file(run, c.input.as_bytes()) };
        let f = || json_typegen_shared::codegen(&c.name, &t, o.clone()).map_err(|e| e.to_string());
        run.step(2);
        if f() != f() {
            run.violation("options-reused", "the second use of the same options gives another result".into(), c.clone());
        }
    });
    // call sequences
    let n = reqs.len() as u64;
    run.each(n * n, |i| sequence(run, &reqs, &want, &[(i / n) as usize, (i % n) as usize]));
    run.count("family: all ordered pairs of requests, one after the other", n * n);
    // requests that are easily taken for each other
    let groups = related(th);
    let all: Vec<Case> = groups.concat();
    let distinct: Vec<Case> = { let mut seen = HashSet::new(); all.iter().filter(|c| seen.insert(c.json())).cloned().collect() };
    let at: HashMap<String, usize> = distinct.iter().enumerate().map(|(i, c)| (c.json(), i)).collect();
    let alone = fresh(run, &distinct);
    for g in &groups {
        let ids: Vec<usize> = g.iter().map(|c| at[&c.json()]).collect();
        let m = ids.len() as u64;
        run.each(m * m, |i| sequence(run, &distinct, &alone, &[ids[(i / m) as usize], ids[(i % m) as usize]]));
        run.count("family: ordered pairs of related requests (documents, names, options or modes that differ a little)", m * m);
    }
    let few = chosen(&reqs, if th { 40 } else { 26 });
    let (k, len) = (few.len() as u64, if th { 4 } else { 3 });
    run.each(seq_count(k, len), |i| {
        let q: Vec<usize> = seq_nth(k, len, i).into_iter().map(|d| few[d]).collect();
        if !q.is_empty() {
            sequence(run, &reqs, &want, &q);
        }
    });
    run.count(&format!("family: call sequences of length <={} over {} requests", len, k), seq_count(k, len));
    // two requests at the same time, one preemption at every allocation
    let conc = chosen(&reqs, if th { 48 } else { 24 });
    let pts: Vec<u64> = conc.iter().map(|i| { let _ = run_one(run, &reqs[*i]); hook::points(|| drop(run_one(run, &reqs[*i]))) }).collect();
    let m = conc.len() as u64;
    let blocked = std::sync::atomic::AtomicU64::new(0);
    let total = std::sync::atomic::AtomicU64::new(0);
    let pair = |x: usize, y: usize, k: u64, j: u64| {
        let (ia, ib) = (conc[x], conc[y]);
        let (ok, a, b) = schedule(run, &reqs[ia], &reqs[ib], k, j);
        total.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        run.step(2);
        if !ok {
            blocked.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
        for (o, w, n) in [(&a, &want[ia], "suspended"), (&b, &want[ib], "intervening")] {
            if o != w {
                let mut c = seq_case(&reqs, &[ia, ib], "schedule");
                c.extra = format!("{},{},{},{}", ia, ib, k, j);
                run.violation("interleaving", format!("first request suspended at allocation {}, second at {}: the {} request gives\n{:?}\nbut on its own\n{:?}", k, j, n, o, w), c);
                return;
            }
        }
        run.valid();
    };
    // enough of a lead over the recorded number of points to reach the end of every request
    run.each(m * m, |i| {
        let (x, y) = ((i / m) as usize, (i % m) as usize);
        for k in 1..=pts[x] {
            if blocked.load(std::sync::atomic::Ordering::Relaxed) > 40 {
                return;
            }
            pair(x, y, k, 0);
        }
    });
    run.count("family: pairs of concurrent requests x preemption at every allocation", total.swap(0, std::sync::atomic::Ordering::Relaxed));
    // two preemptions: both are suspended once
    let mut small: Vec<usize> = (0..conc.len()).filter(|i| pts[*i] > 20).collect();
    small.sort_by_key(|i| pts[*i]);
    small.truncate(if th { 16 } else { 7 });
    let s = small.len() as u64;
    run.each(s * s, |i| {
        let (x, y) = (small[(i / s) as usize], small[(i % s) as usize]);
        for k in 1..=pts[x] {
            for j in 1..=pts[y] {
                if blocked.load(std::sync::atomic::Ordering::Relaxed) > 40 {
                    return;
                }
                pair(x, y, k, j);
            }
        }
    });
    run.count("family: pairs of small concurrent requests x two preemptions at every allocation", total.load(std::sync::atomic::Ordering::Relaxed));
    run.count("schedules not possible because the second request waits for the first", blocked.load(std::sync::atomic::Ordering::Relaxed));
    run.note("allocation points per request", format!("{}..{}", pts.iter().min().unwrap(), pts.iter().max().unwrap()));
    run.sample(seq_case(&reqs, &[few[1], few[5]], "sequence").input);
    let _ = digits(0, 2, 1);
}

pub fn replay(run: &Arc<Run>, c: &Case) {
    if let ("sequence", Some((_, l))) = (c.kind.as_str(), c.extra.split_once('#')) {
        let reqs: Vec<Case> = l.lines().map(Case::read).collect();
        return sequence(run, &reqs, &fresh(run, &reqs), &(0..reqs.len()).collect::<Vec<_>>());
    }
    let reqs = requests();
    let want = fresh(run, &reqs);
    let q: Vec<usize> = c.extra.split(',').filter_map(|x| x.parse().ok()).collect();
    match c.kind.as_str() {
        "sequence" => sequence(run, &reqs, &want, &q),
        "schedule" => {
            let (_, a, b) = schedule(run, &reqs[q[0]], &reqs[q[1]], q[2] as u64, q[3] as u64);
            if a != want[q[0]] || b != want[q[1]] {
                run.violation("interleaving", format!("{:?}\n{:?}", a, b), c.clone());
            }
        }
        "seed" => {
            let mut p = c.extra.split(':').skip(1).map(|x| x.parse::<u64>().unwrap());
            let (s, i) = (p.next().unwrap(), p.next().unwrap() as usize);
            hook::seed(s);
            let o = std::thread::scope(|s| s.spawn(|| tidy(run_one(run, &reqs[i]), run)).join().unwrap());
            if o != want[i] {
                run.violation("hash-order", format!("{:?}", o), c.clone());
            }
        }
        _ => {}
    }
}
