//! Parallel exhaustive iteration with crash/hang attribution and violation bookkeeping.
use crate::json::esc;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// One concrete request to the implementation, enough to replay it.
#[derive(Clone, Debug, Default)]
pub struct Case {
    pub kind: String,
    pub name: String,
    pub input: String,
    pub opts: String,
    pub mode: String,
    pub extra: String,
}

impl Case {
    pub fn json(&self) -> String {
        format!(
            "{{\"kind\":{},\"name\":{},\"input\":{},\"opts\":{},\"mode\":{},\"extra\":{}}}",
            esc(&self.kind),
            esc(&self.name),
            esc(&self.input),
            esc(&self.opts),
            esc(&self.mode),
            esc(&self.extra)
        )
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub msg: String,
    pub case: Case,
}

#[derive(Default)]
struct Book {
    by_key: BTreeMap<String, (u64, Vec<Viol>)>,
    counts: BTreeMap<String, u64>,
    samples: Vec<String>,
    notes: BTreeMap<String, String>,
}

pub struct Run {
    pub dir: std::path::PathBuf,
    pub thorough: bool,
    pub threads: usize,
    /// report symptoms of listed findings, too
    pub strict: AtomicBool,
    book: Mutex<Book>,
    /// inputs enumerated
    pub docs: AtomicU64,
    /// steps of the model (values folded into a type, events handled, ...)
    pub steps: AtomicU64,
    /// distinct model states, by hash
    states: Vec<Mutex<std::collections::HashSet<u64>>>,
    pub transitions: AtomicU64,
    pub validated: AtomicU64,
    slots: Vec<Slot>,
    start: Instant,
    slot_map: SlotMap,
    pub scratch: String,
    files: AtomicUsize,
}

struct Slot {
    since: AtomicU64, // ms since start, 0 = idle
}

pub const HANG_MS: u64 = 20_000;
const SLOT_BYTES: usize = 1 << 16;

struct SlotMap {
    ptr: *mut u8,
}
unsafe impl Sync for SlotMap {}
unsafe impl Send for SlotMap {}

unsafe extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

thread_local! {
    static TID: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

impl Run {
    pub fn new(dir: &str, thorough: bool) -> Arc<Run> {
        std::fs::create_dir_all(dir).unwrap();
        let threads = 8;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(format!("{}/slots", dir))
            .unwrap();
        f.set_len((SLOT_BYTES * (threads + 1)) as u64).unwrap();
        use std::os::fd::AsRawFd;
        let ptr = unsafe { mmap(std::ptr::null_mut(), SLOT_BYTES * (threads + 1), 3, 1, f.as_raw_fd(), 0) };
        std::panic::set_hook(Box::new(|i| {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if TID.with(|t| t.get()) == 0 {
                eprintln!("mc panicked: {} at {}", m, loc);
            }
            PANIC.with(|p| *p.borrow_mut() = format!("panic: {} ({})", m, loc));
        }));
        let mut scratch = format!("/dev/shm/mc-{}", std::process::id());
        if std::fs::create_dir_all(&scratch).is_err() {
            scratch = format!("{}/scratch", dir);
            std::fs::create_dir_all(&scratch).unwrap();
        }
        let r = Arc::new(Run {
            dir: dir.into(),
            thorough,
            threads,
            strict: AtomicBool::new(false),
            book: Default::default(),
            docs: Default::default(),
            steps: Default::default(),
            states: (0..64).map(|_| Default::default()).collect(),
            transitions: Default::default(),
            validated: Default::default(),
            slots: (0..=threads).map(|_| Slot { since: AtomicU64::new(0) }).collect(),
            start: Instant::now(),
            slot_map: SlotMap { ptr },
            scratch,
            files: Default::default(),
        });
        let w = r.clone();
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let now = w.now();
                for (i, s) in w.slots.iter().enumerate() {
                    let t = s.since.load(Relaxed);
                    if t != 0 && now > t + HANG_MS {
                        // the current case is in the slot; the driver reports it
                        let _ = std::fs::write(w.dir.join("hang"), format!("{}", i));
                        std::process::exit(77);
                    }
                }
            }
        });
        r
    }
    /// A fresh file name in a scratch directory that `finish` removes.
    pub fn scratch_file(&self) -> String {
        let n = self.files.fetch_add(1, Relaxed);
        format!("{}/f{}", self.scratch, n)
    }
    fn now(&self) -> u64 {
        self.start.elapsed().as_millis() as u64 + 1
    }
    /// Note the request about to be made, so that an abort or hang can be attributed.
    pub fn enter(&self, c: &Case) {
        let t = TID.with(|t| t.get());
        let j = c.json();
        let b = j.as_bytes();
        let n = b.len().min(SLOT_BYTES - 8);
        unsafe {
            let p = self.slot_map.ptr.add(t * SLOT_BYTES);
            std::ptr::copy_nonoverlapping((n as u64).to_le_bytes().as_ptr(), p, 8);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(8), n);
        }
        self.slots[t].since.store(self.now(), Relaxed);
    }
    pub fn leave(&self) {
        let t = TID.with(|t| t.get());
        self.slots[t].since.store(0, Relaxed);
        unsafe {
            let p = self.slot_map.ptr.add(t * SLOT_BYTES);
            std::ptr::copy_nonoverlapping(0u64.to_le_bytes().as_ptr(), p, 8);
        }
    }
    /// Count an input.
    pub fn doc(&self) {
        self.docs.fetch_add(1, Relaxed);
    }
    pub fn step(&self, n: usize) {
        self.steps.fetch_add(n as u64, Relaxed);
    }
    pub fn valid(&self) {
        self.validated.fetch_add(1, Relaxed);
    }
    /// Count a model state unless it was met before; true if it is new.
    pub fn state(&self, x: &impl std::hash::Hash) -> bool {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        let h = h.finish();
        self.states[(h >> 58) as usize].lock().unwrap().insert(h)
    }
    /// Calls the implementation with crash attribution; a panic becomes `Err`.
    pub fn call<X>(&self, c: &Case, f: impl FnOnce() -> X) -> Result<X, String> {
        self.enter(c);
        self.transitions.fetch_add(1, Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.leave();
        r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
    }
    /// Runs `f` on every index below `n`, on all threads.
    pub fn each(&self, n: u64, f: impl Fn(u64) + Sync) {
        let next = AtomicU64::new(0);
        let chunk = (n / 4096).clamp(1, 256);
        let ids = AtomicUsize::new(1);
        let bad = AtomicBool::new(false);
        std::thread::scope(|s| {
            for _ in 0..self.threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        TID.with(|t| t.set(ids.fetch_add(1, Relaxed)));
                        loop {
                            let a = next.fetch_add(chunk, Relaxed);
                            if a >= n || bad.load(Relaxed) {
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                if catch_unwind(AssertUnwindSafe(|| f(i))).is_err() {
                                    eprintln!("checker panic at index {}: {}", i, PANIC.with(|p| p.borrow().clone()));
                                    bad.store(true, Relaxed);
                                }
                            }
                        }
                    })
                    .unwrap();
            }
        });
        if bad.load(Relaxed) {
            eprintln!("internal error in the checker");
            std::process::exit(70);
        }
    }
    pub fn violation(&self, key: &str, msg: String, case: Case) {
        let mut b = self.book.lock().unwrap();
        let e = b.by_key.entry(key.to_string()).or_default();
        e.0 += 1;
        // keep the few smallest
        e.1.push(Viol { key: key.into(), msg, case });
        e.1.sort_by_key(|v| v.case.input.len() + v.case.opts.len() + v.case.name.len());
        e.1.truncate(4);
    }
    pub fn count(&self, what: &str, n: u64) {
        *self.book.lock().unwrap().counts.entry(what.into()).or_default() += n;
    }
    pub fn note(&self, what: &str, s: String) {
        self.book.lock().unwrap().notes.insert(what.into(), s);
    }
    pub fn sample(&self, s: String) {
        let mut b = self.book.lock().unwrap();
        if b.samples.len() < 12 {
            b.samples.push(s);
        }
    }
    pub fn finish(&self) {
        let b = self.book.lock().unwrap();
        let mut o = String::from("{");
        o += &format!(
            "\"states\":{},\"transitions\":{},\"validated\":{},",
            self.states.iter().map(|s| s.lock().unwrap().len()).sum::<usize>(),
            match self.steps.load(Relaxed) {
                0 => self.transitions.load(Relaxed),
                n => n,
            },
            self.validated.load(Relaxed)
        );
        o += "\"counts\":{";
        o += &b.counts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
        o += "},\"notes\":{";
        o += &b.notes.iter().map(|(k, v)| format!("{}:{}", esc(k), esc(v))).collect::<Vec<_>>().join(",");
        o += "},\"samples\":[";
        o += &b.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
        o += "],\"violations\":[";
        let mut first = true;
        for (k, (n, vs)) in &b.by_key {
            for v in vs {
                if !first {
                    o.push(',');
                }
                first = false;
                o += &format!(
                    "{{\"key\":{},\"count\":{},\"msg\":{},\"case\":{}}}",
                    esc(k),
                    n,
                    esc(&v.msg),
                    v.case.json()
                );
            }
        }
        o += "]}";
        std::fs::write(self.dir.join("result.json"), o).unwrap();
        let _ = std::fs::remove_dir_all(&self.scratch);
    }
}

impl Case {
    pub fn read(s: &str) -> Case {
        use crate::json::{Ref, Val, parse};
        let Ref::Ok(Val::Obj(f)) = parse(s.as_bytes()) else { panic!("bad case file") };
        // a replay artifact wraps the case
        let f = match f.iter().find(|x| x.0 == "case") {
            Some((_, Val::Obj(g))) => g.clone(),
            _ => f,
        };
        let g = |k: &str| match f.iter().find(|x| x.0 == k) {
            Some((_, Val::Str(s))) => s.clone(),
            _ => String::new(),
        };
        Case {
            kind: g("kind"),
            name: g("name"),
            input: g("input"),
            opts: g("opts"),
            mode: g("mode"),
            extra: g("extra"),
        }
    }
}
