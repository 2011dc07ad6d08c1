//! Scheduling and hash-seed hooks around the unmodified implementation: every heap allocation is a
//! point at which a thread can be suspended in favour of another one, and the seeds of the standard
//! hash tables are chosen by the explorer.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

pub struct Points;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static ARM: Cell<u64> = const { Cell::new(0) };
    static HOOK: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
}

#[inline]
fn tick() {
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    let _ = ARM.try_with(|a| {
        let n = a.get();
        if n > 0 {
            a.set(n - 1);
            if n == 1 {
                let h = HOOK.with(|h| h.borrow_mut().take());
                if let Some(h) = h {
                    h()
                }
            }
        }
    });
}

unsafe impl GlobalAlloc for Points {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick();
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tick();
        unsafe { System.realloc(p, l, n) }
    }
}

/// Runs `f`, calling `h` at its `k`-th allocation (1-based; 0 = never).
pub fn at<X>(k: u64, h: impl FnOnce() + 'static, f: impl FnOnce() -> X) -> X {
    HOOK.with(|x| *x.borrow_mut() = Some(Box::new(h)));
    ARM.with(|a| a.set(k));
    let r = f();
    ARM.with(|a| a.set(0));
    HOOK.with(|x| x.borrow_mut().take());
    r
}

/// Number of allocations `f` makes.
pub fn points(f: impl FnOnce()) -> u64 {
    let a = COUNT.with(|c| c.get());
    f();
    COUNT.with(|c| c.get()) - a
}

static SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static ASKED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Hash tables of threads started from now on use this seed (0 = the system's randomness).
pub fn seed(s: u64) {
    SEED.store(s, std::sync::atomic::Ordering::SeqCst);
}
pub fn asked() -> u64 {
    ASKED.load(std::sync::atomic::Ordering::SeqCst)
}

unsafe extern "C" {
    fn syscall(n: i64, a: *mut u8, b: usize, c: u32) -> isize;
}

/// Takes the place of libc's getrandom, where the standard library gets its hash seeds from.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    ASKED.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let s = SEED.load(std::sync::atomic::Ordering::SeqCst);
    if s == 0 {
        return unsafe { syscall(318, p, n, flags) };
    }
    let mut x = s.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    for i in 0..n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        unsafe { *p.add(i) = x as u8 };
    }
    n as isize
}

/// What the next reads of the watched file do.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// deliver at most this many bytes
    N(usize),
    /// fail with this errno
    E(i32),
}

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;

#[derive(Default)]
struct Plan {
    path: Vec<u8>,
    open_err: i32,
    fd: i32,
    acts: Vec<Act>,
    next: usize,
    failed: usize,
}

thread_local! {
    static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
}

unsafe extern "C" {
    fn __errno_location() -> *mut i32;
    fn strlen(p: *const u8) -> usize;
    #[link_name = "syscall"]
    fn syscall4(n: i64, a: i64, b: *const u8, c: i64, d: i64) -> i64;
}

fn fail(e: i32) -> isize {
    unsafe { *__errno_location() = e };
    -1
}

/// Runs `f` with the reads of the file at `path` following the plan; also returns how many of the
/// planned failures other than interruptions happened.
pub fn reading<X>(path: &str, open_err: i32, acts: &[Act], f: impl FnOnce() -> X) -> (X, usize) {
    PLAN.with(|p| *p.borrow_mut() = Some(Plan { path: path.as_bytes().to_vec(), open_err, fd: -1, acts: acts.to_vec(), ..Default::default() }));
    let r = f();
    let p = PLAN.with(|p| p.borrow_mut().take()).unwrap();
    (r, p.failed)
}

fn opened(path: *const u8, dir: i64, flags: i32, mode: i32) -> i32 {
    let err = PLAN
        .try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                if let Some(p) = p.as_mut() {
                    if unsafe { std::slice::from_raw_parts(path, strlen(path)) } == &p.path[..] {
                        p.failed += (p.open_err != 0) as usize;
                        return Some(p.open_err);
                    }
                }
            }
            None
        })
        .unwrap_or(None);
    if let Some(e) = err {
        if e != 0 {
            return fail(e) as i32;
        }
    }
    let fd = unsafe { syscall4(257, dir, path, flags as i64, mode as i64) } as i32;
    if err.is_some() {
        PLAN.with(|p| p.borrow_mut().as_mut().unwrap().fd = fd);
    }
    fd
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: i32) -> i32 {
    opened(path, -100, flags, mode)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    let act = PLAN
        .try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                if let Some(p) = p.as_mut() {
                    if p.fd == fd && fd >= 0 {
                        let a = p.acts.get(p.next).copied();
                        p.next += 1;
                        if let Some(Act::E(e)) = a {
                            p.failed += (e != EINTR) as usize;
                        }
                        return a;
                    }
                }
            }
            None
        })
        .unwrap_or(None);
    let n = match act {
        Some(Act::E(e)) => return fail(e),
        Some(Act::N(k)) => n.min(k),
        None => n,
    };
    unsafe { syscall4(0, fd as i64, buf, n as i64, 0) as isize }
}
