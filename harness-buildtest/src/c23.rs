//! C23: buffers made for other languages hold exactly the bytes plus a terminator.
//!
//! malloc, calloc, realloc and free are this program's own: while a thread is armed, what it allocates ends where an
//! unreadable page begins, can be made to fail, and is written down.
#![feature(thread_local)]
use libc::{c_char, c_int, c_void, size_t};
use std::collections::HashSet;
use std::ptr;
use std::sync::Mutex;
use vh::proto::*;
use vh::*;

extern "C" {
    fn __libc_malloc(n: size_t) -> *mut c_void;
    fn __libc_calloc(n: size_t, m: size_t) -> *mut c_void;
    fn __libc_realloc(p: *mut c_void, n: size_t) -> *mut c_void;
    fn __libc_free(p: *mut c_void);
}

const PAGE: usize = 4096;
const LOG: usize = 64;

#[derive(Clone, Copy)]
struct Block { p: usize, size: usize, map: usize, maplen: usize, live: bool }

const NONE: Block = Block { p: 0, size: 0, map: 0, maplen: 0, live: false };

/// What a thread's allocations are to be, and what they were.
struct State { armed: bool, fail_from: usize, calls: usize, used: usize, foreign_free: usize, blocks: [Block; LOG] }

#[thread_local]
static mut S: State = State { armed: false, fail_from: usize::max_value(), calls: 0, used: 0, foreign_free: 0, blocks: [NONE; LOG] };

unsafe fn guarded_alloc(n: usize, zero: bool) -> *mut c_void {
    let call = S.calls;
    S.calls += 1;
    if call >= S.fail_from || S.used >= LOG || n > (1usize << 40) {
        *libc::__errno_location() = libc::ENOMEM;
        return ptr::null_mut();
    }
    let pages = (n + PAGE - 1) / PAGE;
    let maplen = (pages + 2) * PAGE;
    let map = libc::mmap(ptr::null_mut(), maplen, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    if map == libc::MAP_FAILED { return ptr::null_mut(); }
    let mid = map as usize + PAGE;
    if pages > 0 {
        libc::mprotect(mid as *mut c_void, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE);
        if !zero && n < 1 << 24 { libc::memset(mid as *mut c_void, 0xa5, pages * PAGE); }
    }
    let p = mid + pages * PAGE - n;
    S.blocks[S.used] = Block { p, size: n, map: map as usize, maplen, live: true };
    S.used += 1;
    p as *mut c_void
}

unsafe fn find(p: *mut c_void) -> Option<usize> {
    (0..S.used).find(|i| S.blocks[*i].p == p as usize && S.blocks[*i].live)
}

#[no_mangle]
pub unsafe extern "C" fn malloc(n: size_t) -> *mut c_void {
    if S.armed { guarded_alloc(n, false) } else { __libc_malloc(n) }
}

#[no_mangle]
pub unsafe extern "C" fn calloc(n: size_t, m: size_t) -> *mut c_void {
    if S.armed {
        match n.checked_mul(m) { Some(k) => guarded_alloc(k, true), None => ptr::null_mut() }
    } else {
        __libc_calloc(n, m)
    }
}

#[no_mangle]
pub unsafe extern "C" fn free(p: *mut c_void) {
    if S.used > 0 {
        if let Some(i) = find(p) {
            libc::munmap(S.blocks[i].map as *mut c_void, S.blocks[i].maplen);
            S.blocks[i].live = false;
            return;
        }
        if S.armed && !p.is_null() { S.foreign_free += 1; }
    }
    __libc_free(p)
}

#[no_mangle]
pub unsafe extern "C" fn realloc(p: *mut c_void, n: size_t) -> *mut c_void {
    let old = if S.used > 0 { find(p) } else { None };
    if old.is_none() && !S.armed { return __libc_realloc(p, n); }
    let q = if S.armed { guarded_alloc(n, false) } else { __libc_malloc(n) };
    if q.is_null() { return q; }
    if let Some(i) = old {
        libc::memcpy(q, p, S.blocks[i].size.min(n));
        free(p);
    } else if !p.is_null() {
        return __libc_realloc(p, n);
    }
    q
}

struct Log { calls: usize, foreign_free: usize, blocks: Vec<Block> }

/// Run `f` with its allocations under watch.
fn watched<T, F: FnOnce() -> T>(fail_from: usize, f: F) -> (T, Log) {
    unsafe {
        S.calls = 0;
        S.used = 0;
        S.foreign_free = 0;
        S.fail_from = fail_from;
        S.armed = true;
        let r = f();
        S.armed = false;
        let used = S.used;
        let log = Log { calls: S.calls, foreign_free: S.foreign_free, blocks: S.blocks[..used].to_vec() };
        (r, log)
    }
}

/// Memory of exactly `n` bytes, with an unreadable page before it or after it.
struct Arg { p: *mut u8, n: usize, map: *mut c_void, len: usize }

impl Arg {
    fn new(b: &[u8], at_end: bool) -> Arg {
        unsafe {
            let pages = (b.len() + PAGE - 1) / PAGE;
            let len = (pages + 2) * PAGE;
            let map = libc::mmap(ptr::null_mut(), len, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            if map == libc::MAP_FAILED { panic!("HARNESS: mmap"); }
            let mid = map as usize + PAGE;
            let p = if at_end { mid + pages * PAGE - b.len() } else { mid } as *mut u8;
            if pages > 0 {
                libc::mprotect(mid as *mut c_void, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE);
                // What is next to the bytes is no terminator.
                libc::memset(mid as *mut c_void, 0x5a, pages * PAGE);
                ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
                libc::mprotect(mid as *mut c_void, pages * PAGE, libc::PROT_READ);
            }
            Arg { p, n: b.len(), map, len }
        }
    }
    fn slice(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.p, self.n) } }
}

impl Drop for Arg {
    fn drop(&mut self) { unsafe { libc::munmap(self.map, self.len); } }
}

fn brief(b: &[u8]) -> String { if b.len() <= 64 { hex(b) } else { format!("{} bytes beginning {}", b.len(), hex(&b[..64])) } }

fn one(ctx: &Ctx, b: &[u8], at_end: bool) {
    let a = Arg::new(b, at_end);
    let (r, log) = watched(usize::max_value(), || allocator::allocate_buffer_for_bytes(a.slice()));
    ctx.eval("buffers");
    ctx.evals("bytes compared", b.len() as u64 + 1);
    ctx.seen("bytes", b);
    if r.is_null() {
        ctx.violation("no-buffer", format!("NULL for {}", brief(b)));
        return;
    }
    let live: Vec<&Block> = log.blocks.iter().filter(|x| x.live).collect();
    let of = live.iter().find(|x| x.p == r as usize);
    match of {
        None => { ctx.violation("not-from-the-heap", format!("the buffer for {} is not one that was just got from malloc", brief(b))); return; }
        Some(x) => {
            if !ctx.check(x.size >= b.len() + 1, "too-small", || format!("{} bytes were got for {} and a terminator", x.size, b.len())) { return; }
        }
    }
    ctx.check(live.len() == 1, "leak", || format!("{} blocks are left for {}", live.len(), brief(b)));
    ctx.check(log.foreign_free == 0, "foreign-free", || brief(b));
    let got = unsafe { std::slice::from_raw_parts(r as *const u8, b.len() + 1) };
    ctx.check(got[..b.len()] == *b, "contents", || format!("{} became {}", brief(b), brief(got)));
    ctx.check(got[b.len()] == 0, "terminator", || format!("{} after {}", got[b.len()], brief(b)));
    ctx.check(a.slice() == b, "argument-changed", || brief(b));
    unsafe { free(r as *mut c_void) };
    ctx.check(unsafe { S.blocks[..S.used].iter().all(|x| !x.live) }, "not-freed", || brief(b));
    unsafe { S.used = 0; }

    // Without memory.
    for k in 0..log.calls.min(4) {
        let (r, log) = watched(k, || allocator::allocate_buffer_for_bytes(a.slice()));
        ctx.eval("allocations that fail");
        ctx.check(r.is_null(), "not-null", || format!("a buffer for {} after allocation {} failed", brief(b), k));
        ctx.check(log.blocks.iter().all(|x| !x.live), "leak", || format!("after allocation {} failed, for {}", k, brief(b)));
        unsafe { S.used = 0; }
    }

    // The real heap: what is not watched.
    let r = allocator::allocate_buffer_for_bytes(b);
    ctx.eval("buffers of the real heap");
    if ctx.check(!r.is_null(), "no-buffer", || brief(b)) {
        let got = unsafe { std::slice::from_raw_parts(r as *const u8, b.len() + 1) };
        ctx.check(got[..b.len()] == *b && got[b.len()] == 0, "contents", || format!("{} became {} (real heap)", brief(b), brief(got)));
        unsafe { free(r as *mut c_void) };
    }
}

fn content(rng: &mut ChaChaRng, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    match rng.next_u32() % 8 {
        0 => {}
        1 => v.iter_mut().for_each(|x| *x = 0xff),
        2 => { rng.fill_bytes(&mut v); for x in v.iter_mut() { if *x & 1 == 1 { *x = 0; } } }
        3 => { rng.fill_bytes(&mut v); if n > 0 { v[0] = 0; } }
        4 => { rng.fill_bytes(&mut v); if n > 0 { v[n - 1] = 0; } }
        5 => { for (i, x) in v.iter_mut().enumerate() { *x = i as u8; } }
        6 => { let s = "zażółć gęślą jaźń \u{1f512} ".as_bytes(); for (i, x) in v.iter_mut().enumerate() { *x = s[i % s.len()]; } }
        _ => rng.fill_bytes(&mut v),
    }
    v
}

/// More bytes than a 32-bit number can count.
fn huge(ctx: &Ctx, n: usize) {
    unsafe {
        let map = libc::mmap(ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE,
                             libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if map == libc::MAP_FAILED { ctx.harness_error("mmap of a huge argument".to_string()); return; }
        let marks = [0usize, 1, PAGE, n / 2, (1 << 32) - 1, 1 << 32, n - 2, n - 1];
        let s = std::slice::from_raw_parts_mut(map as *mut u8, n);
        for (i, m) in marks.iter().enumerate() { if *m < n { s[*m] = 1 + i as u8; } }
        // First without memory: nothing is read then, or at least nothing is returned.
        let (r, _) = watched(0, || allocator::allocate_buffer_for_bytes(s));
        ctx.check(r.is_null(), "not-null", || format!("a buffer for {} bytes without memory", n));
        let (r, log) = watched(usize::max_value(), || allocator::allocate_buffer_for_bytes(s));
        ctx.eval("buffers of more than 4 GiB");
        ctx.seen("bytes", &n.to_le_bytes());
        let b = log.blocks.iter().find(|x| x.live && x.p == r as usize).cloned();
        match b {
            Some(b) if b.size > n => {
                let got = std::slice::from_raw_parts(r as *const u8, n + 1);
                let same = libc::memcmp(r as *const c_void, map, n) == 0;
                ctx.check(same && got[n] == 0, "contents", || format!("of a buffer of {} bytes", n));
                free(r as *mut c_void);
            }
            Some(b) => ctx.violation("too-small", format!("{} bytes were got for {} and a terminator", b.size, n)),
            None => ctx.violation("no-buffer", format!("for {} bytes", n)),
        }
        libc::munmap(map, n);
        S.used = 0;
    }
}

#[cfg(feature = "ios")]
fn ios(ctx: &'static Ctx) {
    ctx.par("ios", ctx.n(300), move |_, _| {
        extern crate ios;
        extern "C" { fn do_things_with_maths() -> *mut c_char; }
        let _ = ios::do_things_with_maths as *const ();
        let r = unsafe { do_things_with_maths() };
        ctx.eval("points through the C function");
        if !ctx.check(!r.is_null(), "no-buffer", || "do_things_with_maths in build-test/ios".to_string()) { return; }
        let got = unsafe { std::slice::from_raw_parts(r as *const u8, 33) }.to_vec();
        unsafe { free(r as *mut c_void) };
        let p = dec(&got[..32]);
        ctx.check(got[32] == 0 && p.is_some() && p != Some(RistrettoPoint::identity()), "not-a-point", || hex(&got));
        fresh(ctx, &got[..32]);
    });
}

#[cfg(not(feature = "ios"))]
fn ios(_: &'static Ctx) {}

fn fresh(ctx: &Ctx, b: &[u8]) {
    static mut SEEN: Option<Mutex<HashSet<Vec<u8>>>> = None;
    static ONCE: std::sync::Once = std::sync::ONCE_INIT;
    ONCE.call_once(|| unsafe { SEEN = Some(Mutex::new(HashSet::new())) });
    let new = unsafe { SEEN.as_ref().unwrap() }.lock().unwrap().insert(b.to_vec());
    ctx.check(new, "point-repeats", || hex(b));
    ctx.seen("point", b);
}

fn main() {
    let ctx = Ctx::new("C23");
    // Every length up to a page and a bit; both ends of the argument.
    ctx.par("lengths", 4200, move |case, rng| {
        let n = case as usize;
        for k in 0..if ctx.thorough { 12 } else { 2 } {
            let b = content(rng, n);
            one(ctx, &b, k % 2 == 0);
        }
    });
    ctx.par("sizes", ctx.n(400), move |_, rng| {
        let top = [300usize, 5000, 70000, 300000, 1 << 20][rng.next_u32() as usize % 5];
        let n = match rng.next_u32() % 4 {
            0 => { let p = 1usize << (rng.next_u32() % 19); (p + rng.next_u32() as usize % 3).saturating_sub(1) }
            _ => rng.next_u32() as usize % top,
        };
        let b = content(rng, n);
        one(ctx, &b, rng.next_u32() % 2 == 0);
    });
    // Every single byte, and every place of a zero byte in a short string.
    ctx.single("bytes", |_| {
        for x in 0..=255u8 { one(ctx, &[x], true); one(ctx, &[x, 0, x], true); }
        for i in 0..40 { let mut b = [7u8; 40]; b[i] = 0; one(ctx, &b, true); }
    });
    ctx.single("huge", |_| huge(ctx, (1 << 32) + if ctx.thorough { 12345 } else { 7 }));

    ctx.par("maths", ctx.n(2000), move |_, _| {
        let c = maths::do_things_with_maths();
        ctx.eval("points");
        let b = c.to_bytes();
        let p = dec(&b);
        ctx.check(p.is_some() && p != Some(RistrettoPoint::identity()) && enc(&p.unwrap()) == b, "not-a-point", || hex(&b));
        fresh(ctx, &b);
    });
    ios(ctx);
    let _: Option<c_int> = None;
    ctx.sample("lengths", || "0 to 4199, random up to 1 MiB, one of more than 4 GiB".to_string());
    ctx.finish("byte strings of every length up to 4199 and sampled ones to 1 MiB, with embedded, leading and trailing zeros, between unreadable \
                pages; malloc fails at each of its calls; distinct: byte strings and points")
}
