//! Native replay of a harness path: runs the real code on the recorded inputs.
//! usage: vxrt <replay file> [start|end]
//! exit codes: 0 completed, 3 a check failed, 10 refused as expected, 11 unexpected panic,
//! 12 an assumption does not hold for these inputs, 13 the input stream does not match the run.
use std::alloc::{GlobalAlloc, Layout};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicUsize, Ordering::SeqCst};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
}

/// Every allocation gets its own pages, with an inaccessible page before and after; the block is
/// placed at the end (or the start) of its pages; freed blocks become inaccessible.
struct Guard;
static LIVE: AtomicI64 = AtomicI64::new(0);
static GUARD_ON: AtomicBool = AtomicBool::new(false);
static AT_START: AtomicBool = AtomicBool::new(false);
const P: usize = 4096;
struct Bump {
    base: AtomicUsize,
    off: AtomicUsize,
}
static BUMP: Bump = Bump { base: AtomicUsize::new(0), off: AtomicUsize::new(0) };
const BUMP_SZ: usize = 1 << 26;
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !GUARD_ON.load(SeqCst) {
            // start-up allocations: a bump region
            if BUMP.base.load(SeqCst) == 0 {
                let b = mmap(std::ptr::null_mut(), BUMP_SZ, 3, 0x22, -1, 0);
                BUMP.base.store(b as usize, SeqCst);
            }
            let o = BUMP.off.fetch_add(l.size() + l.align() + 16, SeqCst);
            if o + l.size() + l.align() + 16 > BUMP_SZ {
                return std::ptr::null_mut();
            }
            let p = BUMP.base.load(SeqCst) + o;
            return ((p + l.align() - 1) & !(l.align() - 1)) as *mut u8;
        }
        LIVE.fetch_add(1, SeqCst);
        if l.size() > 64 << 20 {
            return std::ptr::null_mut();
        }
        let n = (l.size() + P - 1) / P * P;
        let b = mmap(std::ptr::null_mut(), n + 2 * P, 0, 0x22, -1, 0);
        if b as isize == -1 {
            die("NATIVE-LIMIT no mapping left\n", 9);
        }
        let u = b.add(P);
        if mprotect(u, n, 3) != 0 {
            die("NATIVE-LIMIT no mapping left\n", 9);
        }
        // recognisable garbage
        for i in 0..n {
            *u.add(i) = 0xA5;
        }
        if AT_START.load(SeqCst) {
            u
        } else {
            let e = u as usize + n - l.size();
            (e & !(l.align() - 1)) as *mut u8
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let b = BUMP.base.load(SeqCst);
        if (p as usize) >= b && (p as usize) < b + BUMP_SZ {
            return;
        }
        LIVE.fetch_sub(1, SeqCst);
        let s = p as usize & !(P - 1);
        let e = (p as usize + l.size().max(1) + P - 1) & !(P - 1);
        // fresh inaccessible pages in place: the memory is given back and the mappings join
        if mmap(s as *mut u8, e - s, 0, 0x32, -1, 0) as isize == -1 {
            die("NATIVE-LIMIT no mapping left\n", 9);
        }
    }
}
#[global_allocator]
static A: Guard = Guard;

fn die(s: &str, c: i32) -> ! {
    unsafe {
        write(1, s.as_ptr(), s.len());
        _exit(c)
    }
}

enum In {
    U(u32),
    F(u32),
    C(u32),
    O(Vec<u32>),
}
struct St {
    v: UnsafeCell<Vec<In>>,
    p: AtomicUsize,
    job: AtomicU32,
    tier: AtomicU32,
    expect: AtomicBool,
    may: AtomicBool,
    cb: AtomicUsize,
    ctx: AtomicUsize,
    nobs: AtomicUsize,
    quiet: AtomicBool,
}
unsafe impl Sync for St {}
static S: St = St {
    v: UnsafeCell::new(vec![]),
    p: AtomicUsize::new(0),
    job: AtomicU32::new(0),
    tier: AtomicU32::new(0),
    expect: AtomicBool::new(false),
    may: AtomicBool::new(false),
    cb: AtomicUsize::new(0),
    ctx: AtomicUsize::new(0),
    nobs: AtomicUsize::new(0),
    quiet: AtomicBool::new(false),
};
fn next() -> &'static In {
    let i = S.p.fetch_add(1, SeqCst);
    let v = unsafe { &*S.v.get() };
    if i >= v.len() {
        die("input stream exhausted\n", 13);
    }
    &v[i]
}
fn text(s: &[u8]) {
    unsafe {
        write(1, s.as_ptr(), s.len());
    }
}
struct Buf([u8; 400], usize);
impl std::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            if self.1 < 400 {
                self.0[self.1] = b;
                self.1 += 1;
            }
        }
        Ok(())
    }
}
macro_rules! out {
    ($($a:tt)*) => {{
        use std::fmt::Write;
        let mut b = Buf([0; 400], 0);
        let _ = write!(b, $($a)*);
        text(&b.0[..b.1]);
    }};
}
unsafe fn lab<'a>(p: *const u8, n: usize) -> &'a str {
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n))
}
fn fail(l: &str, what: std::fmt::Arguments) -> ! {
    out!("FAIL {} | {}\n", l, what);
    unsafe { _exit(3) }
}
fn obs(a: f32) {
    if !S.quiet.load(SeqCst) && S.nobs.fetch_add(1, SeqCst) < 3000 {
        out!("o {:08x}\n", a.to_bits());
    }
}

#[no_mangle]
extern "C" fn __vx_sym_u32(lo: u32, hi: u32) -> u32 {
    match next() {
        In::U(x) => {
            if *x < lo || *x > hi {
                die("u32 input out of range\n", 12);
            }
            *x
        }
        _ => die("stream kind\n", 13),
    }
}
#[no_mangle]
extern "C" fn __vx_sym_f32() -> f32 {
    match next() {
        In::F(x) => f32::from_bits(*x),
        _ => die("stream kind\n", 13),
    }
}
#[no_mangle]
extern "C" fn __vx_sym_f32_any() -> f32 {
    __vx_sym_f32()
}
#[no_mangle]
unsafe extern "C" fn __vx_fill_sym(p: *mut f32, n: usize) {
    for i in 0..n {
        *p.add(i) = __vx_sym_f32();
    }
}
#[no_mangle]
extern "C" fn __vx_choose(n: u32) -> u32 {
    match next() {
        In::C(x) if *x < n => *x,
        _ => die("stream kind\n", 13),
    }
}
#[no_mangle]
extern "C" fn __vx_assume(c: bool) {
    if !c {
        die("assumption does not hold\n", 12);
    }
}
#[no_mangle]
unsafe extern "C" fn __vx_check(c: bool, p: *const u8, n: usize) {
    if !c {
        fail(lab(p, n), format_args!("assertion is false"));
    }
}
#[no_mangle]
unsafe extern "C" fn __vx_check_feq(a: f32, b: f32, p: *const u8, n: usize) {
    obs(a);
    if a == b || (a.is_nan() && b.is_nan()) {
        return;
    }
    // overflow of an intermediate value is outside the real-arithmetic claim
    if !a.is_finite() && !b.is_finite() {
        return;
    }
    let t = 1e-3 * a.abs().max(b.abs()) + 1e-5;
    if !((a - b).abs() <= t) {
        fail(lab(p, n), format_args!("{:e} (computed) vs {:e} (expected)", a, b));
    }
}
#[no_mangle]
unsafe extern "C" fn __vx_check_bits(a: f32, b: f32, p: *const u8, n: usize) {
    obs(a);
    if a.to_bits() != b.to_bits() {
        fail(lab(p, n), format_args!("bits {:08x} vs {:08x}", a.to_bits(), b.to_bits()));
    }
}
#[no_mangle]
unsafe extern "C" fn __vx_check_finite(a: f32, p: *const u8, n: usize) {
    obs(a);
    if !a.is_finite() {
        fail(lab(p, n), format_args!("{} is not finite", a));
    }
}
#[no_mangle]
extern "C" fn __vx_expect_panic(c: bool) {
    S.expect.store(c, SeqCst);
}
#[no_mangle]
extern "C" fn __vx_may_panic(c: bool) {
    S.may.store(c, SeqCst);
}
#[no_mangle]
extern "C" fn __vx_reach(_p: *const u8, _n: usize) {}
#[no_mangle]
unsafe extern "C" fn __vx_vjp(_ys: *const f32, _g: *const f32, _ny: usize, _xs: *const f32, out: *mut f32, nx: usize) {
    match next() {
        In::O(v) if v.len() == nx => {
            for i in 0..nx {
                *out.add(i) = f32::from_bits(v[i]);
            }
        }
        _ => die("stream kind\n", 13),
    }
}
#[no_mangle]
extern "C" fn __vx_live_heap() -> u64 {
    LIVE.load(SeqCst) as u64
}
#[no_mangle]
extern "C" fn __vx_strict_fp(_c: bool) {}
#[no_mangle]
extern "C" fn __vx_job() -> u32 {
    S.job.load(SeqCst)
}
#[no_mangle]
extern "C" fn __vx_tier() -> u32 {
    S.tier.load(SeqCst)
}
#[no_mangle]
extern "C" fn __vx_on_panic(f: usize, ctx: usize) {
    S.cb.store(f, SeqCst);
    S.ctx.store(ctx, SeqCst);
}

// Threads: real ones, of which exactly one runs at a time.
extern "C" {
    fn pthread_create(t: *mut usize, a: *const u8, f: extern "C" fn(usize) -> usize, c: usize) -> i32;
    fn sched_yield() -> i32;
}
static TURN: AtomicU32 = AtomicU32::new(0);
static NTHR: AtomicU32 = AtomicU32::new(1);
static FUNC: [AtomicUsize; 16] = [const { AtomicUsize::new(0) }; 16];
static CTX: [AtomicUsize; 16] = [const { AtomicUsize::new(0) }; 16];
static DONE: [AtomicBool; 16] = [const { AtomicBool::new(false) }; 16];
fn my_turn(me: u32) {
    while TURN.load(SeqCst) != me {
        unsafe { sched_yield() };
    }
}
extern "C" fn trampoline(me: usize) -> usize {
    my_turn(me as u32);
    let f: extern "C" fn(usize) = unsafe { std::mem::transmute(FUNC[me].load(SeqCst)) };
    f(CTX[me].load(SeqCst));
    DONE[me].store(true, SeqCst);
    TURN.store(0, SeqCst);
    // threads never end, so that nothing of theirs is freed
    loop {
        unsafe { sched_yield() };
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
}
#[no_mangle]
unsafe extern "C" fn __vx_spawn(f: usize, ctx: usize) -> u32 {
    let n = NTHR.fetch_add(1, SeqCst);
    FUNC[n as usize].store(f, SeqCst);
    CTX[n as usize].store(ctx, SeqCst);
    let mut t = 0usize;
    if pthread_create(&mut t, std::ptr::null(), trampoline, n as usize) != 0 {
        die("no thread\n", 13);
    }
    n
}
#[no_mangle]
extern "C" fn __vx_switch(t: u32) {
    let me = TURN.load(SeqCst);
    if t >= NTHR.load(SeqCst) || DONE[t as usize].load(SeqCst) {
        die("switch to a thread that does not exist\n", 13);
    }
    TURN.store(t, SeqCst);
    my_turn(me);
}

#[no_mangle]
#[inline(never)]
extern "C" fn __vx_stack() -> u64 {
    let x = 0u8;
    u64::MAX / 2 - std::hint::black_box(&x) as *const u8 as u64
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let txt = std::fs::read_to_string(&args[1]).expect("replay file");
    let mut h = String::new();
    let mut v = vec![];
    for l in txt.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        let hex = |s: &str| u32::from_str_radix(s, 16).unwrap();
        match w.first().copied() {
            Some("harness") => h = w[1].to_string(),
            Some("job") => S.job.store(w[1].parse().unwrap(), SeqCst),
            Some("tier") => S.tier.store(w[1].parse().unwrap(), SeqCst),
            Some("u") => v.push(In::U(w[1].parse().unwrap())),
            Some("f") => v.push(In::F(hex(w[1]))),
            Some("c") => v.push(In::C(w[1].parse().unwrap())),
            Some("o") => v.push(In::O(w[1..].iter().map(|x| hex(x)).collect())),
            _ => {}
        }
    }
    let total = v.len();
    unsafe { *S.v.get() = v };
    if args.iter().any(|a| a == "start") {
        AT_START.store(true, SeqCst);
    }
    if args.iter().any(|a| a == "quiet") {
        S.quiet.store(true, SeqCst);
    }
    std::panic::set_hook(Box::new(move |i| {
        let ok = S.expect.load(SeqCst) || S.may.load(SeqCst);
        if ok {
            let cb = S.cb.swap(0, SeqCst);
            if cb != 0 {
                S.expect.store(false, SeqCst);
                S.may.store(false, SeqCst);
                let f: extern "C" fn(usize) = unsafe { std::mem::transmute(cb) };
                f(S.ctx.load(SeqCst));
            }
            die("refused as expected\n", 10);
        }
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        out!("FAIL panic | {} at {}\n", m, i.location().map(|l| l.to_string()).unwrap_or_default());
        unsafe { _exit(11) }
    }));
    let mut f: Option<fn(u32)> = None;
    for t in vxh::tables() {
        for e in t.iter() {
            if e.0 == h {
                f = Some(e.1);
            }
        }
    }
    let f = match f {
        Some(f) => f,
        None => die("no such harness\n", 13),
    };
    let job = S.job.load(SeqCst);
    GUARD_ON.store(true, SeqCst);
    f(job);
    GUARD_ON.store(false, SeqCst);
    if S.p.load(SeqCst) != total {
        die("input stream not consumed\n", 13);
    }
    die("completed\n", 0)
}
