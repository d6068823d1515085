//! C10: the memory pool.
use crate::util::*;
use crate::vx;
use prima_undine::device_impl::DeviceImpl;
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::random::hooks;
use prima_undine::{Optimizer, OptimizerBase};
use std::cell::RefCell;
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, Ordering};

const EXCLUSIVE: &str = "pool: live storage is exclusive";
const LARGE: &str = "pool: a block is at least as large as requested";
const RECYCLE: &str = "pool: a dropped block of the size class is reused";
const ONCE: &str = "pool: every block is returned to the device exactly once";
const EARLY: &str = "pool: no live block is returned to the device";
const FOREIGN: &str = "pool: only blocks of the device are handed out and returned";

/// A device whose blocks are tokens; it records every request.
#[derive(Default)]
pub struct Log {
    pub size: Vec<u32>, // block i has handle 16 * (i + 1)
    pub returned: Vec<u32>,
}
pub struct Rec(pub *const RefCell<Log>);
unsafe impl Send for Rec {}
unsafe impl Sync for Rec {}
impl DeviceImpl for Rec {
    fn identifier(&self) -> String {
        String::new()
    }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        let mut l = unsafe { &*self.0 }.borrow_mut();
        l.size.push(size);
        l.returned.push(0);
        AtomicPtr::new((16 * l.size.len()) as *mut c_void)
    }
    fn drop_handle(&self, h: &AtomicPtr<c_void>) {
        let mut l = unsafe { &*self.0 }.borrow_mut();
        let n = l.size.len();
        let i = block(h);
        vx::check(i < n, FOREIGN);
        l.returned[i] += 1;
    }
}
pub fn block(h: &AtomicPtr<c_void>) -> usize {
    (h.load(Ordering::Acquire) as usize / 16).wrapping_sub(1)
}
/// the size a fresh device is asked for
fn class(size: u32) -> u32 {
    let log = RefCell::new(Log::default());
    let dev = Device::new(Rec(&log));
    dev.drop_handle(&dev.new_handle(size));
    drop(dev);
    let l = log.borrow();
    l.size[0]
}

// one request of any size, then again after dropping
fn size(job: u32) {
    let log = RefCell::new(Log::default());
    let dev = Device::new(Rec(&log));
    let s = vx::u32_in(0, u32::MAX);
    if job == 1 {
        // a request that does not fit is refused without asking the device
        vx::assume(s == 0 || s > 1 << 31);
        if s == 0 {
            vx::expect_panic(true);
        }
        vx::may_panic(s != 0);
        let h = dev.new_handle(s);
        vx::check(log.borrow().size[block(&h)] >= s, LARGE);
        return;
    }
    vx::assume(s != 0 && s <= 1 << 31);
    let h = dev.new_handle(s);
    vx::check(log.borrow().size.len() == 1 && block(&h) == 0, FOREIGN);
    vx::check(log.borrow().size[0] >= s, LARGE);
    // a second live block
    let g = dev.new_handle(s);
    vx::check(block(&g) != block(&h), EXCLUSIVE);
    vx::check(block(&g) < log.borrow().size.len(), FOREIGN);
    vx::check(log.borrow().size[block(&g)] >= s, LARGE);
    vx::check(log.borrow().returned.iter().all(|r| *r == 0), EARLY);
    dev.drop_handle(&h);
    dev.drop_handle(&g);
    let n = log.borrow().size.len();
    for _ in 0..2 {
        let (a, b) = (dev.new_handle(s), dev.new_handle(s));
        vx::check(log.borrow().size.len() == n, RECYCLE);
        vx::check(block(&a) != block(&b), EXCLUSIVE);
        vx::check(block(&a) < n && block(&b) < n, FOREIGN);
        dev.drop_handle(&b);
        dev.drop_handle(&a);
    }
    drop(dev);
    vx::check(log.borrow().returned.iter().all(|r| *r == 1), ONCE);
}

// two different sizes: a recycled block is large enough for whoever gets it
fn two(job: u32) {
    let log = RefCell::new(Log::default());
    let dev = Device::new(Rec(&log));
    let lo = 1u32 << job;
    let s = vx::u32_in(lo, lo + (lo - 1));
    let t = vx::u32_in(1, 1 << 31);
    let h = dev.new_handle(s);
    dev.drop_handle(&h);
    let g = dev.new_handle(t);
    let l = log.borrow();
    vx::check(block(&g) < l.size.len(), FOREIGN);
    vx::check(l.size[block(&g)] >= t, LARGE);
    if l.size[0] == class(t) {
        vx::check(l.size.len() == 1, RECYCLE);
    }
    drop(l);
    dev.drop_handle(&g);
    drop(dev);
    vx::check(log.borrow().returned.iter().all(|r| *r == 1), ONCE);
}

// histories over three slots
fn history(job: u32) {
    let log = RefCell::new(Log::default());
    let dev = Device::new(Rec(&log));
    let (a, b) = (vx::u32_in(1, 300), vx::u32_in(1, 300));
    let cl = [class(a), class(b)];
    let sizes = [a, b];
    let steps = if vx::thorough() { 8 } else { 6 };
    let mut slot: Vec<Option<(AtomicPtr<c_void>, u32)>> = vec![None, None, None];
    for q in 0..steps {
        let i = if q == 0 { 0 } else { vx::choose(3) } as usize;
        match slot[i].take() {
            Some((h, _)) => dev.drop_handle(&h),
            None => {
                let k = (if q == 0 { job } else { vx::choose(2) }) as usize;
                let before = log.borrow().size.len();
                let free = (0..before).any(|x| {
                    log.borrow().size[x] == cl[k] && !slot.iter().flatten().any(|y| block(&y.0) == x)
                });
                let h = dev.new_handle(sizes[k]);
                let l = log.borrow();
                vx::check(block(&h) < l.size.len(), FOREIGN);
                vx::check(l.size[block(&h)] >= sizes[k], LARGE);
                vx::check(!slot.iter().flatten().any(|y| block(&y.0) == block(&h)), EXCLUSIVE);
                if free {
                    vx::check(l.size.len() == before, RECYCLE);
                }
                slot[i] = Some((h, sizes[k]));
            }
        }
        let l = log.borrow();
        for y in slot.iter().flatten() {
            vx::check(l.returned[block(&y.0)] == 0, EARLY);
        }
    }
    for y in slot.iter().flatten() {
        dev.drop_handle(&y.0);
    }
    drop(slot);
    drop(dev);
    vx::check(log.borrow().returned.iter().all(|r| *r == 1), ONCE);
}

// a tensor asks for its whole size
fn shapes(job: u32) {
    let log = RefCell::new(Log::default());
    let dev = Device::new(Rec(&log));
    // one extent symbolic over everything that fits, the others by case split
    let (p, q) = vx::pick(&[(1, 1), (3, 1), (5, 7)]);
    let x = vx::u32_in(1, (1 << 31) / 35);
    let n = p * q * x;
    let (d, b) = match job {
        0 => (vec![x, p], q),
        1 => (vec![p, q, x], 1),
        _ => (vec![p, q], x),
    };
    let mut t = dev.new_tensor(Shape::new(&d, b));
    vx::check(!t.valid() && log.borrow().size.len() == 0, "pool: a tensor has no storage before it is allocated");
    t.alloc();
    vx::check(t.valid() && log.borrow().size.len() == 1, "pool: alloc takes one block");
    vx::check(log.borrow().size[0] >= n, LARGE);
    drop(t);
    drop(dev);
    vx::check(log.borrow().returned[0] == 1, ONCE);
}

// tensors with contents: every live tensor keeps its own values
const KEEPS: &str = "pool: a live tensor's contents are its own";
const SHARES: &str = "pool: a referring tensor sees the storage it refers to";
const LEAK: &str = "pool: all memory is released once the device is gone";

struct Slot<'d> {
    t: Tensor<'d>,
    v: Option<Vec<f32>>,
}
// the first values and the last
fn same(t: &Tensor, v: &[f32], label: &str) {
    let w = t.to_vec();
    vx::check(w.len() == v.len(), label);
    for i in [0, 1, w.len() - 1] {
        vx::bits(w[i], v[i], label);
    }
}
fn tensors(job: u32) {
    let base = vx::live_heap();
    {
        let dev = Naive::new();
        let shapes = [Shape::new(&[2], 1), Shape::new(&[], 65)];
        let mut slots: Vec<Option<Slot>> = vec![None, None, None];
        let fresh = |n: u32| {
            let mut v = vx::floats(2);
            v.resize(n as usize, 3.5);
            v
        };
        let steps = if vx::thorough() { 5 } else { 4 };
        for q in 0..steps {
            let i = if q == 0 { 0 } else { vx::choose(3) } as usize;
            if slots[i].is_none() {
                let s = shapes[if q == 0 { job & 1 } else { vx::choose(2) } as usize];
                let v = fresh(s.size());
                match if q == 0 { job >> 1 } else { vx::choose(4) } {
                    0 => slots[i] = Some(Slot { t: dev.new_tensor_by_slice(s, &v), v: Some(v) }),
                    1 => slots[i] = Some(Slot { t: dev.new_tensor(s), v: None }),
                    2 => {
                        let mut t = Tensor::new_host_tensor(s, v.clone());
                        t.move_to_device(&dev);
                        slots[i] = Some(Slot { t, v: Some(v) });
                    }
                    _ => {
                        // results of operations
                        let j = vx::choose(3) as usize;
                        if let Some(Slot { t, v: Some(v) }) = &slots[j] {
                            let n = match vx::choose(3) {
                                0 => dev.copy_tensor(t),
                                1 => t.batch_slice(0, t.shape().batch()),
                                _ => t.reshape(Shape::new(&[t.shape().size()], 1)),
                            };
                            let v = v.clone();
                            slots[i] = Some(Slot { t: n, v: Some(v) });
                        }
                    }
                }
            } else {
                let mut x = slots[i].take().unwrap();
                match vx::choose(4) {
                    0 => {}
                    1 => {
                        if x.v.is_some() {
                            let w = fresh(x.t.shape().size());
                            dev.reset_tensor_by_slice(&mut x.t, &w);
                            x.v = Some(w);
                        } else {
                            let k = vx::f32_finite();
                            x.t.alloc();
                            x.t.reset(k);
                            x.v = Some(vec![k; x.t.shape().size() as usize]);
                        }
                        slots[i] = Some(x);
                    }
                    2 => {
                        // another tensor takes over the storage
                        let mut n = dev.new_tensor(x.t.shape());
                        n.replace(x.t);
                        vx::check(n.valid() == x.v.is_some(), "pool: replacing moves the storage");
                        slots[i] = Some(Slot { t: n, v: x.v });
                    }
                    _ => {
                        // a referring tensor comes and goes, possibly replaced or given storage itself
                        {
                            let mut r = Tensor::from(&x.t);
                            vx::check(r.valid() == x.t.valid(), SHARES);
                            if let Some(v) = &x.v {
                                same(&r, v, SHARES);
                                if vx::choose(2) == 1 {
                                    let mut c = dev.new_tensor(r.shape());
                                    c.replace(r);
                                    same(&c, v, SHARES);
                                    c.reset(0.5);
                                }
                            } else if vx::choose(2) == 1 {
                                r.alloc();
                                r.reset(1.5);
                            } else {
                                let mut o = dev.new_tensor(r.shape());
                                o.alloc();
                                o.reset(2.5);
                                r.replace(o);
                            }
                        }
                        slots[i] = Some(x);
                    }
                }
            }
            for s in slots.iter().flatten() {
                match &s.v {
                    Some(v) => same(&s.t, v, KEEPS),
                    None => vx::check(!s.t.valid(), "pool: a tensor has no storage before it is allocated"),
                }
            }
        }
        drop(slots);
    }
    vx::check(vx::live_heap() == base, LEAK);
}

// training step after step: storage is reused, and nothing is left when everything is gone
const STEADY: &str = "pool: repeating the same work needs no further storage";
// tensors referring to tensors that refer to others
fn chain(job: u32) {
    let base = vx::live_heap();
    {
        let dev = Naive::new();
        let s = Shape::new(&[2], 1 + job % 2);
        let v = vx::floats(s.size() as usize);
        let a = dev.new_tensor_by_slice(s, &v);
        let mut c = dev.new_tensor(s);
        {
            let r1 = Tensor::from(&a);
            let mut r2 = dev.new_tensor(s);
            r2.refer(&r1);
            let r3 = Tensor::from(&r2);
            let r4 = Tensor::from(&r2);
            for r in [&r1, &r2, &r3, &r4] {
                vx::check(r.valid(), SHARES);
                same(r, &v, SHARES);
            }
            match vx::choose(4) {
                0 => {}
                1 => {
                    c.replace(r3);
                    same(&r4, &v, SHARES);
                }
                2 => drop(r3),
                _ => {
                    let n = &r3 + &r4;
                    same(&n, &(&a * 2.).to_vec(), SHARES);
                }
            }
        }
        // what comes next has storage of its own
        let mut n = dev.new_tensor(s);
        n.alloc();
        n.reset(0.5);
        let mut m = dev.new_tensor_by_constant(s, 0.25);
        same(&a, &v, KEEPS);
        if c.valid() {
            same(&c, &v, SHARES);
            c.reset(3.);
            same(&a, &v, KEEPS);
        }
        m.reset(4.);
        same(&n, &vec![0.5; v.len()], KEEPS);
        if job / 2 == 1 {
            drop(a);
            let k = dev.new_tensor_by_constant(s, 0.75);
            same(&k, &vec![0.75; v.len()], KEEPS);
            if c.valid() {
                same(&c, &vec![3.; v.len()], KEEPS);
            }
            same(&m, &vec![4.; v.len()], KEEPS);
        }
    }
    vx::check(vx::live_heap() == base, LEAK);
}

fn round<'d>(dev: &'d Device<'d>, job: u32, ps: &mut [Parameter<'d>], o: &mut dyn Step, v: &[f32]) {
    {
        let t = dev.new_tensor_by_slice(Shape::new(&[2], 2), v);
        let (p0, p1) = ps.split_at_mut(1);
        let w = Node::from(&mut p0[0]);
        let b = Node::from(&mut p1[0]);
        let x = Node::from(&t);
        match job {
            0 => {
                let y = w.matmul(&x) + &b;
                let l = y.tanh().sum(0).batch_sum();
                l.to_vec();
                l.backward();
            }
            1 => {
                let h = (&w.matmul(&x) + &b) * &b;
                let z = h.split(0, 2);
                let y = Node::concat(&z.iter().collect::<Vec<_>>(), 1).sum(1);
                y.backward();
                y.backward();
            }
            2 => {
                // evaluated only partly, or not at all
                let h = w.matmul(&x);
                let _unused = h.exp();
                let y = &h + &b;
                y.forward();
            }
            _ => {
                let h = x.batch_split(2);
                let mut y = Node::batch_concat(&h.iter().collect::<Vec<_>>()).batch_sum() + &b;
                for _ in 0..3 {
                    y = w.matmul(y) * 0.5;
                }
                y.batch_sum().sum(0).backward();
            }
        }
    }
    let mut r: Vec<&mut Parameter> = ps.iter_mut().collect();
    o.step(&mut r);
}
trait Step {
    fn step(&mut self, ps: &mut [&mut Parameter]);
}
impl<O: Optimizer> Step for O {
    fn step(&mut self, ps: &mut [&mut Parameter]) {
        self.update_parameters(ps);
    }
}
fn training(job: u32) {
    let base = vx::live_heap();
    {
        let dev = Naive::new();
        let v = vx::floats(4);
        let mut ps = vec![
            Parameter::new(dev.new_tensor_by_slice(Shape::new(&[2, 2], 1), &vx::floats(4)), dev.new_tensor_by_constant(Shape::new(&[2, 2], 1), 0.)),
            Parameter::new(dev.new_tensor_by_slice(Shape::new(&[2], 1), &vx::floats(2)), dev.new_tensor_by_constant(Shape::new(&[2], 1), 0.)),
        ];
        let (mut s, mut m, mut a);
        let mut r: Vec<&mut Parameter> = ps.iter_mut().collect();
        let o: &mut dyn Step = match job / 4 {
            0 => {
                s = SGD::new(0.1);
                s.set_weight_decay(0.01);
                s.configure_parameters(&mut r);
                &mut s
            }
            1 => {
                m = MomentumSGD::new(0.1, 0.9);
                m.configure_parameters(&mut r);
                &mut m
            }
            _ => {
                a = Adam::new(0.1, 0.9, 0.999, 1e-8);
                a.configure_parameters(&mut r);
                &mut a
            }
        };
        let mut after = vec![];
        for _ in 0..4 {
            round(&dev, job % 4, &mut ps, o, &v);
            after.push(vx::live_heap());
        }
        vx::check(after[2] == after[1] && after[3] == after[1], STEADY);
    }
    vx::check(vx::live_heap() == base, LEAK);
}

// ---- threads ----

const STUCK: &str = "pool: threads do not block one another for good";

/// Threads, of which one runs at a time: every lock of the pool is a point where any other thread
/// may go on.  Thread 0 (the harness) decides.
struct Sched {
    n: usize,
    ended: [bool; 4],
    waits: [bool; 4],
    now: usize,
    last_wait: bool,
}
static mut SCHED: Sched = Sched { n: 0, ended: [false; 4], waits: [false; 4], now: 0, last_wait: false };
#[allow(static_mut_refs)]
fn sched() -> &'static mut Sched {
    unsafe { &mut SCHED }
}
fn point(e: hooks::Event) {
    let s = sched();
    if s.now != 0 {
        s.last_wait = e == hooks::Event::Wait;
        vx::switch(0);
    }
}
fn end_thread() {
    let s = sched();
    s.ended[s.now] = true;
    s.last_wait = false;
}
/// Runs the threads f(ctx[i]) under every schedule with at most so many preemptions.
fn run_threads<T>(f: extern "C" fn(*const ()), ctx: &[T], preemptions: u32) {
    *sched() = Sched { n: ctx.len(), ended: [false; 4], waits: [false; 4], now: 0, last_wait: false };
    hooks::install_scheduler(Some(point));
    for c in ctx {
        vx::spawn(f, c);
    }
    let mut left = preemptions;
    let mut last = 0;
    loop {
        let s = sched();
        let ready: Vec<usize> = (1..=s.n).filter(|i| !s.ended[*i] && !s.waits[*i]).collect();
        if ready.is_empty() {
            vx::check((1..=s.n).all(|i| s.ended[i]), STUCK);
            break;
        }
        let t = if ready.len() == 1 || (left == 0 && ready.contains(&last)) {
            if ready.contains(&last) { last } else { ready[0] }
        } else {
            vx::pick(&ready)
        };
        if t != last && ready.contains(&last) {
            left -= 1;
        }
        last = t;
        s.now = t;
        vx::switch(t as u32);
        let s = sched();
        s.now = 0;
        if s.last_wait {
            s.waits[t] = true;
        } else {
            s.waits = [false; 4];
        }
    }
    hooks::install_scheduler(None);
}

/// What the threads share: the state of every block as its holder sees it.
#[derive(Clone, Copy, PartialEq)]
enum Held {
    Free(u32), // since
    Live,
    Dropping(u32), // which drop
}
struct Shared<'d> {
    dev: *const Device<'d>,
    log: *const RefCell<Log>,
    held: RefCell<Vec<Held>>,
    /// per thread: the class being allocated and since when
    asking: RefCell<[Option<(u32, u32)>; 4]>,
    clock: std::cell::Cell<u32>,
}
impl<'d> Shared<'d> {
    fn tick(&self) -> u32 {
        self.clock.set(self.clock.get() + 1);
        self.clock.get()
    }
    fn take(&self, size: u32, class: u32) -> AtomicPtr<c_void> {
        let (me, log) = (sched().now, unsafe { &*self.log });
        let since = self.tick();
        self.asking.borrow_mut()[me] = Some((class, since));
        let before = log.borrow().size.len();
        let h = unsafe { &*self.dev }.new_handle(size);
        self.asking.borrow_mut()[me] = None;
        let l = log.borrow();
        let b = block(&h);
        vx::check(b < l.size.len(), FOREIGN);
        vx::check(l.size[b] >= size, LARGE);
        let mut held = self.held.borrow_mut();
        while held.len() < l.size.len() {
            held.push(Held::Dropping(0));
        }
        vx::check(held[b] != Held::Live, EXCLUSIVE);
        held[b] = Held::Live;
        if b >= before {
            // new from the device, although a block that was free all the time was left to no one
            let free = (0..before).filter(|i| l.size[*i] == class && matches!(held[*i], Held::Free(t) if t < since)).count();
            let others = self.asking.borrow().iter().flatten().filter(|x| x.0 == class).count();
            vx::check(free <= others, RECYCLE);
        }
        h
    }
    fn give(&self, h: AtomicPtr<c_void>) {
        let b = block(&h);
        let which = Held::Dropping(self.tick());
        self.held.borrow_mut()[b] = which;
        unsafe { &*self.dev }.drop_handle(&h);
        // the block may already be someone else's
        let t = self.tick();
        let mut held = self.held.borrow_mut();
        if held[b] == which {
            held[b] = Held::Free(t);
        }
    }
}
struct Script<'a, 'd> {
    sh: &'a Shared<'d>,
    sizes: [u32; 2],
    class: [u32; 2],
    own: RefCell<Vec<AtomicPtr<c_void>>>,
    acts: Vec<u32>,
}
extern "C" fn play(c: *const ()) {
    let s = unsafe { &*(c as *const Script) };
    for a in &s.acts {
        if *a < 2 {
            let h = s.sh.take(s.sizes[*a as usize], s.class[*a as usize]);
            s.own.borrow_mut().push(h);
        } else if let Some(h) = s.own.borrow_mut().pop() {
            s.sh.give(h);
        }
    }
    end_thread();
}
/// 0, 1: take a block of that size; 2: drop the newest own block
const SCRIPTS: [&[u32]; 6] = [&[0, 2], &[2, 0], &[2, 0, 2], &[0, 2, 0], &[2, 1], &[1, 0]];

fn threads(job: u32) {
    let n = if job < 36 { 2 } else { 3 };
    let log = RefCell::new(Log::default());
    let dev = Device::new(Rec(&log));
    let (a, b) = (vx::u32_in(1, 64), vx::u32_in(65, 128));
    let cl = [class(a), class(b)];
    let sh = Shared { dev: &dev, log: &log, held: Default::default(), asking: Default::default(), clock: Default::default() };
    // one block each, and possibly free ones
    let own: Vec<_> = (0..n).map(|_| RefCell::new(vec![sh.take(a, cl[0])])).collect();
    let free = vx::choose(if n == 2 { 3 } else { 2 });
    let spare: Vec<_> = (0..free).map(|i| sh.take([a, b][i as usize], cl[i as usize])).collect();
    for h in spare {
        sh.give(h);
    }
    let mut j = job;
    if n == 3 {
        j = [0, 8, 14, 22, 28, 43, 86, 129][(job - 36) as usize];
    }
    let scripts: Vec<Script> = own
        .into_iter()
        .map(|own| {
            let acts = SCRIPTS[(j % 6) as usize].to_vec();
            j /= 6;
            let acts = if n == 3 { acts[..2].to_vec() } else { acts };
            Script { sh: &sh, sizes: [a, b], class: cl, own, acts }
        })
        .collect();
    run_threads(play, &scripts, if vx::thorough() { 5 } else if n == 2 { 3 } else { 2 });
    for s in scripts {
        for h in s.own.into_inner() {
            sh.give(h);
        }
    }
    vx::check(log.borrow().returned.iter().all(|r| *r == 0), EARLY);
    // everything free can be had again
    let m = log.borrow().size.len();
    let mut again = vec![];
    for i in 0..m {
        let k = (log.borrow().size[i] != cl[0]) as usize;
        again.push(sh.take([a, b][k], cl[k]));
        vx::check(log.borrow().size.len() == m, RECYCLE);
    }
    for h in again {
        sh.give(h);
    }
    drop(sh);
    drop(dev);
    vx::check(log.borrow().returned.iter().all(|r| *r == 1), ONCE);
}

// tensors made, used and dropped by several threads on one device
struct Work<'d> {
    dev: *const Device<'d>,
    v: Vec<f32>,
    w: Vec<f32>,
    /// made by another thread, dropped by this one
    given: RefCell<Option<Tensor<'d>>>,
    kind: u32,
    left: RefCell<Option<Tensor<'d>>>,
}
extern "C" fn work(c: *const ()) {
    let s = unsafe { &*(c as *const Work) };
    let dev = unsafe { &*s.dev };
    match s.kind {
        0 => {
            let t = dev.new_tensor_by_slice(Shape::new(&[2], 1), &s.v);
            s.given.borrow_mut().take();
            same(&t, &s.v, KEEPS);
            *s.left.borrow_mut() = Some(t);
        }
        1 => {
            let g = s.given.borrow_mut().take().unwrap();
            same(&g, &s.w, KEEPS);
            drop(g);
            let t = dev.new_tensor_by_slice(Shape::new(&[2], 1), &s.v);
            *s.left.borrow_mut() = Some(t);
        }
        _ => {
            let g = s.given.borrow_mut().take().unwrap();
            let u = dev.copy_tensor(&g);
            drop(g);
            same(&u, &s.w, KEEPS);
            drop(u);
            *s.left.borrow_mut() = Some(dev.new_tensor_by_slice(Shape::new(&[2], 1), &s.v));
        }
    }
    end_thread();
}
fn thread_tensors(job: u32) {
    let dev = Naive::new();
    let kinds = [job % 3, job / 3];
    let works: Vec<Work> = kinds
        .iter()
        .map(|k| {
            let (v, w) = (vx::floats(2), vx::floats(2));
            let g = dev.new_tensor_by_slice(Shape::new(&[2], 1), &w);
            Work { dev: &dev, v, w, given: RefCell::new(Some(g)), kind: *k, left: RefCell::new(None) }
        })
        .collect();
    if vx::choose(2) == 1 {
        dev.new_tensor(Shape::new(&[2], 1)).alloc();
    }
    run_threads(work, &works, if vx::thorough() { 5 } else { 2 });
    for w in &works {
        same(w.left.borrow().as_ref().unwrap(), &w.v, KEEPS);
    }
}

harnesses! { "c10";
    "size": 2 => size;
    "two": 31 => two;
    "history": 2 => history;
    "shapes": 3 => shapes;
    "tensors": 6 => tensors;
    "chain": 4 => chain;
    "training": 12 => training;
    "threads": 44 => threads;
    "thread_tensors": 9 => thread_tensors;
}
