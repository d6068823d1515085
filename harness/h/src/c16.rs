//! C16: initializers and random tensors.
use crate::rng;
use crate::util::*;
use crate::vx;
use prima_undine::initializers as I;
use prima_undine::random::hooks::Source;
use prima_undine::{DefaultRandomizer, Initializer, Randomizer};
use rand_distr::{Distribution, StandardNormal};

const ALL: &str = "random: every element is drawn, each from its own word";
const KEEP: &str = "random: other tensors are left unchanged";
const SHAPE: &str = "random: shape";

fn shapes(via: Via) -> (Vec<u32>, u32) {
    if big() != 0 {
        let b = via != Via::Parameter;
        let (d, b): (&[u32], u32) = if huge() {
            vx::pick(&[(&[4100][..], 1), (&[3, 700], 1), (&[17], if b { 130 } else { 1 })])
        } else {
            vx::pick(&[(&[70][..], 1), (&[5, 29], 1), (&[33], if b { 3 } else { 1 }), (&[300], 1)])
        };
        return (d.to_vec(), b);
    }
    if via == Via::Parameter {
        // a parameter has a single sample
        let d: &[u32] = vx::pick(&[&[][..], &[3], &[2, 2], &[1, 3], &[2, 1, 2]]);
        return (d.to_vec(), 1);
    }
    let (d, b): (&[u32], u32) = vx::pick(&[(&[][..], 1), (&[3], 1), (&[2, 2], 1), (&[1, 3], 2), (&[], 3), (&[2, 1, 2], 1)]);
    (d.to_vec(), b)
}

/// The ways to ask for random values.
#[derive(Clone, Copy, PartialEq)]
enum Via {
    Device,
    Apply,
    Parameter,
    Fill,
}
const VIAS: [Via; 4] = [Via::Device, Via::Apply, Via::Parameter, Via::Fill];

fn init<'d>(dev: &'d Device<'d>, s: Shape, via: Via, i: &dyn Initializer) -> Vec<f32> {
    match via {
        Via::Apply => {
            let mut t = dev.new_tensor(s);
            i.apply(&mut t);
            vx::check(t.shape() == s && t.valid(), SHAPE);
            t.to_vec()
        }
        _ => {
            let p = dev.new_parameter(s, i);
            vx::check(p.value.shape() == s && p.shape() == s, SHAPE);
            let g = p.gradient.to_vec();
            vx::check(g.len() == s.size() as usize, SHAPE);
            for a in g {
                vx::bits(a, 0., "random: a new parameter has a zero gradient");
            }
            p.value.to_vec()
        }
    }
}
/// a tensor and a guard against stray writes
struct Guard<'d>(Tensor<'d>, Vec<f32>);
impl<'d> Guard<'d> {
    fn new(dev: &'d Device<'d>, n: u32) -> Guard<'d> {
        let v = vx::floats(n as usize);
        Guard(dev.new_tensor_by_slice(Shape::new(&[n], 1), &v), v)
    }
    fn check(&self) {
        same(&self.0, &self.1, KEEP);
    }
}

fn uniform(dev: &Device, s: Shape, via: Via, lo: f32, hi: f32) -> Vec<f32> {
    // extend the borrow: tensors do not outlive this function
    match via {
        Via::Device => {
            let t = dev.random_uniform(s, lo, hi);
            vx::check(t.shape() == s, SHAPE);
            t.to_vec()
        }
        Via::Fill => {
            let mut v = vec![7.; s.size() as usize];
            DefaultRandomizer::new().fill_uniform(lo, hi, &mut v);
            v
        }
        v => init(dev, s, v, &I::Uniform::new(lo, hi)),
    }
}
fn normal(dev: &Device, s: Shape, via: Via, m: f32, sd: f32) -> Vec<f32> {
    match via {
        Via::Device => {
            let t = dev.random_normal(s, m, sd);
            vx::check(t.shape() == s, SHAPE);
            t.to_vec()
        }
        Via::Fill => {
            let mut v = vec![7.; s.size() as usize];
            DefaultRandomizer::new().fill_normal(m, sd, &mut v);
            v
        }
        v => init(dev, s, v, &I::Normal::new(m, sd)),
    }
}
fn bernoulli(dev: &Device, s: Shape, fill: bool, p: f32) -> Vec<f32> {
    if fill {
        let mut v = vec![7.; s.size() as usize];
        DefaultRandomizer::new().fill_bernoulli(p, &mut v);
        v
    } else {
        let t = dev.random_bernoulli(s, p);
        vx::check(t.shape() == s, SHAPE);
        t.to_vec()
    }
}

const RANGES: [(f32, f32); 10] = [
    (0., 1.),
    (-1., 1.),
    (-0.1, 0.1),
    (2.5, 7.),
    (-3., -2.75),
    (0.1, 0.10001),
    (-1e30, 1e30),
    (1e-30, 3e-30),
    (0., 3.3333333),
    (-16777216., 16777216.),
];

/// Every draw lies in the half-open range, whatever the words.
fn range(job: u32) {
    vx::strict_fp(true);
    let dev = Naive::new();
    let (lo, hi) = RANGES[job as usize];
    let via = vx::pick(&VIAS);
    let s = Shape::new(&[2], 1);
    let w: Vec<u64> = (0..2).map(|_| rng::any()).collect();
    rng::set(w);
    let v = uniform(&dev, s, via, lo, hi);
    vx::check(v.len() == 2, SHAPE);
    for a in v {
        vx::check(a >= lo && a < hi, "random: a uniform draw lies in [lower, upper)");
    }
}

/// The quarters of the word range give the quarters of the value range (in either direction).
fn quarter(job: u32) {
    vx::strict_fp(true);
    let dev = Naive::new();
    let (lo, hi) = RANGES[job as usize];
    let via = vx::pick(&VIAS);
    let q = vx::choose(4);
    rng::set(vec![rng::stratum(q, 4)]);
    let v = uniform(&dev, Shape::new(&[], 1), via, lo, hi);
    vx::check(v.len() == 1, SHAPE);
    let (a, l, w) = (v[0] as f64, lo as f64, hi as f64 - lo as f64);
    let inside = |q: u32| a >= l + w * q as f64 / 4. && a < l + w * (q + 1) as f64 / 4.;
    vx::check(inside(q) || inside(3 - q), "random: a uniform draw is spread evenly over the range");
}

/// Both ends of the range are reached, every element has its word, nothing else changes.
fn spread(job: u32) {
    let dev = Naive::new();
    junk(&dev, 4, 12);
    let via = VIAS[job as usize];
    let (lo, hi) = vx::pick(&RANGES);
    let (d, b) = shapes(via);
    let s = Shape::new(&d, b);
    let n = s.size();
    let g = Guard::new(&dev, n);
    let r = if big() != 0 { vx::pick(&[0, n - 1, n / 2]) } else { vx::choose(n) } as usize;
    rng::set((0..n as usize).map(|i| if i == r { u64::MAX } else { 0 }).collect());
    let v = uniform(&dev, s, via, lo, hi);
    vx::check(v.len() == n as usize, SHAPE);
    let (mut low, mut high) = (0, 0);
    let w = hi as f64 - lo as f64;
    for a in &v {
        if *a as f64 <= lo as f64 + w * 0.01 {
            low += 1;
        }
        if *a as f64 >= lo as f64 + w * 0.99 && *a <= hi {
            high += 1;
        }
    }
    vx::check(low == n - 1 && high == 1, ALL);
    g.check();
}

fn norm(job: u32) {
    let dev = Naive::new();
    junk(&dev, 4, 12);
    let via = VIAS[job as usize % 4];
    let log = job >= 4;
    let (d, b) = shapes(via);
    let s = Shape::new(&d, b);
    let n = s.size() as usize;
    let (m, sd) = (vx::f32_finite(), vx::f32_finite());
    vx::assume(m > -10. && m < 10. && sd > 0.001 && sd < 10.);
    // some words in the body of the distribution, some near its tails
    let k = vx::choose(3) as u64;
    let w: Vec<u64> = (0..if huge() { 4600u64 } else if big() != 0 { 400 } else { 64 }).map(|i| (i + 1 + 64 * k).wrapping_mul(0x9e37_79b9_7f4a_7c15)).collect();
    rng::set(w.clone());
    let z: Vec<f32> = (0..n).map(|_| StandardNormal.sample(&mut Source)).collect();
    let used = rng::used();
    rng::set(w);
    let g = Guard::new(&dev, 3);
    let v = if log {
        let mut v = vec![7.; n];
        DefaultRandomizer::new().fill_log_normal(m, sd, &mut v);
        v
    } else {
        normal(&dev, s, via, m, sd)
    };
    vx::check(v.len() == n, SHAPE);
    vx::check(rng::used() == used, ALL);
    for i in 0..n {
        if log {
            vx::feq(v[i], (m + sd * z[i]).exp(), "random: a log-normal draw is exp(mean + deviation * standard normal draw)");
        } else {
            vx::feq(v[i], m + sd * z[i], "random: a normal draw is mean + deviation * standard normal draw");
        }
    }
    g.check();
}

fn coin(job: u32) {
    let dev = Naive::new();
    junk(&dev, 4, 12);
    let fill = job % 2 == 1;
    let g = Guard::new(&dev, 8);
    if job / 2 == 0 {
        // any word: zero or one
        let (d, b) = shapes(Via::Device);
        let s = Shape::new(&d, b);
        let p = vx::pick(&[0., 1., 0.5, 1e-6, 0.999]);
        rng::set((0..s.size()).map(|_| rng::any()).collect());
        let v = bernoulli(&dev, s, fill, p);
        vx::check(v.len() == s.size() as usize, SHAPE);
        for a in v {
            if p == 0. || p == 1. {
                vx::check(a == p, "random: probabilities zero and one are certain");
            } else {
                vx::check(a == 0. || a == 1., "random: a Bernoulli draw is 0 or 1");
            }
        }
    } else {
        // one word from each eighth of the range, in some rotation
        let k = vx::choose(9);
        let r = vx::choose(8);
        let (d, b): (&[u32], u32) = if huge() { vx::pick(&[(&[4104][..], 1), (&[8], 260)]) } else if big() != 0 { vx::pick(&[(&[80][..], 1), (&[5, 8], 3), (&[], 320)]) } else { vx::pick(&[(&[8][..], 1), (&[2, 2], 2), (&[], 8)]) };
        let s = Shape::new(d, b);
        if big() != 0 {
            // one word from each eighth of the range, over and over, in an order of its own
            let n = s.size();
            rng::set((0..n).map(|i| (2 * ((i * 5 + r) % 8) as u64 + 1) << 60 | i as u64).collect());
            let v = bernoulli(&dev, s, fill, k as f32 / 8.);
            let ones = v.iter().filter(|a| **a == 1.).count() as u32;
            let zeros = v.iter().filter(|a| **a == 0.).count() as u32;
            vx::check(v.len() == n as usize && ones == k * n / 8 && zeros == n - k * n / 8, "random: a Bernoulli draw is 1 with the probability asked for");
            return;
        }
        rng::set((0..8).map(|i| rng::stratum((i + r) % 8, 8)).collect());
        let v = bernoulli(&dev, s, fill, k as f32 / 8.);
        let ones = v.iter().filter(|a| **a == 1.).count() as u32;
        let zeros = v.iter().filter(|a| **a == 0.).count() as u32;
        vx::check(v.len() == 8 && ones == k && zeros == 8 - k, "random: a Bernoulli draw is 1 with the probability asked for");
    }
    g.check();
}

fn constant(job: u32) {
    let dev = Naive::new();
    junk(&dev, 6, 12);
    let k = vx::f32_any();
    let via = if job == 0 { Via::Apply } else { Via::Parameter };
    let (d, b) = shapes(via);
    let s = Shape::new(&d, b);
    let g = Guard::new(&dev, s.size());
    let i = I::Constant::new(k);
    let v = init(&dev, s, via, &i);
    vx::check(v.len() == s.size() as usize, SHAPE);
    for a in v {
        vx::bits(a, k, "random: a constant initializer is exact");
    }
    g.check();
}

fn identity(_job: u32) {
    let dev = Naive::new();
    junk(&dev, 3, 16);
    let n = if huge() { vx::pick(&[65usize]) } else if big() != 0 { vx::pick(&[9usize, 16, 33]) } else { vx::choose(5) as usize };
    let d: Vec<u32> = if n == 0 { vec![] } else { vec![n as u32, n as u32] };
    let mut y = dev.new_tensor(Shape::new(&d, 1));
    y.alloc();
    let g = Guard::new(&dev, 16);
    dev.call_fw_impl("identity_impl", &[], &[], &[], &mut [&mut y]);
    let m = n.max(1);
    let v = y.to_vec();
    vx::check(v.len() == m * m, SHAPE);
    for i in 0..m * m {
        vx::bits(v[i], if i % m == i / m { 1. } else { 0. }, "random: the identity matrix");
    }
    g.check();
}

/// Xavier: uniform within scale * sqrt(6 / (fan in + fan out)) on both sides
fn xavier(job: u32) {
    let dev = Naive::new();
    junk(&dev, 4, 12);
    let scale = vx::pick(&[1f32, 0.5, 1.4142135, 3., 1e-3]);
    if job == 2 {
        let (d, b): (&[u32], u32) = vx::pick(&[(&[2, 2, 2][..], 1), (&[1, 1, 2], 1), (&[1, 2, 1, 3], 1), (&[2, 2, 3], 2)]);
        let s = Shape::new(d, b);
        vx::expect_panic(true);
        rng::set(vec![0; 64]);
        let mut t = dev.new_tensor(s);
        I::XavierUniform::new(scale).apply(&mut t);
        vx::check(false, "random: the Xavier family asks for a matrix");
        return;
    }
    let (d, r, c): (&[u32], u32, u32) = vx::pick(&[(&[2, 3][..], 2, 3), (&[3, 2], 3, 2), (&[1, 5], 1, 5), (&[4], 4, 1), (&[], 1, 1), (&[4, 4], 4, 4), (&[7, 2], 7, 2)]);
    let s = Shape::new(d, 1);
    let n = s.size();
    let g = Guard::new(&dev, n);
    let via = if job == 0 { Via::Apply } else { Via::Parameter };
    let x = I::XavierUniform::new(scale);
    let bound = scale as f64 * (6. / (r + c) as f64).sqrt();
    let i = vx::choose(n) as usize;
    for top in [false, true] {
        let (e, o) = if top { (u64::MAX, 0) } else { (0, u64::MAX) };
        rng::set((0..n as usize).map(|j| if i == j { e } else { o }).collect());
        let v = init(&dev, s, via, &x);
        vx::check(v.len() == n as usize, SHAPE);
        let (mut lo, mut hi) = (0, 0);
        for a in &v {
            if (*a as f64 - bound).abs() <= bound * 1e-5 {
                hi += 1;
            }
            if (*a as f64 + bound).abs() <= bound * 1e-5 {
                lo += 1;
            }
            vx::check((*a as f64).abs() <= bound * 1.000001, "random: Xavier draws stay within the bound");
        }
        let (few, many) = if top { (hi, lo) } else { (lo, hi) };
        vx::check(few == 1 && many == n - 1, "random: Xavier draws reach the bound on both sides");
    }
    g.check();
}

/// Xavier draws stay within the bound, whatever the words.
fn xrange(job: u32) {
    vx::strict_fp(true);
    let dev = Naive::new();
    let scale = [1f32, 0.5, 1.4142135, 3., 1e-3][job as usize];
    let (d, r, c): (&[u32], u32, u32) = vx::pick(&[(&[1, 2][..], 1, 2), (&[2], 2, 1), (&[], 1, 1)]);
    let s = Shape::new(d, 1);
    let bound = scale as f64 * (6. / (r + c) as f64).sqrt();
    rng::set((0..s.size()).map(|_| rng::any()).collect());
    for a in init(&dev, s, Via::Apply, &I::XavierUniform::new(scale)) {
        vx::check((a as f64).abs() <= bound * 1.000001, "random: Xavier draws stay within the bound");
    }
}

/// A normal distribution with a negative or infinite deviation and an empty uniform range are refused.
fn refuse(job: u32) {
    let dev = Naive::new();
    rng::set(vec![1 << 60; 16]);
    vx::expect_panic(true);
    let s = Shape::new(&[2], 1);
    match job {
        0 => {
            let (lo, hi) = vx::pick(&[(1f32, 1f32), (1., 0.), (0., -1.), (f32::NAN, 1.), (0., f32::NAN)]);
            uniform(&dev, s, vx::pick(&VIAS), lo, hi);
        }
        1 => {
            let sd = vx::pick(&[-1f32, -1e-30, f32::NAN, f32::NEG_INFINITY]);
            normal(&dev, s, vx::pick(&VIAS), 0., sd);
        }
        _ => {
            let p = vx::pick(&[-0.1f32, 1.1, f32::NAN, -1e-30]);
            bernoulli(&dev, s, vx::choose(2) == 1, p);
        }
    }
    vx::check(false, "random: impossible parameters are refused");
}

// many elements
fn large(job: u32) {
    set_big(1);
    match job {
        0..=3 => spread(job),
        4..=8 => norm(job - 4),
        9..=10 => coin(job - 9 + 2),
        11..=12 => constant(job - 11),
        _ => identity(0),
    }
}

// thousands of elements
fn huges(job: u32) {
    set_huge();
    large(job)
}

harnesses! { "c16";
    "range": 10 => range;
    "quarter": 10 => quarter;
    "spread": 4 => spread;
    "norm": 5 => norm;
    "coin": 4 => coin;
    "constant": 2 => constant;
    "identity": 1 => identity;
    "xavier": 3 => xavier;
    "xrange": 5 => xrange;
    "refuse": 3 => refuse;
    "large": 14 => large;
    "huge": 14 => huges;
}
