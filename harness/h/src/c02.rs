//! C02: element-wise operations.
use crate::util::*;
use crate::vx;

struct Un {
    f: fn(&Tensor, f32) -> Vec<f32>,
    r: fn(f32, f32) -> f32,
    dom: fn(f32, f32) -> bool,
}
fn all(_: f32, _: f32) -> bool {
    true
}
fn pos(x: f32, _: f32) -> bool {
    x > 0.
}
fn nonneg(x: f32, _: f32) -> bool {
    x >= 0.
}
fn nz(x: f32, _: f32) -> bool {
    x != 0.
}
fn knz(_: f32, k: f32) -> bool {
    k != 0.
}
fn kpos(_: f32, k: f32) -> bool {
    k > 0.
}
fn softplus(x: f32) -> f32 {
    if x > 0. {
        x + (1. + (-x).exp()).ln()
    } else {
        (1. + x.exp()).ln()
    }
}
const UN: &[Un] = &[
    Un { f: |x, _| (-x).to_vec(), r: |x, _| -x, dom: all },
    Un { f: |x, _| x.sqrt().to_vec(), r: |x, _| x.sqrt(), dom: nonneg },
    Un { f: |x, _| x.abs().to_vec(), r: |x, _| if x < 0. { -x } else { x }, dom: nz },
    Un { f: |x, _| x.sin().to_vec(), r: |x, _| x.sin(), dom: all },
    Un { f: |x, _| x.cos().to_vec(), r: |x, _| x.cos(), dom: all },
    Un { f: |x, _| x.tan().to_vec(), r: |x, _| x.tan(), dom: all },
    Un { f: |x, _| x.exp().to_vec(), r: |x, _| x.exp(), dom: all },
    Un { f: |x, _| x.ln().to_vec(), r: |x, _| x.ln(), dom: pos },
    Un { f: |x, _| x.tanh().to_vec(), r: |x, _| x.tanh(), dom: all },
    Un { f: |x, _| x.sigmoid().to_vec(), r: |x, _| 1. / (1. + (-x).exp()), dom: all },
    Un { f: |x, _| x.softplus().to_vec(), r: |x, _| softplus(x), dom: all },
    Un { f: |x, _| x.relu().to_vec(), r: |x, _| if x > 0. { x } else { 0. }, dom: all },
    Un { f: |x, _| x.lrelu().to_vec(), r: |x, _| if x > 0. { x } else { 0.01 * x }, dom: all },
    Un { f: |x, k| x.prelu(k).to_vec(), r: |x, k| if x > 0. { x } else { k * x }, dom: all },
    Un { f: |x, k| x.elu(k).to_vec(), r: |x, k| if x > 0. { x } else { k * (x.exp() - 1.) }, dom: all },
    Un { f: |x, k| x.powf(k).to_vec(), r: |x, k| x.powf(k), dom: pos },
    Un { f: |x, k| x.device().powf_const_l_fw(x, k).to_vec(), r: |x, k| k.powf(x), dom: kpos },
    Un { f: |x, k| (x + k).to_vec(), r: |x, k| x + k, dom: all },
    Un { f: |x, k| (k + x).to_vec(), r: |x, k| k + x, dom: all },
    Un { f: |x, k| (x - k).to_vec(), r: |x, k| x - k, dom: all },
    Un { f: |x, k| (k - x).to_vec(), r: |x, k| k - x, dom: all },
    Un { f: |x, k| (x * k).to_vec(), r: |x, k| x * k, dom: all },
    Un { f: |x, k| (k * x).to_vec(), r: |x, k| k * x, dom: all },
    Un { f: |x, k| (x / k).to_vec(), r: |x, k| x / k, dom: knz },
    Un { f: |x, k| (k / x).to_vec(), r: |x, k| k / x, dom: nz },
];

fn unary(job: u32) {
    let u = &UN[job as usize];
    let dev = Naive::new();
    junk(&dev, 4, 64);
    let d = if vx::thorough() { dims(3, 3) } else { dims(2, 2) };
    let b = batch(if vx::thorough() { 4 } else { 3 });
    let x = Ref::sym(&d, b);
    let k = vx::f32_finite();
    for e in &x.v {
        vx::assume((u.dom)(*e, k));
    }
    let xt = x.tensor(&dev);
    let y = (u.f)(&xt, k);
    vx::check(y.len() == x.v.len(), "unary: size");
    for i in 0..y.len() {
        vx::feq(y[i], (u.r)(x.v[i], k), "unary: defining formula");
    }
    same(&xt, &x.v, "unary: operand unchanged");
}

fn powi(job: u32) {
    let ks: &[i32] = &[0, 1, 2, 3, -1, -2, 5, 17, 255, 256, -257, 65535];
    let k = ks[job as usize];
    let dev = Naive::new();
    junk(&dev, 4, 64);
    let d = dims(2, 2);
    let b = batch(2);
    let x = Ref::sym(&d, b);
    for e in &x.v {
        vx::assume(*e != 0.);
    }
    let xt = x.tensor(&dev);
    let y = xt.powi(k);
    shape_is(y.shape(), &d, b, "powi: shape");
    let y = y.to_vec();
    for i in 0..y.len() {
        let mut r = 1f32;
        if k.abs() < 20 {
            for _ in 0..k.abs() {
                r *= x.v[i];
            }
            if k < 0 {
                r = 1. / r;
            }
        } else {
            r = x.v[i].powi(k);
        }
        vx::feq(y[i], r, "powi: defining formula");
    }
}

// operator overloads: owned/borrowed on both sides must agree with the element-wise definition
fn bin(op: u32, own: u32, a: Tensor, b: Tensor) -> Vec<f32> {
    macro_rules! o {
        ($o:tt) => {
            match own {
                0 => (&a $o &b).to_vec(),
                1 => (a $o &b).to_vec(),
                2 => (&a $o b).to_vec(),
                _ => (a $o b).to_vec(),
            }
        };
    }
    // the tensors do not outlive this call
    match op {
        0 => o!(+),
        1 => o!(-),
        2 => o!(*),
        3 => o!(/),
        _ => a.pow(&b).to_vec(),
    }
}
fn rbin(op: u32, a: f32, b: f32) -> f32 {
    match op {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        _ => a.powf(b),
    }
}
fn binary(job: u32) {
    let op = job % 5;
    let kind = job / 5; // 0: same dims, 1: left scalar, 2: right scalar
    let dev = Naive::new();
    junk(&dev, 6, 64);
    let t = vx::thorough();
    let d = if t { dims(3, 3) } else { dims(2, 3) };
    let (ba, bb) = batches(if t { 4 } else { 3 });
    let (da, db) = match kind {
        0 => (d.clone(), d.clone()),
        1 => (vec![], d.clone()),
        _ => (d.clone(), vec![]),
    };
    let a = Ref::sym(&da, ba);
    let b = Ref::sym(&db, bb);
    if op == 3 {
        for e in &b.v {
            vx::assume(*e != 0.);
        }
    }
    if op == 4 {
        for e in &a.v {
            vx::assume(*e > 0.);
        }
    }
    let own = if op < 4 { vx::choose(4) } else { 0 };
    let (at, bt) = (a.tensor(&dev), b.tensor(&dev));
    let r = Ref::build(&d, ba.max(bb), &mut |c, s| {
        let x = if kind == 1 { a.at(&[], s) } else { a.at(c, s) };
        let y = if kind == 2 { b.at(&[], s) } else { b.at(c, s) };
        rbin(op, x, y)
    });
    let y = bin(op, own, at, bt);
    close_v(&y, &r.v, "binary: defining formula");
}

// operands unchanged, result shape
fn binary_shape(job: u32) {
    let op = job;
    let dev = Naive::new();
    junk(&dev, 6, 64);
    let d = dims(2, 2);
    let (ba, bb) = batches(2);
    let (sa, sb) = vx::pick(&[(false, false), (true, false), (false, true)]);
    let a = Ref::sym(if sa { &[] } else { &d }, ba);
    let b = Ref::sym(if sb { &[] } else { &d }, bb);
    for e in a.v.iter().chain(&b.v) {
        vx::assume(*e > 0.);
    }
    let (at, bt) = (a.tensor(&dev), b.tensor(&dev));
    let y = match op {
        0 => &at + &bt,
        1 => &at - &bt,
        2 => &at * &bt,
        3 => &at / &bt,
        _ => at.pow(&bt),
    };
    shape_is(y.shape(), &d, ba.max(bb), "binary: shape");
    drop(y);
    same(&at, &a.v, "binary: left operand unchanged");
    same(&bt, &b.v, "binary: right operand unchanged");
}

// in-place: y += x, y -= x (a single-sample y receives the sum over the samples of x), y *= k
fn assign(job: u32) {
    let dev = Naive::new();
    junk(&dev, 6, 64);
    let d = dims(2, 2);
    let (by, bx) = batches(3);
    let y = Ref::sym(&d, by);
    let x = Ref::sym(&d, bx);
    let k = vx::f32_finite();
    let mut yt = y.tensor(&dev);
    let xt = x.tensor(&dev);
    match job {
        0 => yt += &xt,
        1 => yt -= &xt,
        2 => yt += x.tensor(&dev),
        3 => yt -= x.tensor(&dev),
        _ => yt *= k,
    }
    let r = Ref::build(&d, by, &mut |c, s| {
        let e = y.at(c, s);
        if job == 4 {
            return e * k;
        }
        let mut z = 0.;
        if by == 1 {
            for q in 0..bx {
                z += x.at(c, q);
            }
        } else {
            z = x.at(c, s);
        }
        if job % 2 == 0 {
            e + z
        } else {
            e - z
        }
    });
    r.expect(&yt, "assign: defining formula");
    same(&xt, &x.v, "assign: operand unchanged");
}

fn large(job: u32) {
    if job < UN.len() as u32 {
        set_big(if job >= 10 && job < 15 { 2 + vx::choose(2) } else { 1 });
        return unary(job);
    }
    let job = job - UN.len() as u32;
    match job {
        0..=14 => {
            set_big(1);
            binary(job)
        }
        15..=19 => {
            set_big(3);
            binary_shape(job - 15)
        }
        20..=24 => {
            set_big(1);
            assign(job - 20)
        }
        _ => {
            set_big(2);
            powi(job - 25 + 2)
        }
    }
}

// thousands of elements
fn huges(job: u32) {
    set_huge();
    if job < UN.len() as u32 {
        set_big(2 + vx::choose(2));
        return unary(job);
    }
    large(job)
}

harnesses! { "c02";
    "unary": UN.len() as u32 => unary;
    "powi": 12 => powi;
    "binary": 15 => binary;
    "binary_shape": 5 => binary_shape;
    "assign": 5 => assign;
    "large": UN.len() as u32 + 28 => large;
    "huge": UN.len() as u32 + 28 => huges;
}
