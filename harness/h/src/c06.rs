//! C06: backward passes. The oracle is the derivative (reverse mode, by the engine) of the forward
//! result the real code has just computed.
use crate::util::*;
use crate::vx;

type T<'a, 'd> = &'a Tensor<'d>;
struct Un {
    f: for<'a, 'd> fn(&'a Tensor<'d>, f32) -> Tensor<'d>,
    b: for<'a, 'd> fn(&'d Device<'d>, &'a Tensor<'d>, &'a Tensor<'d>, &'a Tensor<'d>, f32, &'a mut Tensor<'d>),
    dom: fn(f32, f32) -> bool,
}
fn all(_: f32, _: f32) -> bool {
    true
}
fn pos(x: f32, _: f32) -> bool {
    x > 0.
}
fn nz(x: f32, _: f32) -> bool {
    x != 0.
}
fn knz(_: f32, k: f32) -> bool {
    k != 0.
}
fn kpos(_: f32, k: f32) -> bool {
    k > 0.
}
macro_rules! un {
    ($f:expr, $b:ident, $d:expr) => {
        Un { f: $f, b: |dev, x, y, gy, _, gx| dev.$b(x, y, gy, gx), dom: $d }
    };
    ($f:expr, $b:ident k, $d:expr) => {
        Un { f: $f, b: |dev, x, y, gy, k, gx| dev.$b(x, y, gy, k, gx), dom: $d }
    };
}
const UN: &[Un] = &[
    un!(|x, _| -x, neg_bw, all),
    un!(|x, _| x.sqrt(), sqrt_bw, pos),
    un!(|x, _| x.abs(), abs_bw, nz),
    un!(|x, _| x.sin(), sin_bw, all),
    un!(|x, _| x.cos(), cos_bw, all),
    un!(|x, _| x.tan(), tan_bw, all),
    un!(|x, _| x.exp(), exp_bw, all),
    un!(|x, _| x.ln(), ln_bw, pos),
    un!(|x, _| x.tanh(), tanh_bw, all),
    un!(|x, _| x.sigmoid(), sigmoid_bw, all),
    un!(|x, k| x.prelu(k), prelu_bw k, nz),
    un!(|x, k| x.elu(k), elu_bw k, nz),
    un!(|x, k| x.powf(k), powf_const_r_bw k, pos),
    un!(|x, k| x.device().powf_const_l_fw(x, k), powf_const_l_bw k, kpos),
    un!(|x, k| x + k, add_const_bw k, all),
    un!(|x, k| x - k, sub_const_r_bw k, all),
    un!(|x, k| k - x, sub_const_l_bw k, all),
    un!(|x, k| x * k, mul_const_bw k, all),
    un!(|x, k| x / k, div_const_r_bw k, knz),
    un!(|x, k| k / x, div_const_l_bw k, nz),
];

/// gx must be g0 plus the vector-Jacobian product
fn judge(gx: &Tensor, g0: &Ref, v: &[f32], l: &str) {
    let w = gx.to_vec();
    vx::check(w.len() == v.len(), l);
    shape_is(gx.shape(), &g0.d, g0.b, l);
    for i in 0..w.len() {
        vx::feq(w[i], g0.v[i] + v[i], l);
    }
}
fn kept(ts: &[(T, &[f32])], l: &str) {
    for (t, v) in ts {
        same(t, v, l);
    }
}
const KEPT: &str = "backward: values and output gradient unchanged";

fn unary(job: u32) {
    let u = &UN[job as usize];
    let dev = Naive::new();
    junk(&dev, 4, 64);
    let d = if vx::thorough() { dims(3, 2) } else { vx::pick(&[&[][..], &[2], &[3], &[1, 2], &[2, 2]]).to_vec() };
    let b = batch(if vx::thorough() { 3 } else { 2 });
    let x = Ref::sym(&d, b);
    let k = vx::f32_finite();
    for e in &x.v {
        vx::assume((u.dom)(*e, k));
    }
    let xt = x.tensor(&dev);
    let y = (u.f)(&xt, k);
    let yv = y.to_vec();
    let gy = Ref::sym(&d, b);
    let g0 = Ref::sym(&d, b);
    let gyt = gy.tensor(&dev);
    let mut gx = g0.tensor(&dev);
    (u.b)(&dev, &xt, &y, &gyt, k, &mut gx);
    judge(&gx, &g0, &vx::vjp(&yv, &gy.v, &x.v), "unary backward: adds the vector-Jacobian product");
    kept(&[(&xt, &x.v), (&y, &yv), (&gyt, &gy.v)], KEPT);
}

// many elements: every element as if it were the only one
fn large_unary(job: u32) {
    let u = &UN[job as usize];
    let dev = Naive::new();
    set_big(2 + vx::choose(2));
    junk(&dev, 4, 256);
    let d = dims(0, 0);
    let b = batch(0);
    let x = Ref::sym(&d, b);
    let k = vx::f32_finite();
    for e in &x.v {
        vx::assume((u.dom)(*e, k));
    }
    let xt = x.tensor(&dev);
    let y = (u.f)(&xt, k);
    let yv = y.to_vec();
    let (gy, g0) = (Ref::sym(&d, b), Ref::sym(&d, b));
    let gyt = gy.tensor(&dev);
    let mut gx = g0.tensor(&dev);
    (u.b)(&dev, &xt, &y, &gyt, k, &mut gx);
    let w = gx.to_vec();
    // a few elements at a time: one by one, and in short runs when there are thousands
    let m = if w.len() > 1000 { 61 } else { 1 };
    let part = |v: &[f32]| dev.new_tensor_by_slice(Shape::new(&[v.len() as u32], 1), v);
    let mut i = 0;
    while i < w.len() {
        let j = (i + m).min(w.len());
        let mut g = part(&g0.v[i..j]);
        (u.b)(&dev, &part(&x.v[i..j]), &part(&yv[i..j]), &part(&gy.v[i..j]), k, &mut g);
        let gv = g.to_vec();
        for t in i..j {
            vx::feq(w[t], gv[t - i], "unary backward: every element as if it were the only one");
        }
        i = j;
    }
    kept(&[(&xt, &x.v), (&y, &yv), (&gyt, &gy.v)], KEPT);
}

fn large(job: u32) {
    match job {
        0..=9 => {
            set_big(1);
            binary(job)
        }
        10..=19 => {
            set_big(4);
            extreme(job - 10)
        }
        20..=25 => {
            set_big(1);
            matmul(10 + job - 20)
        }
        26..=40 => {
            set_big(1);
            movement(job - 26)
        }
        _ => {
            set_big(1);
            perm_bw(job - 41)
        }
    }
}

fn powi(job: u32) {
    let ks: &[i32] = &[0, 1, 2, 3, -1, -2, 5, -3];
    let k = ks[job as usize];
    let dev = Naive::new();
    junk(&dev, 4, 64);
    let d = vx::pick(&[&[][..], &[2], &[2, 2]]).to_vec();
    let b = batch(2);
    let x = Ref::sym(&d, b);
    for e in &x.v {
        vx::assume(*e != 0.);
    }
    let xt = x.tensor(&dev);
    let y = xt.powi(k);
    let yv = y.to_vec();
    let (gy, g0) = (Ref::sym(&d, b), Ref::sym(&d, b));
    let gyt = gy.tensor(&dev);
    let mut gx = g0.tensor(&dev);
    dev.powi_bw(&xt, &y, &gyt, k, &mut gx);
    judge(&gx, &g0, &vx::vjp(&yv, &gy.v, &x.v), "powi backward: adds the vector-Jacobian product");
    kept(&[(&xt, &x.v), (&y, &yv), (&gyt, &gy.v)], KEPT);
}

fn binary(job: u32) {
    let op = job / 2;
    let left = job % 2 == 0;
    let dev = Naive::new();
    junk(&dev, 6, 64);
    let d = if big() != 0 {
        big_dims(&[(&[19], 1), (&[3, 7], 1), (&[9], 2), (&[2], 7)])
    } else if vx::thorough() {
        dims(3, 2)
    } else {
        vx::pick(&[&[][..], &[2], &[1, 2], &[2, 2]]).to_vec()
    };
    let (ba, bb) = batches(if vx::thorough() { 4 } else { 3 });
    let a = Ref::sym(&d, ba);
    let b = Ref::sym(&d, bb);
    if op == 3 {
        b.v.iter().for_each(|e| vx::assume(*e != 0.));
    }
    if op == 4 {
        a.v.iter().for_each(|e| vx::assume(*e > 0.));
    }
    let (at, bt) = (a.tensor(&dev), b.tensor(&dev));
    let y = match op {
        0 => dev.add_fw(&at, &bt),
        1 => dev.sub_fw(&at, &bt),
        2 => dev.mul_fw(&at, &bt),
        3 => dev.div_fw(&at, &bt),
        _ => dev.powf_fw(&at, &bt),
    };
    let yv = y.to_vec();
    let gy = Ref::sym(&d, ba.max(bb));
    let gyt = gy.tensor(&dev);
    let x = if left { &a } else { &b };
    let g0 = Ref::sym(&d, x.b);
    let mut g = g0.tensor(&dev);
    let (p, q, r, s) = (&at, &bt, &y, &gyt);
    match (op, left) {
        (0, true) => dev.add_bw_a(p, q, r, s, &mut g),
        (0, false) => dev.add_bw_b(p, q, r, s, &mut g),
        (1, true) => dev.sub_bw_a(p, q, r, s, &mut g),
        (1, false) => dev.sub_bw_b(p, q, r, s, &mut g),
        (2, true) => dev.mul_bw_a(p, q, r, s, &mut g),
        (2, false) => dev.mul_bw_b(p, q, r, s, &mut g),
        (3, true) => dev.div_bw_a(p, q, r, s, &mut g),
        (3, false) => dev.div_bw_b(p, q, r, s, &mut g),
        (_, true) => dev.powf_bw_a(p, q, r, s, &mut g),
        (_, false) => dev.powf_bw_b(p, q, r, s, &mut g),
    }
    judge(&g, &g0, &vx::vjp(&yv, &gy.v, &x.v), "binary backward: adds the vector-Jacobian product");
    kept(&[(&at, &a.v), (&bt, &b.v), (&y, &yv), (&gyt, &gy.v)], KEPT);
}

fn space() -> (Vec<u32>, u32) {
    if big() != 0 {
        let d = deep();
        return (d, batch(0));
    }
    if tall() {
        return tall_space();
    }
    let v: &[&[u32]] = if vx::thorough() {
        &[&[], &[2], &[3], &[1, 2], &[2, 2], &[2, 3], &[3, 2], &[1, 1, 2], &[2, 1, 3], &[2, 3, 2], &[2, 1, 2, 2]]
    } else {
        &[&[], &[2], &[3], &[1, 2], &[2, 2], &[3, 2], &[1, 1, 2], &[2, 2, 2]]
    };
    (vx::pick(v).to_vec(), batch(2))
}
fn extreme(job: u32) {
    let max = job % 2 == 0;
    let k = axis(job / 2) as usize;
    let dev = Naive::new();
    junk(&dev, 4, 64);
    let (d, b) = space();
    let x = Ref::sym(&d, b);
    // no ties within a line
    Ref::build(&redim(&d, k, 1), b, &mut |c, s| {
        for i in 0..x.dim(k) {
            for j in 0..i {
                vx::assume(x.at(&with(c, k, i), s) != x.at(&with(c, k, j), s));
            }
        }
        0.
    });
    let xt = x.tensor(&dev);
    let y = if max { xt.max(k as u32) } else { xt.min(k as u32) };
    let yv = y.to_vec();
    let yd = redim(&d, k, 1);
    let (gy, g0) = (Ref::sym(&yd, b), Ref::sym(&d, b));
    let gyt = gy.tensor(&dev);
    let mut gx = g0.tensor(&dev);
    if max {
        dev.max_bw(&xt, &y, &gyt, k as u32, &mut gx);
    } else {
        dev.min_bw(&xt, &y, &gyt, k as u32, &mut gx);
    }
    // the position holding the extreme value receives the gradient of its line
    let w = gx.to_vec();
    let mut i = 0;
    Ref::build(&d, b, &mut |c, s| {
        let z = with(c, k, 0);
        let e = x.at(c, s);
        let mut best = true;
        for j in 0..x.dim(k) {
            let o = x.at(&with(c, k, j), s);
            best = best & (if max { e >= o } else { e <= o });
        }
        let g = gy.at(&z, s);
        let want = if best { g0.v[i] + g } else { g0.v[i] };
        vx::feq(w[i], want, "max/min backward: the extreme position receives the gradient");
        i += 1;
        0.
    });
    kept(&[(&xt, &x.v), (&y, &yv), (&gyt, &gy.v)], KEPT);
}

// with ties the gradient goes to positions holding the extreme value, once in total
fn ties(job: u32) {
    let max = job == 0;
    let dev = Naive::new();
    let n = 2 + vx::choose(2);
    let x = Ref::sym(&[n], 1);
    let xt = x.tensor(&dev);
    let y = if max { xt.max(0) } else { xt.min(0) };
    let (gy, g0) = (Ref::sym(&[], 1), Ref::sym(&[n], 1));
    let gyt = gy.tensor(&dev);
    let mut gx = g0.tensor(&dev);
    if max {
        dev.max_bw(&xt, &y, &gyt, 0, &mut gx);
    } else {
        dev.min_bw(&xt, &y, &gyt, 0, &mut gx);
    }
    let (yv, w) = (y.to_vec()[0], gx.to_vec());
    let mut ok = true;
    let (mut got, mut had) = (0., 0.);
    for i in 0..n as usize {
        ok = ok & ((x.v[i] == yv) | (w[i].to_bits() == g0.v[i].to_bits()));
        got += w[i];
        had += g0.v[i];
    }
    vx::check(ok, "max/min backward: with ties only positions holding the extreme value receive the gradient");
    vx::feq(got, had + gy.v[0], "max/min backward: with ties the positions receive the gradient once in total");
}

fn matmul(job: u32) {
    let left = job % 2 == 0;
    let dev = Naive::new();
    junk(&dev, 6, 128);
    let (m, k, n) = match job / 2 {
        0 => (1 + vx::choose(3), 1 + vx::choose(2), 1 + vx::choose(3)),
        1 => (vx::pick(&[8, 9]), 2, 1),
        2 => (2, vx::pick(&[8, 9]), 1),
        3 => (1, 2, vx::pick(&[8, 9])),
        5 => (17, 3, 5),
        6 => (3, 17, 4),
        7 => (2, 3, 18),
        _ => (9, if vx::thorough() { 9 } else { 1 }, 9),
    };
    let (ba, bb) = if job / 2 > 4 { vx::pick(&[(1, 1), (1, 3), (3, 1), (2, 2)]) } else if job / 2 < 4 { batches(2) } else { vx::pick(&[(1, 2), (2, 1)]) };
    let a = Ref::sym(&[m, k], ba);
    let b = Ref::sym(&[k, n], bb);
    let (at, bt) = (a.tensor(&dev), b.tensor(&dev));
    let y = at.matmul(&bt);
    let yv = y.to_vec();
    let gy = Ref::sym(&[m, n], ba.max(bb));
    let gyt = gy.tensor(&dev);
    let x = if left { &a } else { &b };
    let g0 = Ref::sym(&x.d, x.b);
    let mut g = g0.tensor(&dev);
    if left {
        dev.matmul_bw_a(&at, &bt, &y, &gyt, &mut g);
    } else {
        dev.matmul_bw_b(&at, &bt, &y, &gyt, &mut g);
    }
    judge(&g, &g0, &vx::vjp(&yv, &gy.v, &x.v), "matmul backward: adds the vector-Jacobian product");
    kept(&[(&at, &a.v), (&bt, &b.v), (&y, &yv), (&gyt, &gy.v)], KEPT);
}

fn movement(job: u32) {
    let dev = Naive::new();
    junk(&dev, 4, 64);
    let tri = job == 1 || job == 2;
    let (d, b) = if tri {
        let n = if big() != 0 { vx::pick(&[9, 16, 19]) } else { 1 + vx::choose(4) };
        (vec![n, n], if big() != 0 { 2 } else { batch(2) })
    } else if job == 0 {
        if big() != 0 {
            (vx::pick(&[[17, 9], [8, 16], [33, 2]]).to_vec(), 2)
        } else {
            (vec![1 + vx::choose(3), 1 + vx::choose(3)], batch(2))
        }
    } else if job >= 3 && job < 13 {
        let (d, b) = space();
        (d, if tall() { b } else { batch(3) })
    } else if big() != 0 {
        (vx::pick(&[&[][..], &[2], &[5, 3]]).to_vec(), 23)
    } else {
        (vx::pick(&[&[][..], &[2], &[2, 2], &[1, 3]]).to_vec(), batch(3))
    };
    let x = Ref::sym(&d, b);
    let xt = x.tensor(&dev);
    let k = if job >= 3 { axis((job - 3) % 5) } else { 0 };
    let n = x.dim(k as usize);
    let off = if tri && big() != 0 { vx::pick(&[0, 1, 7, 8, 20]) } else if tri { vx::u32_in(0, u32::MAX) } else { 0 };
    let (lo, up) = if big() != 0 && (job >= 3 && job < 8 || job == 13) {
        let n = if job == 13 { b } else { n };
        vx::pick(&[(0, 1), (n / 3, n), (n - 1, n), (n / 2, n / 2 + (n + 3) / 4)])
    } else {
    let lo = if job >= 3 && job < 8 { vx::choose(n) } else { vx::choose(if job == 13 { b } else { 1 }) };
    let up = lo + 1 + if job >= 3 && job < 8 { vx::choose(n - lo) } else if job == 13 { vx::choose(b - lo) } else { 0 };
    (lo, up)
    };
    let ids: Vec<u32> = match job {
        8..=12 => {
            let m = if b > 1 { vx::pick(&[1, b]) } else { 1 + vx::choose(3) };
            let m = if big() != 0 && b == 1 { vx::pick(&[1, 17]) } else { m };
            (0..m).map(|i| if big() != 0 { (i * 31 + 5) % n } else { vx::u32_in(0, n - 1) }).collect()
        }
        14 if big() != 0 => (0..31).map(|i| (i * 7 + 3) % b).collect(),
        14 => (0..1 + vx::choose(3)).map(|_| vx::u32_in(0, b - 1)).collect(),
        _ => vec![],
    };
    let y = match job {
        0 => xt.transpose(),
        1 => xt.triangular_l(off),
        2 => xt.triangular_u(off),
        3..=7 => xt.slice(k, lo, up),
        8..=12 => xt.pick(&ids, k),
        13 => xt.batch_slice(lo, up),
        _ => xt.batch_pick(&ids),
    };
    let yv = y.to_vec();
    let gyv = vx::floats(yv.len());
    let gyt = dev.new_tensor_by_slice(y.shape(), &gyv);
    let g0 = Ref::sym(&d, b);
    let mut g = g0.tensor(&dev);
    match job {
        0 => dev.transpose_bw(&xt, &y, &gyt, &mut g),
        1 => dev.triangular_l_bw(&xt, &y, &gyt, off, &mut g),
        2 => dev.triangular_u_bw(&xt, &y, &gyt, off, &mut g),
        3..=7 => dev.slice_bw(&gyt, k, lo, &mut g),
        8..=12 => dev.pick_bw(&gyt, &ids, k, &mut g),
        13 => dev.batch_slice_bw(&gyt, lo, &mut g),
        _ => dev.batch_pick_bw(&gyt, &ids, &mut g),
    }
    judge(&g, &g0, &vx::vjp(&yv, &gyv, &x.v), "movement backward: adds the vector-Jacobian product");
    kept(&[(&xt, &x.v), (&y, &yv), (&gyt, &gyv)], KEPT);
}

fn perm_bw(job: u32) {
    let dev = Naive::new();
    junk(&dev, 3, 64);
    let b = if big() != 0 { 2 } else { batch(2) };
    if job < 5 {
        let k = axis(job);
        let (d, b) = if big() != 0 || tall() { space() } else { (space().0, b) };
        let x = Ref::sym(&d, b);
        let xt = x.tensor(&dev);
        let mut y = dev.new_tensor(xt.shape());
        y.alloc();
        dev.call_fw_impl("flip_fw_impl", &[&xt], &[k], &[], &mut [&mut y]);
        let yv = y.to_vec();
        let (gy, g0) = (Ref::sym(&d, b), Ref::sym(&d, b));
        let gyt = gy.tensor(&dev);
        let mut g = g0.tensor(&dev);
        dev.call_bw_impl("flip_bw_impl", &[&xt], &[&y], &[&gyt], &[k], &[], &mut g);
        judge(&g, &g0, &vx::vjp(&yv, &gy.v, &x.v), "flip backward: adds the vector-Jacobian product");
        kept(&[(&xt, &x.v), (&y, &yv), (&gyt, &gy.v)], KEPT);
    } else {
        let ps: &[&[u32]] = &[&[0], &[0, 1], &[1, 0], &[0, 1, 2], &[0, 2, 1], &[1, 0, 2], &[1, 2, 0], &[2, 0, 1], &[2, 1, 0]];
        let tp: &[&[u32]] = &[&[4, 3, 2, 1, 0], &[5, 0, 1, 2, 3, 4], &[6, 1, 4, 3, 2, 5, 0], &[7, 6, 5, 4, 3, 2, 1, 0], &[1, 2, 3, 4, 5, 6, 7, 0]];
        let p = vx::pick(if tall() { tp } else { ps }).to_vec();
        let n = p.len();
        let d: Vec<u32> = if tall() { vx::pick(&[[2u32, 1, 3, 1, 2, 1, 1, 2], [3, 1, 1, 2, 1, 2, 2, 1]])[..n].to_vec() } else { vx::pick(&[[2u32, 3, 2], [1, 2, 3], [3, 1, 2]])[..n].to_vec() };
        let d = if big() != 0 { [9u32, 4, 5][..n].to_vec() } else { d };
        let x = Ref::sym(&d, b);
        let xt = x.tensor(&dev);
        let yd: Vec<u32> = p.iter().map(|i| d[*i as usize]).collect();
        let mut y = dev.new_tensor(Shape::new(&yd, b));
        y.alloc();
        dev.call_fw_impl("permute_dims_fw_impl", &[&xt], &p, &[], &mut [&mut y]);
        let yv = y.to_vec();
        let (gy, g0) = (Ref::sym(&yd, b), Ref::sym(&d, b));
        let gyt = gy.tensor(&dev);
        let mut g = g0.tensor(&dev);
        dev.call_bw_impl("permute_dims_bw_impl", &[&xt], &[&y], &[&gyt], &p, &[], &mut g);
        judge(&g, &g0, &vx::vjp(&yv, &gy.v, &x.v), "permute backward: adds the vector-Jacobian product");
        kept(&[(&xt, &x.v), (&y, &yv), (&gyt, &gy.v)], KEPT);
    }
}

// thousands of elements, most of them concrete, against the formulas written out
fn huge_unary(job: u32) {
    set_huge();
    large_unary(job)
}
fn adds(g: &Tensor, g0: &Ref, w: &[f32], l: &str) {
    let v: Vec<f32> = g0.v.iter().zip(w).map(|(a, b)| a + b).collect();
    close(g, &v, l);
}
fn huges(job: u32) {
    set_huge();
    set_big(3);
    let dev = Naive::new();
    junk(&dev, 4, 256);
    match job {
        0..=9 => {
            let (op, left) = (job / 2, job % 2 == 0);
            let d = big_dims(&[]);
            let (ba, bb) = batches(0);
            let (a, b) = (Ref::sym(&d, ba), Ref::sym(&d, bb));
            for e in a.v.iter().chain(&b.v) {
                vx::assume(*e > 0.125 && *e < 4.);
            }
            let (at, bt) = (a.tensor(&dev), b.tensor(&dev));
            let y = match op {
                0 => dev.add_fw(&at, &bt),
                1 => dev.sub_fw(&at, &bt),
                2 => dev.mul_fw(&at, &bt),
                3 => dev.div_fw(&at, &bt),
                _ => dev.powf_fw(&at, &bt),
            };
            let gy = Ref::sym(&d, ba.max(bb));
            let gyt = gy.tensor(&dev);
            let x = if left { &a } else { &b };
            let g0 = Ref::sym(&d, x.b);
            let mut g = g0.tensor(&dev);
            let (p, q, r, s) = (&at, &bt, &y, &gyt);
            match (op, left) {
                (0, true) => dev.add_bw_a(p, q, r, s, &mut g),
                (0, false) => dev.add_bw_b(p, q, r, s, &mut g),
                (1, true) => dev.sub_bw_a(p, q, r, s, &mut g),
                (1, false) => dev.sub_bw_b(p, q, r, s, &mut g),
                (2, true) => dev.mul_bw_a(p, q, r, s, &mut g),
                (2, false) => dev.mul_bw_b(p, q, r, s, &mut g),
                (3, true) => dev.div_bw_a(p, q, r, s, &mut g),
                (3, false) => dev.div_bw_b(p, q, r, s, &mut g),
                (_, true) => dev.powf_bw_a(p, q, r, s, &mut g),
                (_, false) => dev.powf_bw_b(p, q, r, s, &mut g),
            }
            let mut w = vec![0f32; x.v.len()];
            for i in 0..gy.v.len() {
                let (a, b, k) = (a.v[i % a.v.len()], b.v[i % b.v.len()], gy.v[i]);
                let n = w.len();
                w[i % n] += match (op, left) {
                    (0, _) | (1, true) => k,
                    (1, false) => -k,
                    (2, true) => k * b,
                    (2, false) => k * a,
                    (3, true) => k / b,
                    (3, false) => -(k * a / (b * b)),
                    (_, true) => k * b * a.powf(b - 1.),
                    (_, false) => k * a.powf(b) * a.ln(),
                };
            }
            adds(&g, &g0, &w, "large binary backward: adds the vector-Jacobian product");
            kept(&[(&at, &a.v), (&bt, &b.v), (&gyt, &gy.v)], KEPT);
        }
        10..=13 => {
            let (max, k) = (job % 2 == 0, (job - 10) / 2);
            let d = big_dims(&[]);
            let b = batch(0);
            let n = d.iter().product::<u32>() * b;
            // all different
            let x = Ref::new(&d, b, &(0..n).map(|i| (i * 377 % 8209) as f32 / 8. - 500.).collect::<Vec<_>>());
            let xt = x.tensor(&dev);
            let y = if max { xt.max(k) } else { xt.min(k) };
            let yv = y.to_vec();
            let gy = Ref::sym(&redim(&d, k as usize, 1), b);
            let gyt = gy.tensor(&dev);
            let g0 = Ref::sym(&d, b);
            let mut g = g0.tensor(&dev);
            if max {
                dev.max_bw(&xt, &y, &gyt, k, &mut g);
            } else {
                dev.min_bw(&xt, &y, &gyt, k, &mut g);
            }
            let low: u32 = d[..(k as usize).min(d.len())].iter().product();
            let m = x.dim(k as usize);
            let w: Vec<f32> = (0..n)
                .map(|i| {
                    let l = (i / (low * m) * low + i % low) as usize;
                    if x.v[i as usize] == yv[l] { gy.v[l] } else { 0. }
                })
                .collect();
            adds(&g, &g0, &w, "large max/min backward: the extreme position receives the gradient");
            kept(&[(&xt, &x.v), (&y, &yv), (&gyt, &gy.v)], KEPT);
        }
        14 | 15 => {
            let (m, k, n) = vx::pick(&[(70, 33, 3), (1, 2050, 1), (3, 2, 300), (300, 2, 3)]);
            let (ba, bb) = vx::pick(&[(1, 1), (1, 2), (2, 1)]);
            let (a, b, gy) = (Ref::sym(&[m, k], ba), Ref::sym(&[k, n], bb), Ref::sym(&[m, n], ba.max(bb)));
            let (at, bt, gyt) = (a.tensor(&dev), b.tensor(&dev), gy.tensor(&dev));
            let y = at.matmul(&bt);
            let x = if job == 14 { &a } else { &b };
            let g0 = Ref::sym(&x.d, x.b);
            let mut g = g0.tensor(&dev);
            if job == 14 {
                dev.matmul_bw_a(&at, &bt, &y, &gyt, &mut g);
            } else {
                dev.matmul_bw_b(&at, &bt, &y, &gyt, &mut g);
            }
            let mut w = vec![0f32; x.v.len()];
            for s in 0..ba.max(bb) {
                let (sa, sb) = (if ba > 1 { s * m * k } else { 0 }, if bb > 1 { s * k * n } else { 0 });
                for j in 0..n {
                    for q in 0..k {
                        for i in 0..m {
                            let (pa, pb, py) = ((sa + q * m + i) as usize, (sb + j * k + q) as usize, (s * m * n + j * m + i) as usize);
                            if job == 14 {
                                w[pa] += gy.v[py] * b.v[pb];
                            } else {
                                w[pb] += gy.v[py] * a.v[pa];
                            }
                        }
                    }
                }
            }
            adds(&g, &g0, &w, "large matmul backward: adds the vector-Jacobian product");
            kept(&[(&at, &a.v), (&bt, &b.v), (&gyt, &gy.v)], KEPT);
        }
        _ => {
            // operations that move elements: moving the numbers of the elements tells where each goes
            let what = job - 16;
            let (d, b): (Vec<u32>, u32) = match what {
                0 => (vx::pick(&[[70, 33], [2, 1030], [1030, 2]]).to_vec(), vx::pick(&[1, 2])),
                1 | 2 => (vec![66, 66], 1),
                7 | 8 => (vec![5], 700),
                _ => (big_dims(&[]), batch(0)),
            };
            let n = d.iter().product::<u32>() * b;
            let x = Ref::new(&d, b, &(0..n).map(|i| (i + 1) as f32).collect::<Vec<_>>());
            let xt = x.tensor(&dev);
            let k = (what + 1) % 2;
            let m = x.dim(k as usize);
            let (lo, up) = vx::pick(&[(0, 1), (m / 3, m), (m - 1, m)]);
            let (lb, ub) = (37, 650);
            let off = if what == 1 || what == 2 { vx::pick(&[0, 1, 40]) } else { 0 };
            let ids: Vec<u32> = if what == 8 { (0..900).map(|i| i * 7 % b).collect() } else { (0..b).map(|i| i * 31 % m).collect() };
            let mut y = dev.new_tensor(xt.shape());
            let y = match what {
                0 => xt.transpose(),
                1 => xt.triangular_l(off),
                2 => xt.triangular_u(off),
                3 | 4 => xt.slice(k, lo, up),
                5 | 6 => xt.pick(&ids, k),
                7 => xt.batch_slice(lb, ub),
                8 => xt.batch_pick(&ids),
                _ => {
                    y.alloc();
                    dev.call_fw_impl("flip_fw_impl", &[&xt], &[k], &[], &mut [&mut y]);
                    y
                }
            };
            let from = y.to_vec();
            let gy = Ref { d: vec![], b: 1, v: Ref::sym(&[from.len() as u32], 1).v };
            let gyt = dev.new_tensor_by_slice(y.shape(), &gy.v);
            let g0 = Ref::sym(&d, b);
            let mut g = g0.tensor(&dev);
            match what {
                0 => dev.transpose_bw(&xt, &y, &gyt, &mut g),
                1 => dev.triangular_l_bw(&xt, &y, &gyt, off, &mut g),
                2 => dev.triangular_u_bw(&xt, &y, &gyt, off, &mut g),
                3 | 4 => dev.slice_bw(&gyt, k, lo, &mut g),
                5 | 6 => dev.pick_bw(&gyt, &ids, k, &mut g),
                7 => dev.batch_slice_bw(&gyt, lb, &mut g),
                8 => dev.batch_pick_bw(&gyt, &ids, &mut g),
                _ => dev.call_bw_impl("flip_bw_impl", &[&xt], &[&y], &[&gyt], &[k], &[], &mut g),
            }
            let mut w = vec![0f32; n as usize];
            for i in 0..from.len() {
                if from[i] != 0. {
                    w[from[i] as usize - 1] += gy.v[i];
                }
            }
            adds(&g, &g0, &w, "large movement backward: adds the vector-Jacobian product");
            kept(&[(&xt, &x.v), (&gyt, &gy.v)], KEPT);
        }
    }
}

// high axes
fn tall_axes(job: u32) {
    set_tall(4 + job % 4);
    match job / 4 {
        0 => extreme(0),
        1 => extreme(1),
        2 => movement(3),
        3 => movement(8),
        4 => perm_bw(0),
        _ => perm_bw(5),
    }
}

harnesses! { "c06";
    "unary": UN.len() as u32 => unary;
    "powi": 8 => powi;
    "binary": 10 => binary;
    "extreme": 10 => extreme;
    "ties": 2 => ties;
    "matmul": 10 => matmul;
    "movement": 15 => movement;
    "permute": 6 => perm_bw;
    "large_unary": UN.len() as u32 => large_unary;
    "large": 47 => large;
    "huge_unary": UN.len() as u32 => huge_unary;
    "huge": 27 => huges;
    "tall": 21 => tall_axes;
}
