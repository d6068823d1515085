//! C09: invalid requests are refused before anything is modified; valid ones stay inside their storage
//! (every load and store of every path is bounds- and initialisation-checked by the engine).
use crate::ops;
use crate::util::*;
use crate::vx;

struct Watch<'d> {
    t: Vec<*const Tensor<'d>>,
    v: Vec<Vec<f32>>,
    /// storage that may not exist
    n: usize,
}
impl<'d> Watch<'d> {
    fn new() -> Self {
        Watch { t: vec![], v: vec![], n: 0 }
    }
    fn add(&mut self, t: &Tensor<'d>, v: &[f32]) {
        self.t.push(t as *const Tensor<'d>);
        self.v.push(v.to_vec());
        self.n += 1;
    }
    fn arm(&self) {
        vx::on_refusal(refused, self);
    }
}
extern "C" fn refused(p: *const ()) {
    let w = unsafe { &*(p as *const Watch) };
    for i in 0..w.n {
        let t = unsafe { &*w.t[i] };
        if t.valid() {
            let v = t.to_vec();
            for j in 0..v.len() {
                vx::bits(v[j], w.v[i][j], "refused request: no tensor is modified");
            }
        }
    }
}
const ACC: &str = "an invalid request is accepted";

fn dim(d: &[u32], k: u32) -> u32 {
    if (k as usize) < d.len() {
        d[k as usize]
    } else {
        1
    }
}
fn same_dims(a: &[u32], b: &[u32]) -> bool {
    (0..8).all(|i| dim(a, i) == dim(b, i))
}
fn compat(a: u32, b: u32) -> bool {
    a == b || a == 1 || b == 1
}
fn any_shape() -> (Vec<u32>, u32) {
    if tall() {
        let v: &[&[u32]] = &[&[2], &[1, 1, 1, 1, 1, 2], &[2, 1, 1, 1, 1, 1, 2], &[1, 1, 1, 1, 1, 1, 1, 2], &[1, 1, 1, 1, 1, 1, 2, 2]];
        return (vx::pick(&v[..if axis(0) == 5 { 5 } else { 4 }]).to_vec(), vx::pick(if axis(0) == 5 { &[1, 2, 4][..] } else { &[1, 2] }));
    }
    let v: &[&[u32]] = if vx::thorough() {
        &[&[], &[2], &[3], &[1, 2], &[2, 2], &[2, 3], &[3, 2], &[2, 1, 2], &[2, 2, 2], &[1, 1, 1, 2]]
    } else {
        &[&[], &[2], &[3], &[1, 2], &[2, 2], &[2, 3], &[2, 1, 2]]
    };
    (vx::pick(v).to_vec(), batch(3))
}

fn axes() -> u32 {
    if tall() {
        vx::pick(&[4u32, 5, 7, 8])
    } else {
        vx::pick(&[0u32, 1, 2, 3, 7, 8, 9, 100, u32::MAX])
    }
}
// one operand, arbitrary arguments
fn unary(job: u32) {
    let dev = Naive::new();
    let (d, b) = any_shape();
    let x = Ref::any(&d, b);
    let t = x.tensor(&dev);
    let mut w = Watch::new();
    w.add(&t, &x.v);
    w.arm();
    let big = u32::MAX;
    let valid;
    match job {
        0 => {
            let k = axes();
            let (lo, up) = (vx::u32_in(0, big), vx::u32_in(0, big));
            valid = k < 8 && lo < up && up <= dim(&d, k);
            vx::expect_panic(!valid);
            t.slice(k, lo, up);
        }
        1 => {
            let k = axes();
            let n = vx::choose(4);
            let ids: Vec<u32> = (0..n).map(|_| vx::u32_in(0, big)).collect();
            let mut ok = k < 8 && n > 0 && compat(n, b);
            for i in &ids {
                ok = ok & (*i < dim(&d, k));
            }
            valid = ok;
            vx::expect_panic(!valid);
            t.pick(&ids, k);
        }
        2 => {
            let (lo, up) = (vx::u32_in(0, big), vx::u32_in(0, big));
            valid = lo < up && up <= b;
            vx::expect_panic(!valid);
            t.batch_slice(lo, up);
        }
        3 => {
            let n = vx::choose(4);
            let ids: Vec<u32> = (0..n).map(|_| vx::u32_in(0, big)).collect();
            let mut ok = n > 0;
            for i in &ids {
                ok = ok & (*i < b);
            }
            valid = ok;
            vx::expect_panic(!valid);
            t.batch_pick(&ids);
        }
        4 => {
            let k = axes();
            let n = vx::pick(&[0u32, 1, 2, 3, 4, big]);
            valid = n > 0 && dim(&d, k) % n.max(1) == 0 && k < 8;
            vx::expect_panic(!valid);
            t.split(k, n);
        }
        5 => {
            let n = vx::pick(&[0u32, 1, 2, 3, 4, big]);
            valid = n > 0 && b % n.max(1) == 0;
            vx::expect_panic(!valid);
            t.batch_split(n);
        }
        6 => {
            let k = axes();
            let n = vx::pick(&[0u32, 1, 2, 3, 0x4000_0000, big]);
            let small = (x.v.len() as u64 * n as u64) < 1 << 20;
            valid = n > 0 && dim(&d, k) == 1 && k < 8 && small;
            // a huge but representable request may also run out of memory
            vx::expect_panic(!valid);
            t.broadcast(k, n);
        }
        7 => {
            valid = (2..8).all(|i| dim(&d, i) == 1);
            vx::expect_panic(!valid);
            t.transpose();
        }
        8 | 9 => {
            valid = (2..8).all(|i| dim(&d, i) == 1) && dim(&d, 0) == dim(&d, 1);
            let k = vx::u32_in(0, big);
            vx::expect_panic(!valid);
            if job == 8 {
                t.triangular_l(k);
            } else {
                t.triangular_u(k);
            }
        }
        10 => {
            let (e, c) = any_shape();
            let m: u32 = e.iter().product();
            valid = m as usize * c as usize == x.v.len();
            vx::expect_panic(!valid);
            t.reshape(Shape::new(&e, c));
        }
        11 => {
            let k = axes();
            valid = k < 8;
            vx::expect_panic(!valid);
            match vx::choose(4) {
                0 => t.sum(k),
                1 => t.max(k),
                2 => t.min(k),
                _ => {
                    vx::assume(x.v.len() < 5);
                    x.v.iter().for_each(|e| vx::assume(*e == 1.));
                    t.logsumexp(k)
                }
            };
        }
        12 => {
            valid = x.v.len() == 1;
            vx::expect_panic(!valid);
            let f = t.to_float();
            vx::bits(f, x.v[0], "to_float: the element");
        }
        13 => {
            let k = axes();
            let n = vx::choose(4);
            let ids: Vec<u32> = (0..n).map(|_| vx::u32_in(0, big)).collect();
            let mut ok = k < 8 && n > 0 && compat(n, b);
            for i in &ids {
                ok = ok & (*i < dim(&d, k));
            }
            valid = ok;
            vx::assume(x.v.len() < 5);
            x.v.iter().for_each(|e| vx::assume(*e == 1.));
            vx::expect_panic(!valid);
            t.sparse_softmax_cross_entropy(&ids, k);
        }
        14 => {
            // arguments of the argument-free kind: valid for every shape and axis
            let k = axes();
            valid = true;
            x.v.iter().for_each(|e| vx::assume(e.to_bits() & 0x7fff_ffff <= 0x7f80_0000));
            vx::may_panic(k >= 8);
            vx::assume(x.v.len() < 7);
            match vx::choose(3) {
                0 => t.argmax(k),
                1 => t.argmin(k),
                _ => t.argsort(k),
            };
        }
        _ => {
            // a shape for the same storage
            let (e, c) = any_shape();
            let m: u32 = e.iter().product();
            let mut t2 = x.tensor(&dev);
            valid = m as usize * c as usize == x.v.len();
            vx::expect_panic(!valid);
            t2.update_shape(Shape::new(&e, c));
            same(&t2, &x.v, "update_shape: the same elements");
        }
    }
    vx::check(valid, ACC);
    same(&t, &x.v, "accepted request: operand unchanged");
}

// two operands of arbitrary shapes
fn binary(job: u32) {
    let dev = Naive::new();
    let dev2 = Naive::new();
    let (da, ba) = any_shape();
    let (db, bb) = any_shape();
    let other = job >= 8;
    let op = job % 8;
    let (a, b) = (Ref::any(&da, ba), Ref::any(&db, bb));
    let ta = a.tensor(&dev);
    let tb = b.tensor(if other { &dev2 } else { &dev });
    let mut w = Watch::new();
    w.add(&ta, &a.v);
    w.add(&tb, &b.v);
    w.arm();
    let scalar = |d: &[u32]| same_dims(d, &[]);
    let mut valid = compat(ba, bb) && (same_dims(&da, &db) || scalar(&da) || scalar(&db));
    let k = if tall() { vx::pick(&[5u32, 6, 7]) } else { vx::pick(&[0u32, 1, 2, 7]) };
    if op == 5 {
        valid = compat(ba, bb) && (2..8).all(|i| dim(&da, i) == 1 && dim(&db, i) == 1) && dim(&da, 1) == dim(&db, 0);
    } else if op == 6 {
        valid = compat(ba, bb) && (0..8).all(|i| i == k || dim(&da, i) == dim(&db, i));
    } else if op == 7 {
        valid = same_dims(&da, &db);
    }
    if op != 6 {
        vx::assume(k == if tall() { 5 } else { 0 });
    }
    valid = valid && !other;
    vx::expect_panic(!valid);
    match op {
        0 => &ta + &tb,
        1 => &ta - &tb,
        2 => &ta * &tb,
        3 => &ta / &tb,
        4 => ta.pow(&tb),
        5 => ta.matmul(&tb),
        6 => Tensor::concat(&[&ta, &tb], k),
        _ => Tensor::batch_concat(&[&ta, &tb]),
    };
    vx::check(valid, ACC);
    same(&ta, &a.v, "accepted request: operand unchanged");
    same(&tb, &b.v, "accepted request: operand unchanged");
}

// in-place updates
fn assign(job: u32) {
    let dev = Naive::new();
    let dev2 = Naive::new();
    let (da, ba) = any_shape();
    let (db, bb) = any_shape();
    let (a, b) = (Ref::sym(&da, ba), Ref::sym(&db, bb));
    let mut ta = a.tensor(&dev);
    let other = job >= 2;
    let tb = b.tensor(if other { &dev2 } else { &dev });
    let mut w = Watch::new();
    w.add(&ta, &a.v);
    w.add(&tb, &b.v);
    w.arm();
    let valid = !other && same_dims(&da, &db) && compat(ba, bb);
    vx::expect_panic(!valid);
    if job % 2 == 0 {
        ta += &tb;
    } else {
        ta -= &tb;
    }
    vx::check(valid, ACC);
    same(&tb, &b.v, "accepted request: operand unchanged");
}

// every operation on a tensor without storage
fn unallocated(job: u32) {
    let dev = Naive::new();
    let c = ops::setup(job, false);
    let none = dev.new_tensor(c.a.shape());
    vx::check(!none.valid(), "a new tensor has no storage");
    if let Some(b) = &c.b {
        let tb = b.tensor(&dev);
        let mut w = Watch::new();
        w.add(&tb, &b.v);
        w.arm();
        let ta = c.a.tensor(&dev);
        w.add(&ta, &c.a.v);
        let nb = dev.new_tensor(b.shape());
        let which = vx::choose(3);
        w.arm();
        vx::expect_panic(true);
        match which {
            0 => ops::tensor_op(&c.p, &none, Some(&tb)),
            1 => ops::tensor_op(&c.p, &ta, Some(&nb)),
            _ => ops::tensor_op(&c.p, &none, Some(&nb)),
        };
    } else {
        vx::expect_panic(true);
        ops::tensor_op(&c.p, &none, None);
    }
    vx::check(false, "an operation on a tensor without storage is accepted");
}
// requests that read or write a tensor without storage, or of the wrong size
fn storage(job: u32) {
    let dev = Naive::new();
    let (d, b) = any_shape();
    let x = Ref::any(&d, b);
    let s = x.shape();
    let t = x.tensor(&dev);
    let mut none = dev.new_tensor(s);
    let mut w = Watch::new();
    w.add(&t, &x.v);
    w.arm();
    let mut valid = false;
    match job {
        0 => {
            vx::expect_panic(true);
            none.reset(1.);
        }
        1 => {
            vx::expect_panic(true);
            dev.reset_tensor_by_slice(&mut none, &x.v);
        }
        2 => {
            vx::expect_panic(true);
            dev.reset_tensor_by_tensor(&mut none, &t);
        }
        3 => {
            let mut u = x.tensor(&dev);
            w.add(&u, &x.v);
            w.arm();
            vx::expect_panic(true);
            dev.reset_tensor_by_tensor(&mut u, &none);
        }
        4 => {
            vx::expect_panic(true);
            none.to_vec();
        }
        5 => {
            vx::expect_panic(true);
            none += &t;
        }
        6 => {
            let mut u = x.tensor(&dev);
            w.add(&u, &x.v);
            w.arm();
            vx::expect_panic(true);
            u += &none;
        }
        7 => {
            vx::expect_panic(true);
            none *= 2.;
        }
        8 => {
            // the wrong number of values
            let n = vx::choose(9);
            let v = vx::floats(n as usize);
            let mut u = x.tensor(&dev);
            w.add(&u, &x.v);
            w.arm();
            valid = n as usize == x.v.len();
            vx::expect_panic(!valid);
            dev.reset_tensor_by_slice(&mut u, &v);
            same(&u, &v, "reset_by_slice: the elements of the slice");
        }
        9 => {
            let n = vx::choose(9);
            let v = vx::floats(n as usize);
            valid = n as usize == x.v.len();
            vx::expect_panic(!valid);
            let u = dev.new_tensor_by_slice(s, &v);
            same(&u, &v, "new_tensor_by_slice: the elements of the slice");
        }
        10 => {
            let (e, c) = any_shape();
            let mut u = Ref::any(&e, c);
            let ut0 = u.v.clone();
            let mut ut = u.tensor(&dev);
            w.add(&ut, &ut0);
            w.arm();
            valid = u.v.len() == x.v.len();
            vx::expect_panic(!valid);
            dev.reset_tensor_by_tensor(&mut ut, &t);
            u.v = x.v.clone();
            same(&ut, &u.v, "reset_by_tensor: the elements of the source");
        }
        11 => {
            let n = vx::choose(9);
            let v = vx::floats(n as usize);
            let mut u = Tensor::new_host_tensor(s, v.clone());
            valid = n as usize == x.v.len();
            vx::expect_panic(!valid);
            u.move_to_device(&dev);
            same(&u, &v, "move_to_device: the elements");
        }
        12 => {
            // storage only once
            vx::expect_panic(true);
            let mut u = x.tensor(&dev);
            u.alloc();
        }
        13 => {
            // a reference or a replacement needs the same shape and no storage of its own
            let (e, c) = any_shape();
            let o = Ref::any(&e, c);
            let ot = o.tensor(&dev);
            let mut u = dev.new_tensor(s);
            let has = vx::choose(2) == 1;
            if has {
                u.alloc();
            }
            valid = !has && same_dims(&d, &e) && b == c;
            vx::expect_panic(!valid);
            u.refer(&ot);
            same(&u, &o.v, "refer: the elements of the other tensor");
        }
        14 => {
            let (e, c) = any_shape();
            let o = Ref::any(&e, c);
            let ot = o.tensor(&dev);
            let mut u = dev.new_tensor(s);
            let has = vx::choose(2) == 1;
            if has {
                u.alloc();
            }
            valid = !has && same_dims(&d, &e) && b == c;
            vx::expect_panic(!valid);
            u.replace(ot);
            same(&u, &o.v, "replace: the elements of the other tensor");
        }
        15 => {
            // parameters have one sample
            let (e, c) = any_shape();
            let g = Ref::any(&e, c).tensor(&dev);
            valid = b == 1 && c == 1;
            vx::expect_panic(!valid);
            let p = Parameter::new(t.reshape(s), g);
            same(&p.value, &x.v, "Parameter: its value");
        }
        _ => {
            let which = vx::choose(3);
            vx::expect_panic(true);
            match which {
                0 => {
                    none.argmax(0);
                }
                1 => {
                    none.argmin(0);
                }
                _ => {
                    none.argsort(0);
                }
            }
        }
    }
    vx::check(valid, ACC);
    same(&t, &x.v, "accepted request: other tensors unchanged");
}

// backward functions with operands of arbitrary shapes
fn backward(job: u32) {
    let dev = Naive::new();
    let dev2 = Naive::new();
    let shapes: &[(&[u32], u32)] = if vx::thorough() || job > 15 { &[(&[], 1), (&[2], 1), (&[2], 2), (&[1, 2], 1), (&[2, 2], 1), (&[2, 2], 2), (&[2, 3], 1), (&[2, 2, 2], 1)] } else { &[(&[2], 1), (&[2], 2), (&[2, 2], 1), (&[2, 3], 1)] };
    let sh = || {
        let (d, b) = vx::pick(shapes);
        (d.to_vec(), b)
    };
    let two = job >= 4 && job < 16;
    let (x, b) = (sh(), if two { sh() } else { (vec![], 1) });
    // the right shape of the result
    let yr = match job {
        0 | 1 => Some(x.clone()),
        2 => Some((redim(&x.0, 0, 1), x.1)),
        3 => if dim(&x.0, 2) == 1 { Some((vec![dim(&x.0, 1), dim(&x.0, 0)], x.1)) } else { None },
        4..=13 => if same_dims(&x.0, &b.0) && compat(x.1, b.1) { Some((x.0.clone(), x.1.max(b.1))) } else { None },
        14 | 15 => if compat(x.1, b.1) && dim(&x.0, 1) == dim(&b.0, 0) && dim(&x.0, 2) == 1 && dim(&b.0, 2) == 1 { Some((vec![dim(&x.0, 0), dim(&b.0, 1)], x.1.max(b.1))) } else { None },
        _ => if dim(&x.0, 2) == 1 && dim(&x.0, 0) == dim(&x.0, 1) { Some(x.clone()) } else { None },
    };
    let eq = |p: &(Vec<u32>, u32), q: &(Vec<u32>, u32)| same_dims(&p.0, &q.0) && p.1 == q.1;
    // one of y, gy, gx has an arbitrary shape, the others the right one
    let target = if two && job % 2 == 1 { b.clone() } else { x.clone() };
    let bad = vx::choose(12);
    let ys = if bad == 0 || yr.is_none() { sh() } else { yr.clone().unwrap() };
    let gys = if bad == 1 { sh() } else { ys.clone() };
    let gxs = if bad == 2 { sh() } else { target.clone() };
    let valid = yr.as_ref().map_or(false, |r| eq(r, &ys)) && eq(&ys, &gys) && eq(&gxs, &target) && bad < 3;
    let mk = |s: &(Vec<u32>, u32)| Ref::sym(&s.0, s.1);
    let (xr, br, yv, gyv, gxv) = (mk(&x), mk(&b), mk(&ys), mk(&gys), mk(&gxs));
    let at = |r: &Ref, i: u32| if bad == i { r.tensor(&dev2) } else if bad == i + 1 { dev.new_tensor(r.shape()) } else { r.tensor(&dev) };
    if bad >= 10 && !two {
        return;
    }
    let (xt, yt, bt) = (at(&xr, 6), at(&yv, 8), at(&br, 10));
    // from another device, or without storage
    let gyt = if bad == 3 { gyv.tensor(&dev2) } else if bad == 4 { dev.new_tensor(gyv.shape()) } else { gyv.tensor(&dev) };
    let mut gx = if bad == 5 && vx::choose(2) == 0 { gxv.tensor(&dev2) } else if bad == 5 { dev.new_tensor(gxv.shape()) } else { gxv.tensor(&dev) };
    let mut w = Watch::new();
    w.add(&xt, &xr.v);
    w.add(&bt, &br.v);
    w.add(&yt, &yv.v);
    w.add(&gyt, &gyv.v);
    w.add(&gx, &gxv.v);
    w.arm();
    if bad == 7 || bad == 9 || bad == 11 {
        // values some functions do not need
        vx::may_panic(true);
    } else {
        vx::expect_panic(!valid);
    }
    match job {
        0 => match vx::choose(10) {
            0 => dev.neg_bw(&xt, &yt, &gyt, &mut gx),
            1 => dev.exp_bw(&xt, &yt, &gyt, &mut gx),
            2 => dev.tanh_bw(&xt, &yt, &gyt, &mut gx),
            3 => dev.sqrt_bw(&xt, &yt, &gyt, &mut gx),
            4 => dev.ln_bw(&xt, &yt, &gyt, &mut gx),
            5 => dev.sin_bw(&xt, &yt, &gyt, &mut gx),
            6 => dev.cos_bw(&xt, &yt, &gyt, &mut gx),
            7 => dev.tan_bw(&xt, &yt, &gyt, &mut gx),
            8 => dev.abs_bw(&xt, &yt, &gyt, &mut gx),
            _ => dev.sigmoid_bw(&xt, &yt, &gyt, &mut gx),
        },
        1 => match vx::choose(11) {
            0 => dev.add_const_bw(&xt, &yt, &gyt, 2., &mut gx),
            1 => dev.mul_const_bw(&xt, &yt, &gyt, 2., &mut gx),
            2 => dev.div_const_l_bw(&xt, &yt, &gyt, 2., &mut gx),
            3 => dev.powi_bw(&xt, &yt, &gyt, 3, &mut gx),
            4 => dev.sub_const_l_bw(&xt, &yt, &gyt, 2., &mut gx),
            5 => dev.sub_const_r_bw(&xt, &yt, &gyt, 2., &mut gx),
            6 => dev.powf_const_l_bw(&xt, &yt, &gyt, 2., &mut gx),
            7 => dev.prelu_bw(&xt, &yt, &gyt, 2., &mut gx),
            8 => dev.elu_bw(&xt, &yt, &gyt, 2., &mut gx),
            9 => dev.div_const_r_bw(&xt, &yt, &gyt, 2., &mut gx),
            _ => dev.powf_const_r_bw(&xt, &yt, &gyt, 2., &mut gx),
        },
        2 => match vx::choose(2) {
            0 => dev.max_bw(&xt, &yt, &gyt, 0, &mut gx),
            _ => dev.min_bw(&xt, &yt, &gyt, 0, &mut gx),
        },
        3 => dev.transpose_bw(&xt, &yt, &gyt, &mut gx),
        4 => dev.add_bw_a(&xt, &bt, &yt, &gyt, &mut gx),
        5 => dev.add_bw_b(&xt, &bt, &yt, &gyt, &mut gx),
        6 => dev.sub_bw_a(&xt, &bt, &yt, &gyt, &mut gx),
        7 => dev.sub_bw_b(&xt, &bt, &yt, &gyt, &mut gx),
        8 => dev.mul_bw_a(&xt, &bt, &yt, &gyt, &mut gx),
        9 => dev.mul_bw_b(&xt, &bt, &yt, &gyt, &mut gx),
        10 => dev.div_bw_a(&xt, &bt, &yt, &gyt, &mut gx),
        11 => dev.div_bw_b(&xt, &bt, &yt, &gyt, &mut gx),
        12 => dev.powf_bw_a(&xt, &bt, &yt, &gyt, &mut gx),
        13 => dev.powf_bw_b(&xt, &bt, &yt, &gyt, &mut gx),
        14 => dev.matmul_bw_a(&xt, &bt, &yt, &gyt, &mut gx),
        15 => dev.matmul_bw_b(&xt, &bt, &yt, &gyt, &mut gx),
        16 => dev.triangular_l_bw(&xt, &yt, &gyt, vx::u32_in(0, 4), &mut gx),
        _ => dev.triangular_u_bw(&xt, &yt, &gyt, vx::u32_in(0, 4), &mut gx),
    }
    if bad == 7 || bad == 9 || bad == 11 {
        return;
    }
    vx::check(valid, ACC);
    if bad < 3 {
        same(&gyt, &gyv.v, "accepted request: operand unchanged");
    }
    same(&xt, &xr.v, "accepted request: operand unchanged");
}

// backward functions of the data movement
fn moved(job: u32) {
    let dev = Naive::new();
    let (dg, bg) = any_shape();
    let (dx, bx) = any_shape();
    let (g, x) = (Ref::sym(&dg, bg), Ref::sym(&dx, bx));
    // from another device, or without storage
    let dev2 = Naive::new();
    let bad = vx::choose(5);
    let gt = if bad == 1 { g.tensor(&dev2) } else if bad == 2 { dev.new_tensor(g.shape()) } else { g.tensor(&dev) };
    let mut xt = if bad == 3 { x.tensor(&dev2) } else if bad == 4 { dev.new_tensor(x.shape()) } else { x.tensor(&dev) };
    let mut w = Watch::new();
    w.add(&gt, &g.v);
    w.add(&xt, &x.v);
    w.arm();
    let big = u32::MAX;
    let k = if job < 2 { vx::pick(if tall() { &[0u32, 5, 6, 7] } else { &[0u32, 1, 2, 8] }) } else { 0 };
    let loo = (0..8).all(|i| i == k || dim(&dg, i) == dim(&dx, i));
    if bad > 0 && dx.len() > 1 || bad > 0 && !(loo && (bg == bx || job > 1)) {
        return;
    }
    let valid;
    match job {
        0 => {
            let lo = vx::u32_in(0, big);
            valid = k < 8 && loo && bg == bx && lo as u64 + dim(&dg, k) as u64 <= dim(&dx, k) as u64;
            vx::expect_panic(!valid || bad > 0);
            dev.slice_bw(&gt, k, lo, &mut xt);
        }
        1 => {
            let n = vx::choose(4);
            let ids: Vec<u32> = (0..n).map(|_| vx::u32_in(0, big)).collect();
            let mut ok = k < 8 && n > 0 && compat(n, bx) && loo && dim(&dg, k) == 1 && bg == bx.max(n);
            for i in &ids {
                ok = ok & (*i < dim(&dx, k));
            }
            valid = ok;
            vx::expect_panic(!valid || bad > 0);
            dev.pick_bw(&gt, &ids, k, &mut xt);
        }
        2 => {
            let lo = vx::u32_in(0, big);
            valid = same_dims(&dg, &dx) && lo as u64 + bg as u64 <= bx as u64;
            vx::expect_panic(!valid || bad > 0);
            dev.batch_slice_bw(&gt, lo, &mut xt);
        }
        _ => {
            let n = vx::choose(4);
            let ids: Vec<u32> = (0..n).map(|_| vx::u32_in(0, big)).collect();
            let mut ok = n > 0 && bg == n && same_dims(&dg, &dx);
            for i in &ids {
                ok = ok & (*i < bx);
            }
            valid = ok;
            vx::expect_panic(!valid || bad > 0);
            dev.batch_pick_bw(&gt, &ids, &mut xt);
        }
    }
    vx::check(valid && bad == 0, ACC);
    same(&gt, &g.v, "accepted request: operand unchanged");
}

// operations over many operands
fn many(job: u32) {
    let dev = Naive::new();
    let shapes: &[(&[u32], u32)] = &[(&[2], 1), (&[2], 2), (&[2], 3), (&[1, 2], 1), (&[2, 2], 2), (&[3], 1)];
    let n = vx::choose(4);
    let xs: Vec<Ref> = (0..n)
        .map(|_| {
            let (d, b) = vx::pick(shapes);
            Ref::any(d, b)
        })
        .collect();
    let ts: Vec<Tensor> = xs.iter().map(|x| x.tensor(&dev)).collect();
    let mut w = Watch::new();
    for (t, x) in ts.iter().zip(&xs) {
        w.add(t, &x.v);
    }
    w.arm();
    let k = if job == 0 { vx::pick(&[0u32, 1, 7, 8]) } else { 0 };
    let mut valid = n > 0 && k < 8;
    let mut bb = 1;
    for x in &xs {
        for i in 0..8 {
            valid = valid && ((job == 0 && i == k) || dim(&x.d, i) == dim(&xs[0].d, i));
        }
        if job == 0 {
            valid = valid && compat(bb, x.b);
            bb = bb.max(x.b);
        }
    }
    vx::expect_panic(!valid);
    let r: Vec<&Tensor> = ts.iter().collect();
    let y = if job == 0 { Tensor::concat(&r, k) } else { Tensor::batch_concat(&r) };
    vx::check(valid, ACC);
    let total: usize = if job == 0 { xs.iter().map(|x| x.v.len() / x.b as usize * bb as usize).sum() } else { xs.iter().map(|x| x.v.len()).sum() };
    vx::check(y.to_vec().len() == total, "concat: size");
}

// graphs refuse before or while evaluating, without touching their operands
fn graph(job: u32) {
    let dev = Naive::new();
    let dev2 = Naive::new();
    let (da, ba) = any_shape();
    let (a, p) = (Ref::any(&da, ba), Ref::any(&[2], 1));
    let ta = a.tensor(&dev);
    let tb = p.tensor(if job == 2 { &dev2 } else { &dev });
    let mut w = Watch::new();
    w.add(&ta, &a.v);
    w.add(&tb, &p.v);
    w.arm();
    let (na, nb) = (Node::from(&ta), Node::from(&tb));
    match job {
        0 => {
            let valid = same_dims(&da, &[2]) || same_dims(&da, &[]);
            vx::expect_panic(!valid);
            let y = &na + &nb;
            let v = y.to_vec();
            vx::check(valid && v.len() == 2 * ba as usize, ACC);
        }
        1 => {
            let (e, c) = any_shape();
            let m: u32 = e.iter().product();
            let valid = m as usize * c as usize == a.v.len();
            vx::expect_panic(!valid);
            let v = na.reshape(Shape::new(&e, c)).to_vec();
            vx::check(valid && v.len() == a.v.len(), ACC);
        }
        2 => {
            vx::expect_panic(true);
            (&na + &nb).to_vec();
            vx::check(false, ACC);
        }
        3 | 4 => {
            let valid = dim(&da, 2) == 1 && dim(&da, 0) == dim(&da, 1);
            vx::expect_panic(!valid);
            let y = if job == 3 { na.triangular_l(1) } else { na.triangular_u(1) };
            let y = &y * 2.;
            y.backward();
            vx::check(valid, ACC);
        }
        _ => {
            let none = dev.new_tensor(a.shape());
            let nn = Node::from(&none);
            vx::expect_panic(true);
            (&nn * 2.).to_vec();
            vx::check(false, ACC);
        }
    }
}

// a host tensor whose number of values does not fit its shape is refused, and stays what it is
fn host(_: u32) {
    let dev = Naive::new();
    let n = vx::choose(6);
    let m = vx::choose(6);
    let mut t = Tensor::new_host_tensor(Shape::new(&[n / 2 + 1], 1 + n % 2), vx::floats(m as usize));
    if (n / 2 + 1) * (1 + n % 2) != m {
        extern "C" fn refused(t: *const ()) {
            vx::check(!unsafe { &*(t as *const Tensor) }.valid(), "host tensor: a refused tensor stays without storage");
        }
        vx::expect_panic(true);
        vx::on_refusal(refused, &t);
    }
    t.move_to_device(&dev);
    vx::check(t.valid(), "host tensor: moving gives storage");
}

// many dimensions, other numbers of samples
fn tall_shapes(job: u32) {
    set_tall(if job >= 6 && job < 13 { 5 } else { 6 });
    match job {
        0..=5 => unary([0, 1, 4, 6, 7, 10][job as usize]),
        6..=9 => binary([0, 3, 5, 6][job as usize - 6]),
        10 => binary(7),
        11 | 12 => assign(job - 11),
        _ => moved(job - 13),
    }
}

harnesses! { "c09";
    "tall": 17 => tall_shapes;
    "host": 1 => host;
    "unary": 16 => unary;
    "binary": 16 => binary;
    "assign": 4 => assign;
    "unallocated": ops::N => unallocated;
    "storage": 17 => storage;
    "backward": 18 => backward;
    "moved": 4 => moved;
    "many": 2 => many;
    "graph": 6 => graph;
}
