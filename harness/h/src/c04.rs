//! C04: data movement.
use crate::util::*;
use crate::vx;

fn space() -> (Vec<u32>, u32) {
    if big() != 0 {
        let d = deep();
        return (d, batch(0));
    }
    if tall() {
        return tall_space();
    }
    let v: &[&[u32]] = if vx::thorough() {
        &[&[], &[1], &[2], &[3], &[4], &[1, 2], &[2, 2], &[2, 3], &[3, 2], &[4, 2], &[1, 1, 2], &[2, 1, 3], &[2, 3, 2], &[3, 2, 2], &[2, 2, 2, 2], &[1, 2, 1, 3]]
    } else {
        &[&[], &[2], &[3], &[1, 2], &[2, 2], &[2, 3], &[3, 2], &[1, 1, 2], &[2, 1, 3], &[2, 3, 2], &[2, 1, 2, 2]]
    };
    (vx::pick(v).to_vec(), batch(3))
}
fn dim_of(d: &[u32], k: usize) -> u32 {
    if k < d.len() {
        d[k]
    } else {
        1
    }
}
/// a dimension list along dimension k
fn redim_at(d: &[u32], k: usize, x: u32) -> Vec<u32> {
    redim(d, k, x)
}

/// bounds 0 <= lo < up <= n, by case split
fn bounds(n: u32) -> (u32, u32) {
    if big() != 0 {
        return vx::pick(&[(0, 1), (n / 3, n), (n - 1, n), (n / 2, n / 2 + (n + 3) / 4)]);
    }
    let lo = vx::choose(n);
    (lo, lo + 1 + vx::choose(n - lo))
}

fn slice(job: u32) {
    let k = axis(job) as usize;
    let dev = Naive::new();
    junk(&dev, 3, 64);
    let (d, b) = space();
    let n = dim_of(&d, k);
    let (lo, up) = bounds(n);
    let x = Ref::any(&d, b);
    let xt = x.tensor(&dev);
    let y = xt.slice(k as u32, lo, up);
    let r = Ref::build(&redim_at(&d, k, up - lo), b, &mut |c, s| {
        let p = if k < c.len() { c[k] } else { 0 };
        x.at(&with(c, k, p + lo), s)
    });
    r.expect_bits(&y, "slice: the positions between the bounds");
    same(&xt, &x.v, "slice: operand unchanged");
}

fn pick(job: u32) {
    let k = axis(job) as usize;
    let dev = Naive::new();
    junk(&dev, 3, 64);
    let (d, b) = space();
    let n = dim_of(&d, k);
    let m = if b > 1 { vx::pick(&[1, b]) } else { 1 + vx::choose(if vx::thorough() { 4 } else { 3 }) };
    let m = if big() != 0 && b == 1 { vx::pick(&[1, 17]) } else { m };
    let m = if huge() && b == 1 && n < 17 { 1 } else { m };
    let ids: Vec<u32> = (0..m).map(|i| if big() != 0 { (i * 31 + 5) % n } else { vx::u32_in(0, n - 1) }).collect();
    let x = Ref::any(&d, b);
    let xt = x.tensor(&dev);
    let y = xt.pick(&ids, k as u32);
    let r = Ref::build(&redim_at(&d, k, 1), b.max(m), &mut |c, s| x.at(&with(c, k, ids[if m > 1 { s as usize } else { 0 }]), s));
    r.expect_bits(&y, "pick: the chosen position in every sample");
    same(&xt, &x.v, "pick: operand unchanged");
}

fn concat(job: u32) {
    let k = axis(job % 5) as usize;
    let m = 1 + job / 5;
    let dev = Naive::new();
    junk(&dev, 3, 64);
    let base: Vec<u32> = if huge() { vx::pick(&[&[500][..], &[3, 100]]).to_vec() } else if big() != 0 { vx::pick(&[&[19][..], &[3, 5]]).to_vec() } else { if tall() { vx::pick(&[&[2][..], &[1, 1, 2, 1, 1, 1, 1, 2], &[1, 1, 1, 1, 2, 2]]).to_vec() } else { vx::pick(&[&[][..], &[2], &[3], &[2, 2], &[3, 2], &[2, 1, 2]]).to_vec() } };
    let mut xs = vec![];
    let bb = if big() != 0 { vx::pick(&[1, 5]) } else { 1 + vx::choose(if m > 2 { 2 } else { 3 }) };
    let mut total = 0;
    let mut bmax = 1;
    for i in 0..m {
        let wide = base.iter().enumerate().map(|(i, e)| if i == k { 1 } else { *e }).product::<u32>() > 10;
        let e = if huge() { [if wide { 3 } else { 500 }, 1, 2][i as usize] } else if big() != 0 { [3, 18, 9][i as usize] } else { 1 + vx::choose(if m > 2 { 2 } else { 3 }) };
        total += e;
        let b = if bb > 1 { vx::pick(&[1, bb]) } else { 1 };
        bmax = bmax.max(b);
        xs.push(Ref::any(&redim(&base, k, e), b));
    }
    let ts: Vec<Tensor> = xs.iter().map(|x| x.tensor(&dev)).collect();
    let y = Tensor::concat(&ts.iter().collect::<Vec<_>>(), k as u32);
    let r = Ref::build(&redim(&base, k, total), bmax, &mut |c, s| {
        let mut p = c[k];
        for x in &xs {
            if p < x.dim(k) {
                return x.at(&with(c, k, p), s);
            }
            p -= x.dim(k);
        }
        unreachable!()
    });
    r.expect_bits(&y, "concat: the operands one after another");
    for (t, x) in ts.iter().zip(&xs) {
        same(t, &x.v, "concat: operand unchanged");
    }
    // and back
    let mut at = 0;
    for x in &xs {
        let e = x.dim(k);
        let z = y.slice(k as u32, at, at + e);
        at += e;
        let w = Ref::build(&redim(&base, k, e), bmax, &mut |c, s| x.at(c, s));
        w.expect_bits(&z, "concat: slicing gives the operand back");
    }
}

fn split(job: u32) {
    let k = axis(job) as usize;
    let dev = Naive::new();
    junk(&dev, 3, 64);
    let (d, b) = space();
    let n = dim_of(&d, k);
    let m = if big() != 0 { vx::pick(&[1, 2, 3, 17, 37]) } else { 1 + vx::choose(n) };
    if n % m != 0 {
        return;
    }
    let x = Ref::any(&d, b);
    let xt = x.tensor(&dev);
    let ys = xt.split(k as u32, m);
    vx::check(ys.len() == m as usize, "split: number of parts");
    for (i, y) in ys.iter().enumerate() {
        let r = Ref::build(&redim(&d, k, n / m), b, &mut |c, s| {
            let p = if k < c.len() { c[k] } else { 0 };
            x.at(&with(c, k, p + i as u32 * (n / m)), s)
        });
        r.expect_bits(y, "split: consecutive equal parts");
    }
    let z = Tensor::concat(&ys.iter().collect::<Vec<_>>(), k as u32);
    x.expect_bits(&z, "split: concatenating gives the tensor back");
    same(&xt, &x.v, "split: operand unchanged");
}

fn shapes(job: u32) {
    let dev = Naive::new();
    junk(&dev, 3, 64);
    let (d, b) = space();
    let x = Ref::any(&d, b);
    let xt = x.tensor(&dev);
    let vol: u32 = d.iter().product();
    if job == 0 {
        let y = xt.flatten();
        Ref::new(&[vol], b, &x.v).expect_bits(&y, "flatten: the same elements");
        same(&xt, &x.v, "flatten: operand unchanged");
    } else {
        let mut t: Vec<Vec<u32>> = vec![vec![vol], vec![1, vol], vec![vol, 1, 1]];
        for a in 2..if huge() { 12 } else { vol } {
            if vol % a == 0 {
                t.push(vec![a, vol / a]);
                t.push(vec![1, a, vol / a]);
            }
        }
        let n = t[vx::choose(t.len() as u32) as usize].clone();
        let y = xt.reshape(Shape::new(&n, b));
        Ref::new(&n, b, &x.v).expect_bits(&y, "reshape: the same elements in the same order");
        same(&xt, &x.v, "reshape: operand unchanged");
        // the result is a tensor of its own
        let mut y = y;
        y.reset(3.);
        same(&xt, &x.v, "reshape: the operand does not follow the result");
    }
}

fn flip(job: u32) {
    let k = axis(job) as usize;
    let dev = Naive::new();
    junk(&dev, 3, 64);
    let (d, b) = space();
    let x = Ref::any(&d, b);
    let xt = x.tensor(&dev);
    let mut y = dev.new_tensor(xt.shape());
    y.alloc();
    dev.call_fw_impl("flip_fw_impl", &[&xt], &[k as u32], &[], &mut [&mut y]);
    let n = dim_of(&d, k);
    let r = Ref::build(&d, b, &mut |c, s| {
        let p = if k < c.len() { c[k] } else { 0 };
        x.at(&with(c, k, n - 1 - p), s)
    });
    r.expect_bits(&y, "flip: reversed along the dimension");
    same(&xt, &x.v, "flip: operand unchanged");
    let mut z = dev.new_tensor(xt.shape());
    z.alloc();
    dev.call_fw_impl("flip_fw_impl", &[&y], &[k as u32], &[], &mut [&mut z]);
    x.expect_bits(&z, "flip: twice is the identity");
}

fn perms(n: usize) -> Vec<Vec<u32>> {
    let mut r: Vec<Vec<u32>> = vec![vec![]];
    for i in 0..n {
        let mut t = vec![];
        for p in &r {
            for j in 0..=p.len() {
                let mut q = p.clone();
                q.insert(j, i as u32);
                t.push(q);
            }
        }
        r = t;
    }
    r
}

fn permute(job: u32) {
    let dev = Naive::new();
    junk(&dev, 3, 64);
    let n = job as usize + 1;
    let t: &[&[u32]] = if huge() { &[&[2, 3, 40, 5], &[12, 8, 3, 4]] } else if big() != 0 { &[&[2, 3, 4, 5], &[9, 8, 1, 3]] } else { match n {
        1 => &[&[1], &[3]],
        2 => &[&[2, 3], &[3, 2], &[1, 2]],
        3 => &[&[2, 3, 2], &[1, 2, 3], &[3, 1, 2], &[3, 2]],
        5.. => &[&[2, 1, 3, 1, 2, 1, 1, 2], &[1, 1, 2, 1, 3, 2, 2], &[3, 2]],
        _ => &[&[2, 1, 3, 2], &[2, 3], &[1, 2, 2, 3]],
    } };
    let mut d = vx::pick(t).to_vec();
    d.truncate(n);
    while d.len() < n {
        d.push(1);
    }
    let b = batch(if n > 3 { 2 } else { 3 });
    let ps = if n > 4 {
        // rotations, exchanges, reversal
        let n = n as u32;
        let mut v: Vec<Vec<u32>> = vec![(0..n).rev().collect(), (0..n).map(|i| (i + 1) % n).collect(), (0..n).map(|i| (i + 3) % n).collect()];
        v.push((0..n).map(|i| if i == 0 { n - 1 } else if i == n - 1 { 0 } else { i }).collect());
        v.push((0..n).map(|i| if i == 2 { n - 2 } else if i == n - 2 { 2 } else { i }).collect());
        v
    } else {
        perms(n)
    };
    let p = ps[vx::choose(ps.len() as u32) as usize].clone();
    let x = Ref::any(&d, b);
    let xt = x.tensor(&dev);
    let yd: Vec<u32> = p.iter().map(|i| d[*i as usize]).collect();
    let mut y = dev.new_tensor(Shape::new(&yd, b));
    y.alloc();
    dev.call_fw_impl("permute_dims_fw_impl", &[&xt], &p, &[], &mut [&mut y]);
    let r = Ref::build(&yd, b, &mut |c, s| {
        let mut e = vec![0; n];
        for i in 0..n {
            e[p[i] as usize] = c[i];
        }
        x.at(&e, s)
    });
    r.expect_bits(&y, "permute: element moves to the permuted coordinates");
    same(&xt, &x.v, "permute: operand unchanged");
    let mut q = vec![0u32; n];
    for i in 0..n {
        q[p[i] as usize] = i as u32;
    }
    let mut z = dev.new_tensor(xt.shape());
    z.alloc();
    dev.call_fw_impl("permute_dims_fw_impl", &[&y], &q, &[], &mut [&mut z]);
    x.expect_bits(&z, "permute: there and back");
}

fn batch_ops(job: u32) {
    let dev = Naive::new();
    junk(&dev, 3, 64);
    let d: Vec<u32> = vx::pick(&[&[][..], &[2], &[2, 2], &[1, 3], &[2, 1, 2]]).to_vec();
    let d = if big() != 0 { vx::pick(&[&[][..], &[5], &[3, 7]]).to_vec() } else { d };
    let nb = if vx::thorough() { 5 } else { 4 };
    match job {
        0 => {
            let b = if huge() { 400 } else if big() != 0 { 29 } else { batch(nb) };
            let (lo, up) = bounds(b);
            let x = Ref::any(&d, b);
            let xt = x.tensor(&dev);
            let y = xt.batch_slice(lo, up);
            Ref::build(&d, up - lo, &mut |c, s| x.at(c, s + lo)).expect_bits(&y, "batch_slice: the samples between the bounds");
            same(&xt, &x.v, "batch_slice: operand unchanged");
        }
        1 => {
            let b = if huge() { 400 } else if big() != 0 { vx::pick(&[1, 23]) } else { batch(3) };
            let m = if huge() { 300 } else if big() != 0 { 31 } else { 1 + vx::choose(if vx::thorough() { 4 } else { 3 }) };
            let ids: Vec<u32> = (0..m).map(|i| if big() != 0 { (i * 7 + 3) % b } else { vx::u32_in(0, b - 1) }).collect();
            let x = Ref::any(&d, b);
            let xt = x.tensor(&dev);
            let y = xt.batch_pick(&ids);
            Ref::build(&d, m, &mut |c, s| x.at(c, ids[s as usize])).expect_bits(&y, "batch_pick: the chosen samples in order");
            same(&xt, &x.v, "batch_pick: operand unchanged");
        }
        2 => {
            let b = if huge() { 480 } else if big() != 0 { 24 } else { batch(6) };
            let m = if big() != 0 { vx::pick(&[2, 3, 8, 24]) } else { 1 + vx::choose(b) };
            if b % m != 0 {
                return;
            }
            let x = Ref::any(&d, b);
            let xt = x.tensor(&dev);
            let ys = xt.batch_split(m);
            vx::check(ys.len() == m as usize, "batch_split: number of parts");
            for (i, y) in ys.iter().enumerate() {
                Ref::build(&d, b / m, &mut |c, s| x.at(c, s + i as u32 * (b / m))).expect_bits(y, "batch_split: consecutive equal parts");
            }
            let z = Tensor::batch_concat(&ys.iter().collect::<Vec<_>>());
            x.expect_bits(&z, "batch_split: concatenating gives the tensor back");
            same(&xt, &x.v, "batch_split: operand unchanged");
        }
        _ => {
            let m = if big() != 0 { 5 } else { 1 + vx::choose(3) };
            let xs: Vec<Ref> = (0..m).map(|i| Ref::any(&d, if huge() { 1 + i * 107 % 211 } else if big() != 0 { 1 + i * 5 % 11 } else { 1 + vx::choose(3) })).collect();
            let ts: Vec<Tensor> = xs.iter().map(|x| x.tensor(&dev)).collect();
            let y = Tensor::batch_concat(&ts.iter().collect::<Vec<_>>());
            let total = xs.iter().map(|x| x.b).sum();
            Ref::build(&d, total, &mut |c, s| {
                let mut q = s;
                for x in &xs {
                    if q < x.b {
                        return x.at(c, q);
                    }
                    q -= x.b;
                }
                unreachable!()
            })
            .expect_bits(&y, "batch_concat: the samples one operand after another");
            for (t, x) in ts.iter().zip(&xs) {
                same(t, &x.v, "batch_concat: operand unchanged");
            }
        }
    }
}

// copies and moves between tensors
fn copies(job: u32) {
    let dev = Naive::new();
    let dev2 = Naive::new();
    junk(&dev, 3, 64);
    junk(&dev2, 3, 64);
    let (d, b) = space();
    let x = Ref::any(&d, b);
    let xt = x.tensor(&dev);
    let s = xt.shape();
    match job {
        0 => {
            // to another device
            let mut y = dev2.copy_tensor(&xt);
            x.expect_bits(&y, "copy_tensor: to another device");
            y.reset(1.);
            same(&xt, &x.v, "copy_tensor: the original does not follow the copy");
        }
        1 => {
            let mut y = dev.copy_tensor(&xt);
            x.expect_bits(&y, "copy_tensor: on the same device");
            y.reset(1.);
            same(&xt, &x.v, "copy_tensor: the original does not follow the copy");
        }
        2 => {
            let c = vx::f32_any();
            let mut y = dev.new_tensor(s);
            y.alloc();
            y.reset(c);
            Ref::build(&d, b, &mut |_, _| c).expect_bits(&y, "reset: every element is the constant");
            let z = dev.new_tensor_by_constant(s, c);
            Ref::build(&d, b, &mut |_, _| c).expect_bits(&z, "new_tensor_by_constant: every element is the constant");
        }
        3 => {
            let mut y = dev.new_tensor(s);
            y.alloc();
            dev.reset_tensor_by_slice(&mut y, &x.v);
            x.expect_bits(&y, "reset_by_slice: the elements of the slice");
        }
        4 => {
            let n = if big() != 0 { vx::pick(&[9, 16, 33]) } else { 1 + vx::choose(4) };
            let mut y = dev.new_tensor(Shape::new(&[n, n], 1));
            y.alloc();
            dev.call_fw_impl("identity_impl", &[], &[], &[], &mut [&mut y]);
            Ref::build(&[n, n], 1, &mut |c, _| if c[0] == c[1] { 1. } else { 0. }).expect_bits(&y, "identity: ones on the diagonal only");
        }
        _ => {
            let mut y = dev2.new_tensor(s);
            y.alloc();
            dev2.reset_tensor_by_tensor(&mut y, &xt);
            x.expect_bits(&y, "reset_by_tensor: the elements of the source");
            y.reset(2.);
            same(&xt, &x.v, "reset_by_tensor: the source does not follow the target");
        }
    }
}

fn large(job: u32) {
    set_big(1);
    match job {
        0..=4 => slice(job),
        5..=9 => pick(job - 5),
        10..=24 => concat(job - 10),
        25..=29 => split(job - 25),
        30..=31 => shapes(job - 30),
        32..=36 => flip(job - 32),
        37..=40 => permute(job - 37),
        41..=44 => batch_ops(job - 41),
        _ => copies(job - 45),
    }
}

// thousands of elements
fn huges(job: u32) {
    set_huge();
    large(job)
}

// very many operands, parts or positions
fn many(job: u32) {
    let dev = Naive::new();
    junk(&dev, 2, 1024);
    let n = vx::pick(&[70u32, 300]);
    let v: Vec<f32> = (0..n).map(|i| if i % 16 == 7 { vx::f32_any() } else { i as f32 }).collect();
    let ts: Vec<Tensor> = if job < 2 { v.iter().map(|x| dev.new_tensor_by_constant(Shape::new(&[], 1), *x)).collect() } else { vec![] };
    let own = dev.new_tensor_by_slice(if job % 2 == 0 { Shape::new(&[n], 1) } else { Shape::new(&[], n) }, &v);
    let back: Vec<u32> = (0..n).map(|i| n - 1 - i).collect();
    match job {
        0 => same(&Tensor::concat(&ts.iter().collect::<Vec<_>>(), 0), &v, "many: concat"),
        1 => same(&Tensor::batch_concat(&ts.iter().collect::<Vec<_>>()), &v, "many: batch_concat"),
        2 | 3 => {
            let parts = if job == 2 { own.split(0, n) } else { own.batch_split(n) };
            vx::check(parts.len() == n as usize, "many: number of parts");
            for (p, x) in parts.iter().zip(&v) {
                same(p, &[*x], "many: split");
            }
        }
        _ => {
            let y = if job == 4 { own.pick(&back, 0) } else { own.batch_pick(&back) };
            let r: Vec<f32> = back.iter().map(|i| v[*i as usize]).collect();
            shape_is(y.shape(), &[], n, "many: pick");
            same(&y, &r, "many: pick");
        }
    }
}

// high axes
fn tall_axes(job: u32) {
    set_tall(4 + job % 4);
    match job / 4 {
        0 => slice(0),
        1 => pick(0),
        2 => concat(5),
        3 => concat(10),
        4 => split(0),
        5 => flip(0),
        _ => permute(4 + job % 4),
    }
}

harnesses! { "c04";
    "slice": 5 => slice;
    "pick": 5 => pick;
    "concat": 15 => concat;
    "split": 5 => split;
    "shapes": 2 => shapes;
    "flip": 5 => flip;
    "permute": 4 => permute;
    "batch": 4 => batch_ops;
    "copies": 6 => copies;
    "large": 51 => large;
    "huge": 51 => huges;
    "many": 6 => many;
    "tall": 28 => tall_axes;
}
