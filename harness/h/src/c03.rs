//! C03: reductions, matrix products, broadcasts.
use crate::util::*;
use crate::vx;

/// shapes for axis operations
pub fn space() -> (Vec<u32>, u32) {
    if big() != 0 {
        let d = deep();
        return (d, batch(0));
    }
    if tall() {
        return tall_space();
    }
    let b = batch(3);
    let t = vx::thorough();
    let v: &[&[u32]] = if t {
        &[&[], &[1], &[2], &[3], &[5], &[1, 2], &[2, 1], &[2, 2], &[2, 3], &[3, 2], &[4, 3], &[1, 1, 2], &[2, 1, 3], &[1, 3, 2], &[2, 3, 2], &[3, 2, 3],
          &[2, 2, 2, 2], &[1, 2, 1, 2], &[2, 1, 2, 1, 2]]
    } else {
        &[&[], &[2], &[3], &[1, 2], &[2, 2], &[2, 3], &[3, 2], &[1, 1, 2], &[2, 1, 3], &[2, 3, 2], &[2, 1, 2, 2]]
    };
    (vx::pick(v).to_vec(), b)
}
fn line(x: &Ref, c: &[u32], s: u32, k: usize) -> Vec<f32> {
    (0..x.dim(k)).map(|i| x.at(&with(c, k, i), s)).collect()
}

fn reduce(job: u32) {
    let k = axis(job / 5);
    let op = job % 5;
    let dev = Naive::new();
    junk(&dev, 4, 64);
    // every comparison inside logsumexp doubles the paths: smaller shapes there
    let (d, b) = if op == 1 && !vx::thorough() && big() == 0 && !tall() {
        let (d, b): (&[u32], u32) = vx::pick(&[(&[][..], 2), (&[2], 1), (&[2], 2), (&[3], 2), (&[4], 1), (&[1, 2], 2), (&[2, 2], 1), (&[3, 2], 1), (&[1, 1, 3], 1), (&[1, 2, 2], 1)]);
        (d.to_vec(), b)
    } else {
        space()
    };
    let x = if (op == 2 || op == 3) && big() == 0 {
        // infinities too
        let x = Ref::any(&d, b);
        for e in &x.v {
            vx::assume(e.to_bits() & 0x7fff_ffff <= 0x7f80_0000);
        }
        x
    } else {
        Ref::sym(&d, b)
    };
    let xt = x.tensor(&dev);
    let y = match op {
        0 => xt.sum(k),
        1 => xt.logsumexp(k),
        2 => xt.max(k),
        3 => xt.min(k),
        _ => xt.batch_sum(),
    };
    let ku = k as usize;
    let rd = if op == 4 { d.clone() } else { redim(&d, ku, 1) };
    let rb = if op == 4 { 1 } else { b };
    shape_is(y.shape(), &rd, rb, "reduction: shape");
    let v = y.to_vec();
    let mut i = 0;
    let l = [
        "sum: the sum of the line",
        "logsumexp: the logarithm of the sum of exponentials of the line",
        "max: largest element of the line",
        "min: smallest element of the line",
        "batch_sum: the sum over the samples",
    ][op as usize];
    Ref::build(&rd, rb, &mut |c, s| {
        let y = v[i];
        i += 1;
        let e = if op == 4 { (0..b).map(|q| x.at(c, q)).collect() } else { line(&x, c, s, ku) };
        match op {
            0 | 4 => {
                let mut r = 0.;
                for a in &e {
                    r += *a;
                }
                vx::feq(y, r, l);
            }
            1 => {
                let mut r = 0.;
                for a in &e {
                    r += a.exp();
                }
                if e.len() == 1 {
                    vx::feq(y, e[0], l);
                } else {
                    vx::feq(y.exp(), r, l);
                }
            }
            _ => {
                let mut any = false;
                let mut all = true;
                for a in &e {
                    any = any | (*a == y);
                    all = all & (if op == 2 { y >= *a } else { y <= *a });
                }
                vx::check(any & all, l);
            }
        }
        0.
    });
    same(&xt, &x.v, "reduction: operand unchanged");
}

fn broadcast(job: u32) {
    let k = axis(job) as usize;
    let dev = Naive::new();
    junk(&dev, 4, 128);
    let (mut d, b) = space();
    if k < d.len() {
        d[k] = 1;
    }
    let size = if huge() { if d.iter().product::<u32>() * b < 10 { 2060 } else { 3 } } else if big() != 0 { vx::pick(&[5, 33]) } else { 1 + vx::choose(4) };
    let x = Ref::any(&d, b);
    let xt = x.tensor(&dev);
    let y = xt.broadcast(k as u32, size);
    let r = Ref::build(&redim(&d, k, size), b, &mut |c, s| x.at(&with(c, k, 0), s));
    r.expect_bits(&y, "broadcast: every position along the axis holds the element");
    same(&xt, &x.v, "broadcast: operand unchanged");
}

fn matmul(job: u32) {
    let dev = Naive::new();
    junk(&dev, 6, 128);
    let t = vx::thorough();
    // the kernel works in blocks; sizes on both sides of multiples of eight
    let (m, k, n) = match job {
        0 => (1 + vx::choose(3), 1 + vx::choose(3), 1 + vx::choose(3)),
        1 => (vx::pick(&[8, 9]), 2, 1),
        2 => (2, vx::pick(&[8, 9]), 2),
        3 => (1, 2, vx::pick(&[8, 9])),
        4 => (9, 9, 2),
        5 => (9, 2, 9),
        6 => (2, 9, 9),
        7 => (1, vx::pick(&[15, 16, 17]), 1),
        9 if huge() => vx::pick(&[(70, 66, 9), (1, 4100, 1), (2, 3, 700), (700, 3, 2), (33, 2, 130), (5, 300, 3)]),
        9 => vx::pick(&[(17, 20, 19), (1, 65, 7), (40, 3, 17), (16, 16, 16), (33, 33, 1)]),
        _ => {
            if t {
                (vx::pick(&[9, 10]), vx::pick(&[9, 17]), vx::pick(&[9, 17]))
            } else {
                (9, 9, 9)
            }
        }
    };
    let (ba, bb) = if job == 8 && !t { vx::pick(&[(1, 2), (2, 2)]) } else if job == 9 { vx::pick(&[(1, 1), (1, 3), (3, 1)]) } else { batches(if job == 0 { 3 } else { 2 }) };
    let a = Ref::sym(&[m, k], ba);
    let b = Ref::sym(&[k, n], bb);
    let (at, bt) = (a.tensor(&dev), b.tensor(&dev));
    let y = at.matmul(&bt);
    let r = Ref::build(&[m, n], ba.max(bb), &mut |c, s| {
        let (sa, sb) = (if ba > 1 { s } else { 0 }, if bb > 1 { s } else { 0 });
        let mut z = 0.;
        for q in 0..k {
            z += a.v[(sa * m * k + q * m + c[0]) as usize] * b.v[(sb * k * n + c[1] * k + q) as usize];
        }
        z
    });
    r.expect(&y, "matmul: row times column");
    same(&at, &a.v, "matmul: left operand unchanged");
    same(&bt, &b.v, "matmul: right operand unchanged");
}

fn transpose(_: u32) {
    let dev = Naive::new();
    junk(&dev, 4, 64);
    let t = vx::thorough();
    let n = if t { 5 } else { 4 };
    let (m, k) = if big() != 0 { if huge() { vx::pick(&[(70, 61), (2050, 1), (2, 1030)]) } else { vx::pick(&[(33, 17), (8, 40), (65, 2), (16, 16)]) } } else { (1 + vx::choose(n), 1 + vx::choose(n)) };
    let b = if big() != 0 { 2 } else { batch(3) };
    let x = Ref::any(&[m, k], b);
    let xt = x.tensor(&dev);
    let y = xt.transpose();
    let r = Ref::build(&[k, m], b, &mut |c, s| x.at(&[c[1], c[0]], s));
    r.expect_bits(&y, "transpose: rows become columns");
    same(&xt, &x.v, "transpose: operand unchanged");
    Ref::new(&[m, k], b, &x.v).expect_bits(&y.transpose(), "transpose: twice is the identity");
}

fn triangular(job: u32) {
    let dev = Naive::new();
    junk(&dev, 4, 64);
    let n = if big() != 0 { if huge() { 66 } else { vx::pick(&[9, 16, 33]) } } else { 1 + vx::choose(if vx::thorough() { 6 } else { 4 }) };
    let b = if big() != 0 { 2 } else { batch(3) };
    let k = if big() != 0 { vx::pick(&[0, 1, 7, 8, 40]) } else { vx::u32_in(0, u32::MAX) };
    let x = Ref::sym(&[n, n], b);
    let xt = x.tensor(&dev);
    let y = if job == 0 { xt.triangular_l(k) } else { xt.triangular_u(k) };
    let r = Ref::build(&[n, n], b, &mut |c, s| {
        let (i, j) = (c[0] as u64, c[1] as u64);
        let keep = if job == 0 { i >= j + k as u64 } else { j >= i + k as u64 };
        if keep {
            x.at(c, s)
        } else {
            0.
        }
    });
    r.expect_bits(&y, "triangular: keeps the triangle at the offset and zeroes the rest");
    same(&xt, &x.v, "triangular: operand unchanged");
}

fn large(job: u32) {
    match job {
        0..=24 => {
            set_big([1, 5, 4, 4, 1][job as usize % 5]);
            reduce(job)
        }
        25..=29 => {
            set_big(1);
            broadcast(job - 25)
        }
        30 => {
            set_big(1);
            matmul(9)
        }
        31 => {
            set_big(1);
            transpose(0)
        }
        _ => {
            set_big(1);
            triangular(job - 32)
        }
    }
}

// thousands of elements
fn huges(job: u32) {
    set_huge();
    large(job)
}

// high axes
fn tall_axes(job: u32) {
    set_tall(4 + job % 4);
    if job < 16 {
        reduce(job / 4)
    } else {
        broadcast(0)
    }
}

harnesses! { "c03";
    "reduce": 25 => reduce;
    "broadcast": 5 => broadcast;
    "matmul": 9 => matmul;
    "transpose": 1 => transpose;
    "triangular": 2 => triangular;
    "large": 34 => large;
    "huge": 34 => huges;
    "tall": 20 => tall_axes;
}
