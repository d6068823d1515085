//! C05: arg-max, arg-min, arg-sort.
use crate::util::*;
use crate::vx;

fn space(n: u32) -> (Vec<u32>, u32) {
    let t = vx::thorough();
    let v: &[&[u32]] = match n {
        0 => &[&[], &[2], &[3], &[4]],
        1 => &[&[2, 2], &[1, 3], &[3, 1], &[2, 3], &[3, 2]],
        _ => &[&[1, 1, 3], &[2, 2, 2], &[1, 3, 2], &[2, 1, 2, 1]],
    };
    (vx::pick(v).to_vec(), batch(if t || n == 0 { 3 } else { 2 }))
}
/// any bit pattern except NaN
fn values(d: &[u32], b: u32) -> Ref {
    let x = Ref::any(d, b);
    for e in &x.v {
        vx::assume(e.to_bits() & 0x7fff_ffff <= 0x7f80_0000);
    }
    x
}

fn arg(job: u32) {
    let max = job % 2 == 0;
    let k = axis(job / 2 % 4) as usize;
    let dev = Naive::new();
    junk(&dev, 2, 64);
    let (d, b) = if tall() { tall_space() } else { space(job / 8) };
    let x = values(&d, b);
    let xt = x.tensor(&dev);
    let y = if max { xt.argmax(k as u32) } else { xt.argmin(k as u32) };
    let rd = redim(&d, k, 1);
    let n = x.dim(k);
    let mut i = 0;
    let l = if max { "argmax: first position of the largest element" } else { "argmin: first position of the smallest element" };
    vx::check(y.len() == x.v.len() / n as usize, "argmax/argmin: one position per line");
    Ref::build(&rd, b, &mut |c, s| {
        let p = y[i];
        i += 1;
        let mut ok = p < n;
        for q in 0..n {
            let e = x.at(&with(c, k, q), s);
            // compares with the element at position p
            for r in 0..n {
                let m = x.at(&with(c, k, r), s);
                let better = if max { e > m } else { e < m };
                ok = ok & !((r == p) & (better | ((q < r) & (e == m))));
            }
        }
        vx::check(ok, l);
        0.
    });
    same(&xt, &x.v, "argmax/argmin: operand unchanged");
}

fn sort(job: u32) {
    let dev = Naive::new();
    junk(&dev, 2, 64);
    let k = axis(job % 4) as usize;
    let v: &[&[u32]] = if vx::thorough() { &[&[], &[2], &[3], &[4], &[2, 2], &[3, 2], &[1, 3], &[2, 1, 2], &[2, 3, 1]] } else { &[&[], &[2], &[3], &[4], &[2, 2], &[1, 3], &[2, 1, 2]] };
    let i = job as usize / 4;
    if i >= v.len() {
        return;
    }
    let (d, c) = if tall() { tall_space() } else { (v[i].to_vec(), 0) };
    let b = if c > 0 { if d.iter().product::<u32>() > 5 { 1 } else { c } } else if d.iter().product::<u32>() > 3 { 1 } else { batch(2) };
    let x = values(&d, b);
    let xt = x.tensor(&dev);
    let y = xt.argsort(k as u32);
    vx::check(y.len() == x.v.len(), "argsort: size");
    let n = x.dim(k);
    let offset = |c: &[u32], s: u32| {
        let mut o = 0u32;
        let mut m = 1u32;
        for i in 0..d.len() {
            o += (if i < c.len() { c[i] } else { 0 }) * m;
            m *= d[i];
        }
        o + s * m
    };
    Ref::build(&redim(&d, k, 1), b, &mut |c, s| {
        // the entries of the line name each element of the line once, in ascending order
        let at = |q: u32| offset(&with(c, k, q), s);
        for q in 0..n {
            let mut once = 0u32;
            for r in 0..n {
                once += (y[at(r) as usize] == at(q)) as u32;
            }
            vx::check(once == 1, "argsort: each element of the line is named exactly once");
        }
        for q in 1..n {
            let (p0, p1) = (y[at(q - 1) as usize], y[at(q) as usize]);
            let mut ok = true;
            for i in 0..n {
                for j in 0..n {
                    let hit = (p0 == at(i)) & (p1 == at(j));
                    let (e, f) = (x.v[at(i) as usize], x.v[at(j) as usize]);
                    ok = ok & !(hit & !(e <= f));
                }
            }
            vx::check(ok, "argsort: ascending order");
        }
        0.
    });
    same(&xt, &x.v, "argsort: operand unchanged");
}

// the graph forms are the eager ones
fn node(job: u32) {
    let dev = Naive::new();
    let k = job % 3;
    let (d, b) = ([vec![2u32], vec![2, 2], vec![1, 2]][vx::choose(3) as usize].clone(), 1);
    let x = values(&d, b);
    let xt = x.tensor(&dev);
    let m = Node::from(&xt).reshape(xt.shape());
    let (p, q) = match job / 3 {
        0 => (m.argmax(k), xt.argmax(k)),
        1 => (m.argmin(k), xt.argmin(k)),
        _ => (m.argsort(k), xt.argsort(k)),
    };
    vx::check(p == q, "node: same positions as the eager call");
}

// long lines, with repeated values; two elements free
fn large(job: u32) {
    let dev = Naive::new();
    set_big(1);
    junk(&dev, 2, 512);
    let what = job % 3;
    let k = (job / 3) as usize;
    let d = deep();
    let b = batch(0);
    let n: u32 = d.iter().product::<u32>() * b;
    let o = vx::choose(if what < 2 { 2 } else { 3 });
    let t = [1.5, -0.75, 2.25, -3., 0.5, f32::NEG_INFINITY, 3.5, -2., 0., 1., f32::INFINITY, -2.75, -0.5f32];
    let mut v: Vec<f32> = (0..n).map(|i| t[((i + o * 5) * 3 % 13) as usize] + if i < 9 || o == 0 { 0. } else { (i * 377 % 1021) as f32 / 8. }).collect();
    if o == 2 {
        // values close to one another
        v = (0..n).map(|i| 1. + (i * 377 % 1021 % 300) as f32 * 1.2207031e-4).collect();
    }
    let q = n as usize / 2;
    if n > 3 && what < 2 {
        v[q] = vx::f32_finite();
    }
    let x = Ref::new(&d, b, &v);
    let xt = x.tensor(&dev);
    let y = match what {
        0 => xt.argmax(k as u32),
        1 => xt.argmin(k as u32),
        _ => xt.argsort(k as u32),
    };
    let rd = redim(&d, k, 1);
    let n = x.dim(k);
    let mut low = 1;
    for i in 0..k.min(d.len()) {
        low *= d[i];
    }
    let vol = x.volume() as u32;
    let mut i = 0;
    vx::check(y.len() == if what < 2 { v.len() / n as usize } else { v.len() }, "long lines: number of positions");
    Ref::build(&rd, b, &mut |c, s| {
        // position of the first element of the line
        let mut o = s * vol;
        let mut m = 1;
        for j in 0..d.len() {
            o += c[j] * m;
            m *= d[j];
        }
        let at = |q: u32| (o + q * low) as usize;
        if what < 2 {
            let p = y[i];
            i += 1;
            vx::check(p < n, "long lines: argmax/argmin: a position of the line");
            if p >= n {
                return 0.;
            }
            let mut ok = true;
            for q in 0..n {
                let (e, m) = (v[at(q)], v[at(p)]);
                let worse = if what == 0 { e < m } else { e > m };
                ok = ok & (worse | ((q >= p) & (e == m)));
            }
            vx::check(ok, "long lines: argmax/argmin: first position of the extreme element");
        } else {
            let mut seen = vec![0u32; n as usize];
            for q in 0..n {
                let p = y[at(q)];
                let hit = p >= o && (p - o) % low == 0 && (p - o) / low < n;
                if hit {
                    seen[((p - o) / low) as usize] += 1;
                }
                vx::check(hit, "long lines: argsort: names elements of the line");
                if q > 0 && hit {
                    vx::check(v[y[at(q - 1)] as usize] <= v[p as usize], "long lines: argsort: ascending order");
                }
            }
            vx::check(seen.iter().all(|e| *e == 1), "long lines: argsort: each element of the line is named exactly once");
        }
        0.
    });
    same(&xt, &x.v, "long lines: operand unchanged");
}

// thousands of elements
fn huges(job: u32) {
    set_huge();
    large(job)
}

// high axes
fn tall_axes(job: u32) {
    set_tall(4 + job % 4);
    match job / 4 {
        0 => arg(0),
        1 => arg(1),
        _ => sort(0),
    }
}

harnesses! { "c05";
    "arg": 24 => arg;
    "sort": 36 => sort;
    "node": 9 => node;
    "large": 15 => large;
    "huge": 15 => huges;
    "tall": 12 => tall_axes;
}
