//! C01: shape algebra.
use crate::util::*;
use crate::vx;

/// Product of the numbers, or None if it does not fit in u32.
fn prod(v: &[u32]) -> Option<u32> {
    let mut p: u32 = 1;
    for x in v {
        p = p.checked_mul(*x)?;
    }
    Some(p)
}
fn valid(d: &[u32], b: u32) -> bool {
    if d.len() > 8 || b == 0 {
        return false;
    }
    for x in d {
        if *x == 0 {
            return false;
        }
    }
    match prod(d) {
        None => false,
        Some(p) => p.checked_mul(b).is_some(),
    }
}
fn depth(d: &[u32]) -> u32 {
    let mut r = 0;
    for i in 0..d.len() {
        if d[i] != 1 {
            r = i as u32 + 1;
        }
    }
    r
}
fn full(s: Shape, d: &[u32], b: u32, l: &str) {
    let n = depth(d);
    vx::check(s.depth() == n, l);
    vx::check(s.dims().len() == n as usize, l);
    for i in 0..10u32 {
        let e = if (i as usize) < d.len() { d[i as usize] } else { 1 };
        vx::check(s[i] == e, l);
        if i < n {
            vx::check(s.dims()[i as usize] == e, l);
        }
    }
    let v = prod(d).unwrap();
    vx::check(s.volume() == v, l);
    vx::check(s.batch() == b, l);
    vx::check(Some(s.size()) == v.checked_mul(b), l);
    vx::check(s.has_batch() == (b != 1), l);
    vx::check(s.is_scalar() == (n == 0), l);
    vx::check(s.is_column_vector() == (n <= 1), l);
    vx::check(s.is_matrix() == (n <= 2), l);
}
/// n symbolic numbers up to m; position k (if any) is unrestricted
fn nums(n: usize, lo: u32, m: u32, k: usize) -> Vec<u32> {
    (0..n).map(|i| vx::u32_in(lo, if i == k { u32::MAX } else { m })).collect()
}

// any list of up to nine dimensions, refused exactly when it has no size
fn new(job: u32) {
    let n = job as usize;
    let big = n + 1;
    let k = if n <= 4 { vx::choose(big as u32 + 1) as usize } else { big };
    let d = nums(n, 0, if n <= 2 { 9 } else { 3 }, k);
    let b = vx::u32_in(0, if k == n { u32::MAX } else { 5 });
    let ok = valid(&d, b);
    vx::expect_panic(!ok);
    let s = Shape::new(&d, b);
    vx::check(ok, "new: a shape without a representable size is accepted");
    full(s, &d, b, "new: attributes");
}
// two unrestricted numbers
fn overflow(job: u32) {
    let x = vx::u32_in(0, u32::MAX);
    let y = vx::u32_in(0, u32::MAX);
    let z = vx::u32_in(0, 3);
    let (d, b): (Vec<u32>, u32) = match job {
        0 => (vec![x, y], 1),
        1 => (vec![x, 1, y], 1),
        2 => (vec![x, z, y], 1),
        3 => (vec![x], y),
        _ => (vec![z, x], y),
    };
    let ok = valid(&d, b);
    vx::expect_panic(!ok);
    let s = Shape::new(&d, b);
    vx::check(ok, "new: a shape whose size overflows is accepted");
    vx::check(Some(s.size()) == prod(&d).unwrap().checked_mul(b), "new: size");
    vx::check(s.volume() == prod(&d).unwrap(), "new: volume");
}
fn eq(job: u32) {
    let (n, m) = (job as usize % 4, job as usize / 4);
    if n + m > 5 && !vx::thorough() {
        return;
    }
    let a = nums(n, 1, 6, 9);
    let b = nums(m, 1, 6, 9);
    pair(&a, &b, 6)
}
fn pair(a: &[u32], b: &[u32], mb: u32) {
    let (n, m) = (a.len(), b.len());
    let (ba, bb) = (vx::u32_in(1, mb), vx::u32_in(1, mb));
    let s = Shape::new(&a, ba);
    let t = Shape::new(&b, bb);
    let mut same = true;
    for i in 0..n.max(m) {
        let x = if i < n { a[i] } else { 1 };
        let y = if i < m { b[i] } else { 1 };
        same = same & (x == y);
    }
    vx::check(s.has_same_dims(t) == same, "has_same_dims");
    vx::check((s == t) == (same && ba == bb), "eq: equality is equality of dimensions and batch");
    vx::check((t == s) == (s == t), "eq: symmetric");
    vx::check(s.has_compatible_batch(t) == (ba == bb || ba == 1 || bb == 1), "has_compatible_batch");
    for k in 0..9u32 {
        let mut r = true;
        for i in 0..n.max(m) {
            let x = if i < n { a[i] } else { 1 };
            let y = if i < m { b[i] } else { 1 };
            r = r & (x == y || i == k as usize);
        }
        vx::check(s.has_same_loo_dims(t, k) == r, "has_same_loo_dims");
    }
}
// up to eight dimensions
fn sparse(on: &[usize], m: u32) -> Vec<u32> {
    let mut d = vec![];
    for i in on {
        d = redim(&d, *i, vx::u32_in(1, m));
    }
    d
}
fn eq_tall(job: u32) {
    let p = 3 + job as usize;
    let (mut a, mut b) = (vec![], vec![]);
    for i in 0..4 {
        let q = [0, p, if p == 6 { 5 } else { 6 }, 7][i];
        a = redim(&a, q, if i == 1 { vx::u32_in(1, 3) } else { vx::pick(&[1, 2]) });
        b = redim(&b, q, if i == 1 { vx::u32_in(1, 3) } else { vx::pick(&[1, 2]) });
    }
    pair(&a, &b, 9)
}
fn lower(job: u32) {
    let n = job as usize;
    let d = if n < 4 { nums(n, 1, 5, 9) } else { (0..n).map(|i| if i == 0 || i == n - 1 { vx::u32_in(1, 5) } else { [2, 1, 3][(n - i) % 3] }).collect() };
    let s = Shape::new(&d, vx::u32_in(1, 3));
    for k in 0..10usize {
        let mut p = 1u32;
        for i in 0..n.min(k) {
            p *= d[i];
        }
        vx::check(s.lower_volume(k as u32) == p, "lower_volume");
    }
}
// sequences of resizes are equal to direct construction
fn update(job: u32) {
    let n = job as usize % 4;
    let inplace = job / 4 % 2 == 1;
    let mut d: Vec<u32> = (0..n).map(|_| if n < 3 || vx::thorough() { vx::pick(&[1, 2, 3, 5]) } else { vx::pick(&[1, 2, 5]) }).collect();
    let mut b = vx::pick(&[1, 3]);
    let mut s = Shape::new(&d, b);
    let steps = if vx::thorough() { 3 } else { 2 };
    for q in 0..steps {
        let last = q == steps - 1;
        if vx::choose(2) == 0 {
            let m = if last { vx::u32_in(0, u32::MAX) } else { vx::pick(&[1, 2, 7, 65536]) };
            let k = vx::choose(if n < 3 { 5 } else { 4 });
            let k = [0u32, 1, 2, 7, 8][k as usize];
            let mut e = d.clone();
            while e.len() <= k as usize {
                e.push(1);
            }
            e[k as usize] = m;
            let ok = k < 8 && valid(&e, b);
            vx::expect_panic(!ok);
            let t = s;
            if inplace {
                s.update_dim(k, m);
            } else {
                s = t.resize_dim(k, m);
                full(t, &d, b, "resize_dim: receiver unchanged");
            }
            vx::check(ok, "resize_dim: accepts a size that is not representable");
            d = e;
            vx::check(s == Shape::new(&d, b), "resize_dim: equals direct construction");
        } else {
            let m = if last { vx::u32_in(0, u32::MAX) } else { vx::pick(&[1, 4, 65536]) };
            let ok = valid(&d, m);
            vx::expect_panic(!ok);
            let t = s;
            if inplace {
                s.update_batch(m);
            } else {
                s = t.resize_batch(m);
                full(t, &d, b, "resize_batch: receiver unchanged");
            }
            vx::check(ok, "resize_batch: accepts a size that is not representable");
            b = m;
            vx::check(s == Shape::new(&d, b), "resize_batch: equals direct construction");
        }
        full(s, &d, b, "resize: attributes");
    }
}

// The shape rules of the operations, through the shapes of graph nodes: no storage is needed, so that
// extents are symbolic numbers.
fn node<'a, 'd>(dev: &'d Device<'d>, d: &[u32], b: u32) -> Node<'a, 'd>
where
    'd: 'a,
{
    Node::from(dev.new_tensor(Shape::new(d, b)))
}
fn out(y: &Node, d: &[u32], b: u32, l: &str) {
    full(y.shape(), d, b, l);
}
/// eight dimensions
fn some(fixed: bool) -> Vec<u32> {
    let mut d = if fixed { redim(&redim(&[1], 0, vx::pick(&[1, 3])), 5, vx::pick(&[1, 4])) } else { sparse(&[0, 5], 2) };
    d = redim(&d, 6, 1);
    redim(&d, 7, vx::pick(&[1, 2]))
}
fn rules_tall(job: u32) {
    set_tall(5);
    rules([0, 1, 2, 3, 4, 5, 6, 7, 8, 11][job as usize])
}
fn rules(job: u32) {
    let dev = Naive::new();
    let (m, h) = (6u32, 9usize);
    let n = if tall() { 8 } else { vx::choose(if job == 0 && !vx::thorough() { 3 } else { 4 }) as usize };
    // extents are case-split where a rule divides by them
    let fix = [1, 2, 3, 4, 5, 7, 11].contains(&job);
    let d = if tall() { some(fix) } else if fix { (0..n).map(|_| if vx::thorough() { vx::pick(&[1, 2, 6]) } else if job == 7 { vx::pick(&[1, 2]) } else { vx::pick(&[1, 2, 4]) }).collect() } else { nums(n, 1, m, h) };
    let b = vx::u32_in(1, 4);
    let dim = |i: usize| if i < n { d[i] } else { 1 };
    let re = |k: usize, x: u32| {
        let mut e = d.clone();
        while e.len() <= k {
            e.push(1);
        }
        e[k] = x;
        e
    };
    match job {
        0 => {
            // element-wise
            let n2 = if tall() { 8 } else { vx::choose(if vx::thorough() { 4 } else { 3 }) as usize };
            let d2 = if tall() { some(false) } else { nums(n2, 1, m, h) };
            let b2 = vx::u32_in(1, 4);
            let mut same = true;
            for i in 0..n.max(n2) {
                let y = if i < n2 { d2[i] } else { 1 };
                same = same & (dim(i) == y);
            }
            let (sa, sb) = (depth(&d) == 0, depth(&d2) == 0);
            let ok = (same || sa || sb) && (b == b2 || b == 1 || b2 == 1);
            let (x, y) = (node(&dev, &d, b), node(&dev, &d2, b2));
            vx::expect_panic(!ok);
            let z = match vx::choose(5) {
                0 => x + y,
                1 => x - y,
                2 => x * y,
                3 => x / y,
                _ => x.pow(&y),
            };
            vx::check(ok, "rule element-wise: incompatible shapes accepted");
            out(&z, if sa { &d2 } else { &d }, b.max(b2), "rule element-wise");
        }
        1 => {
            let x = node(&dev, &d, b);
            let k = if tall() { vx::pick(&[3, 5, 6, 7]) } else { vx::choose(5) };
            let kk = vx::choose(9);
            if kk < 4 {
                let y = match kk {
                    0 => x.sum(k),
                    1 => x.max(k),
                    2 => x.min(k),
                    _ => x.logsumexp(k),
                };
                out(&y, &re(k as usize, 1), b, "rule reduction");
            } else if kk == 4 {
                out(&x.batch_sum(), &d, 1, "rule batch_sum");
            } else if kk == 5 {
                out(&x.flatten(), &[prod(&d).unwrap()], b, "rule flatten");
            } else if kk == 6 {
                out(&x.ln_softmax(k), &d, b, "rule ln_softmax");
                out(&x.softmax(k), &d, b, "rule softmax");
            } else if kk == 7 {
                let c = vx::u32_in(0, 9) as f32;
                for y in vec![&x + c, c - &x, x.powf(c), x.powi(3), -&x, x.sqrt(), x.abs(), x.exp(), x.ln(), x.tanh()] {
                    out(&y, &d, b, "rule unary");
                }
                for y in vec![x.sin(), x.cos(), x.tan(), x.sigmoid(), x.softplus(), x.relu(), x.lrelu(), x.prelu(c), x.elu(c)] {
                    out(&y, &d, b, "rule unary");
                }
            } else {
                let b2 = vx::u32_in(1, 4);
                let t = node(&dev, &d, b2);
                let ok = b == b2 || b == 1 || b2 == 1;
                vx::expect_panic(!ok);
                let y = x.softmax_cross_entropy(&t, k);
                vx::check(ok, "rule softmax_cross_entropy: accepted");
                out(&y, &re(k as usize, 1), b.max(b2), "rule softmax_cross_entropy");
            }
        }
        2 => {
            let x = node(&dev, &d, b);
            let k = if tall() { vx::pick(&[3, 5, 6, 7, 8]) } else { vx::choose(9) };
            let size = vx::u32_in(0, 6);
            let mut ok = k < 8 && size != 0 && (k as usize >= n || d[k as usize] == 1);
            if ok {
                ok = valid(&re(k as usize, size), b);
            }
            vx::expect_panic(!ok);
            let y = x.broadcast(k, size);
            vx::check(ok, "rule broadcast: accepted");
            out(&y, &re(k as usize, size), b, "rule broadcast");
        }
        3 => {
            let x = node(&dev, &d, b);
            let k = if tall() { vx::pick(&[3, 5, 6, 7, 8]) } else { vx::choose(9) };
            let (lo, up) = (vx::u32_in(0, 7), vx::u32_in(0, 7));
            let ok = lo < up && up <= dim(k as usize) && k < 8;
            vx::expect_panic(!ok);
            let y = x.slice(k, lo, up);
            vx::check(ok, "rule slice: accepted");
            out(&y, &re(k as usize, up - lo), b, "rule slice");
        }
        4 => {
            let x = node(&dev, &d, b);
            let k = if tall() { vx::pick(&[3, 5, 6, 7, 8]) } else { vx::choose(9) };
            let ids = nums(vx::choose(if vx::thorough() { 4 } else { 3 }) as usize, 0, 7, h);
            let c = ids.len() as u32;
            vx::assume(n < 3 || vx::thorough() || tall());
            let mut ok = k < 8 && c > 0 && (c == 1 || b == 1 || b == c);
            for i in &ids {
                ok = ok & (*i < dim(k as usize));
            }
            vx::expect_panic(!ok);
            let y = x.pick(&ids, k);
            vx::check(ok, "rule pick: accepted");
            out(&y, &re(k as usize, 1), b.max(c), "rule pick");
        }
        5 => {
            let n2 = vx::choose(3) as usize;
            let d2 = nums(n2, 1, m, h);
            let b2 = 1 + vx::choose(4);
            let e = |i: usize| if i < n2 { d2[i] } else { 1 };
            let (x, y) = (node(&dev, &d, b), node(&dev, &d2, b2));
            let ok = (2..8).all(|i| dim(i) == 1) && dim(1) == e(0) && (b == b2 || b == 1 || b2 == 1);
            vx::expect_panic(!ok);
            let z = x.matmul(&y);
            vx::check(ok, "rule matmul: accepted");
            out(&z, &[dim(0), e(1)], b.max(b2), "rule matmul");
        }
        6 => {
            let x = node(&dev, &d, b);
            let ok = (2..8).all(|i| dim(i) == 1);
            vx::expect_panic(!ok);
            let z = x.transpose();
            vx::check(ok, "rule transpose: accepted");
            out(&z, &[dim(1), dim(0)], b, "rule transpose");
        }
        7 => {
            // concat of three
            vx::assume(n < 3 || vx::thorough() || tall());
            let k = if tall() { vx::pick(&[0, 4, 5, 6, 7]) } else if vx::thorough() { vx::choose(4) } else { vx::pick(&[0u32, 1, 3]) };
            let mut nodes = vec![node(&dev, &d, b)];
            let mut ok = true;
            let mut bb = b;
            let mut sum = dim(k as usize);
            for _ in 0..2 {
                let n2 = if n > 1 { n } else { vx::choose(if vx::thorough() { 3 } else { 2 }) as usize };
                let d2 = if tall() { redim(&sparse(&[0, 5], 2), 7, 2) } else { nums(n2, 1, 4, h) };
                let b2 = vx::u32_in(1, 3);
                for i in 0..8 {
                    let y = if i < n2 { d2[i] } else { 1 };
                    ok = ok & (i == k as usize || y == dim(i));
                }
                ok = ok & (bb == 1 || b2 == 1 || bb == b2);
                bb = bb.max(b2);
                sum += if (k as usize) < n2 { d2[k as usize] } else { 1 };
                nodes.push(node(&dev, &d2, b2));
            }
            vx::expect_panic(!ok);
            let z = Node::concat(&[&nodes[0], &nodes[1], &nodes[2]], k);
            vx::check(ok, "rule concat: accepted");
            out(&z, &re(k as usize, sum), bb, "rule concat");
        }
        8 => {
            let n2 = if tall() { 8 } else { vx::choose(3) as usize };
            let d2 = if tall() { some(false) } else { nums(n2, 1, m, h) };
            let b2 = vx::u32_in(1, 4);
            let mut ok = true;
            for i in 0..n.max(n2) {
                let y = if i < n2 { d2[i] } else { 1 };
                ok = ok & (y == dim(i));
            }
            let (x, y) = (node(&dev, &d, b), node(&dev, &d2, b2));
            vx::expect_panic(!ok);
            let z = Node::batch_concat(&[&x, &y]);
            vx::check(ok, "rule batch_concat: accepted");
            out(&z, &d, b + b2, "rule batch_concat");
        }
        9 => {
            let x = node(&dev, &d, b);
            let (lo, up) = (vx::u32_in(0, 5), vx::u32_in(0, 5));
            let ok = lo < up && up <= b;
            vx::expect_panic(!ok);
            let y = x.batch_slice(lo, up);
            vx::check(ok, "rule batch_slice: accepted");
            out(&y, &d, up - lo, "rule batch_slice");
        }
        10 => {
            let x = node(&dev, &d, b);
            let ids = nums(vx::choose(4) as usize, 0, 5, h);
            let mut ok = ids.len() > 0;
            for i in &ids {
                ok = ok & (*i < b);
            }
            vx::expect_panic(!ok);
            let y = x.batch_pick(&ids);
            vx::check(ok, "rule batch_pick: accepted");
            out(&y, &d, ids.len() as u32, "rule batch_pick");
        }
        11 => {
            let x = node(&dev, &d, b);
            let k = if tall() { vx::pick(&[3, 5, 6, 7]) } else { vx::choose(4) };
            let c = vx::choose(5);
            let ok = c > 0 && dim(k as usize) % c.max(1) == 0;
            vx::expect_panic(!ok);
            let y = x.split(k, c);
            vx::check(ok, "rule split: accepted");
            vx::check(y.len() == c as usize, "rule split: number of parts");
            for e in &y {
                out(e, &re(k as usize, dim(k as usize) / c), b, "rule split");
            }
        }
        _ => {
            let x = node(&dev, &d, b);
            let c = vx::choose(5);
            let ok = c > 0 && b % c.max(1) == 0;
            vx::expect_panic(!ok);
            let y = x.batch_split(c);
            vx::check(ok, "rule batch_split: accepted");
            vx::check(y.len() == c as usize, "rule batch_split: number of parts");
            for e in &y {
                out(e, &d, b / c, "rule batch_split");
            }
        }
    }
}

harnesses! { "c01";
    "new": 10 => new;
    "overflow": 5 => overflow;
    "eq": 16 => eq;
    "lower": 9 => lower;
    "eq_tall": 4 => eq_tall;
    "update": 8 => update;
    "rules": 13 => rules;
    "rules_tall": 10 => rules_tall;
}
