//! C14: composite functions, for tensors and for graphs, with their gradients.
use crate::rng;
use crate::util::*;
use crate::vx;
use prima_undine_contrib::functions::ContribFunctions;

const NODE: &str = "composite: the graph form gives the same values";
const GRAD: &str = "composite: the gradient is the derivative of the definition";
const KEEP: &str = "composite: operands are left unchanged";

fn strip(d: &[u32]) -> Vec<u32> {
    let mut d = d.to_vec();
    while d.last() == Some(&1) {
        d.pop();
    }
    d
}
/// Checks a graph form: shape and values as the tensor form, gradients as the derivative of the result.
macro_rules! both {
    ($dev:expr, [$($x:expr),*], $want:expr, |$n:ident| $f:expr) => {{
        let ts: Vec<Tensor> = vec![$( $x.tensor($dev) ),*];
        let vs: Vec<Vec<f32>> = vec![$( $x.v.clone() ),*];
        let $n: Vec<Node> = ts.iter().map(|t| Node::from(t)).collect();
        let y = $f;
        vx::check(y.shape() == $want.shape(), "composite: shape");
        let w = vx::floats(y.shape().size() as usize);
        // weigh the outputs, so that every one of them matters
        let z = &y * Node::from($dev.new_tensor_by_slice(y.shape(), &w));
        let v = y.to_vec();
        close_v(&v, &$want.to_vec(), NODE);
        z.backward();
        for (i, x) in vs.iter().enumerate() {
            let e = vx::vjp(&v, &w, x);
            close_v(&$n[i].inner_gradient().to_vec(), &e, GRAD);
            same(&ts[i], x, KEEP);
        }
    }};
}

fn pair(c: u32) -> (Vec<u32>, u32) {
    let (d, b): (&[u32], u32) = [(&[2][..], 1), (&[3], 2), (&[2, 2], 1), (&[1, 2], 2), (&[2, 1, 2], 1), (&[], 2)][c as usize];
    (d.to_vec(), b)
}

fn mean(job: u32) {
    let dev = Naive::new();
    junk(&dev, 6, 16);
    let (d, b) = (dims(2, 3), batch(3));
    let x = Ref::sym(&d, b);
    let t = x.tensor(&dev);
    if job == 0 {
        let k = vx::choose(4);
        let y = t.mean(k);
        let n = x.dim(k as usize);
        Ref::build(&strip(&redim(&d, k as usize, 1)), b, &mut |c, s| {
            let mut r = 0.;
            for i in 0..n {
                r += x.at(&with(c, k as usize, i), s);
            }
            r / n as f32
        })
        .expect(&y, "mean: the sum over the line divided by its length");
        both!(&dev, [x], y, |n| n[0].mean(k));
    } else {
        let y = t.batch_mean();
        Ref::build(&strip(&d), 1, &mut |c, _| {
            let mut r = 0.;
            for s in 0..b {
                r += x.at(c, s);
            }
            r / b as f32
        })
        .expect(&y, "batch_mean: the sum over the samples divided by their number");
        both!(&dev, [x], y, |n| n[0].batch_mean());
    }
    same(&t, &x.v, KEEP);
}

fn lines(x: &Ref, k: usize, f: &mut dyn FnMut(&[u32], u32, Vec<f32>)) {
    Ref::build(&redim(&x.d, k, 1), x.b, &mut |c, s| {
        f(c, s, (0..x.dim(k)).map(|i| x.at(&with(c, k, i), s)).collect());
        0.
    });
}

fn softmax(job: u32) {
    let dev = Naive::new();
    junk(&dev, 6, 16);
    let (d, b) = pair(job % 6);
    let k = vx::choose(3);
    let x = Ref::sym(&d, b);
    let t = x.tensor(&dev);
    let log = job / 6 == 1;
    let y = if log { t.ln_softmax(k) } else { t.softmax(k) };
    vx::check(y.shape() == t.shape(), "softmax: shape");
    let r = Ref::new(&d, b, &y.to_vec());
    lines(&x, k as usize, &mut |c, s, l| {
        let mut sum = 0.;
        for a in &l {
            sum += a.exp();
        }
        for i in 0..l.len() {
            let q = r.at(&with(c, k as usize, i as u32), s);
            if log {
                vx::feq(q.exp() * sum, l[i].exp(), "ln_softmax: the logarithm of exp(x) over the sum of exponentials");
            } else {
                vx::feq(q * sum, l[i].exp(), "softmax: exp(x) over the sum of exponentials");
            }
        }
    });
    if log {
        both!(&dev, [x], y, |n| n[0].ln_softmax(k));
    } else {
        both!(&dev, [x], y, |n| n[0].softmax(k));
    }
    same(&t, &x.v, KEEP);
}

// cross entropy with a distribution
fn cross(job: u32) {
    let dev = Naive::new();
    junk(&dev, 6, 16);
    let d: &[u32] = [&[2][..], &[3], &[2, 2], &[1, 2], &[]][(job % 5) as usize];
    let (bx, bt) = if d.len() > 1 && !vx::thorough() { vx::pick(&[(1, 1), (1, 2), (2, 1)]) } else { batches(2) };
    let k = vx::choose(3);
    let ku = k as usize;
    let x = Ref::sym(d, bx);
    let mut t = Ref::sym(d, bt);
    let normal = job / 5 == 0;
    if normal {
        // the last of each line makes the line sum to one
        let src = t.clone();
        t = Ref::build(d, bt, &mut |c, s| {
            let at = if ku < c.len() { c[ku] } else { 0 };
            if at + 1 < src.dim(ku) {
                return src.at(c, s);
            }
            let mut r = 1.;
            for i in 0..at {
                r -= src.at(&with(c, ku, i), s);
            }
            r
        });
    }
    let (xt, tt) = (x.tensor(&dev), t.tensor(&dev));
    let y = xt.softmax_cross_entropy(&tt, k);
    let ls = xt.ln_softmax(k);
    let ls = Ref::new(d, bx, &ls.to_vec());
    let b = bx.max(bt);
    let n = x.dim(ku);
    Ref::build(&strip(&redim(d, ku, 1)), b, &mut |c, s| {
        let mut r = 0.;
        for i in 0..n {
            let c = with(c, ku, i);
            r += t.at(&c, s) * ls.at(&c, s);
        }
        -r
    })
    .expect(&y, "softmax_cross_entropy: minus the sum of target times log-softmax");
    same(&xt, &x.v, KEEP);
    same(&tt, &t.v, KEEP);
    // graph form
    let (nx, nt) = (Node::from(&xt), Node::from(&tt));
    let ny = nx.softmax_cross_entropy(&nt, k);
    vx::check(ny.shape() == y.shape(), "composite: shape");
    let w = vx::floats(y.shape().size() as usize);
    let z = &ny * Node::from(dev.new_tensor_by_slice(y.shape(), &w));
    let v = ny.to_vec();
    close_v(&v, &y.to_vec(), NODE);
    z.backward();
    if normal {
        close_v(&nx.inner_gradient().to_vec(), &vx::vjp(&v, &w, &x.v), "softmax_cross_entropy: gradient with respect to the scores");
    } else {
        close_v(&nt.inner_gradient().to_vec(), &vx::vjp(&v, &w, &t.v), "softmax_cross_entropy: gradient with respect to the targets");
    }
    same(&xt, &x.v, KEEP);
    same(&tt, &t.v, KEEP);
}

// cross entropy with class indices
fn sparse(job: u32) {
    let dev = Naive::new();
    junk(&dev, 6, 16);
    let d: &[u32] = [&[2][..], &[3], &[2, 2], &[1, 2], &[]][job as usize];
    let (bx, bi) = batches(2);
    let k = vx::choose(3);
    let ku = k as usize;
    let x = Ref::sym(d, bx);
    let n = x.dim(ku);
    let ids: Vec<u32> = (0..bi).map(|_| vx::choose(n)).collect();
    let t = x.tensor(&dev);
    let y = t.sparse_softmax_cross_entropy(&ids, k);
    let ls = Ref::new(d, bx, &t.ln_softmax(k).to_vec());
    Ref::build(&strip(&redim(d, ku, 1)), bx.max(bi), &mut |c, s| {
        let id = if bi == 1 { ids[0] } else { ids[s as usize] };
        -ls.at(&with(c, ku, id), s)
    })
    .expect(&y, "sparse_softmax_cross_entropy: minus the log-softmax at the index");
    both!(&dev, [x], y, |m| m[0].sparse_softmax_cross_entropy(&ids, k));
    same(&t, &x.v, KEEP);
}

fn sum(job: u32) {
    let dev = Naive::new();
    junk(&dev, 6, 16);
    let n = 1 + job % 4;
    let b = 1 + vx::choose(2);
    let xs: Vec<Ref> = (0..n)
        .map(|_| {
            let d: &[u32] = if vx::choose(2) == 1 && n < 4 { &[] } else { &[2] };
            Ref::sym(d, if vx::choose(2) == 1 { b } else { 1 })
        })
        .collect();
    let ts: Vec<Tensor> = xs.iter().map(|x| x.tensor(&dev)).collect();
    // an operand may occur twice
    let mut ix: Vec<usize> = (0..n as usize).collect();
    if vx::choose(2) == 1 {
        ix.push(0);
    }
    let y = Tensor::slice_sum(&ix.iter().map(|i| &ts[*i]).collect::<Vec<_>>());
    let d: &[u32] = if xs.iter().any(|x| x.d.len() > 0) { &[2] } else { &[] };
    let mb = xs.iter().map(|x| x.b).max().unwrap();
    Ref::build(d, mb, &mut |c, s| {
        let mut r = 0.;
        for i in &ix {
            r += xs[*i].at(c, s);
        }
        r
    })
    .expect(&y, "slice_sum: the sum of all operands");
    let ns: Vec<Node> = ts.iter().map(|t| Node::from(t)).collect();
    let z = Node::slice_sum(&ix.iter().map(|i| &ns[*i]).collect::<Vec<_>>());
    vx::check(z.shape() == y.shape(), "composite: shape");
    let v = z.to_vec();
    close_v(&v, &y.to_vec(), NODE);
    z.backward();
    for (i, x) in xs.iter().enumerate() {
        close_v(&ns[i].inner_gradient().to_vec(), &vx::vjp(&v, &vec![1.; v.len()], &x.v), GRAD);
        same(&ts[i], &x.v, KEEP);
    }
}

fn dropout(job: u32) {
    let dev = Naive::new();
    junk(&dev, 6, 16);
    let node = job & 1 == 1;
    let dim = job >> 1 & 1 == 1;
    let (d, b): (&[u32], u32) = vx::pick(&[(&[2, 2][..], 1), (&[2], 2), (&[1, 4], 1), (&[], 4)]);
    let x = Ref::sym(d, b);
    let t = x.tensor(&dev);
    let k = if dim { vx::choose(3) } else { 0 };
    let ku = k as usize;
    let (rate, on) = vx::pick(&[(0.25f32, true), (0.5, true), (0.75, true), (0., true), (1., true), (1.5, true), (0.25, false), (1., false)]);
    // one word per drawn element, one from each part of the range, in some order
    let n = if dim { x.v.len() as u32 / x.dim(ku) } else { x.v.len() as u32 };
    let r = vx::choose(n);
    let words: Vec<u64> = (0..n).map(|i| rng::stratum((i + r) % n, n)).collect();
    rng::set(words.clone());
    let y = if node {
        let nx = Node::from(&t);
        let y = if dim { nx.dropout_dim(k, rate, on) } else { nx.dropout(rate, on) };
        vx::check(y.shape() == t.shape(), "dropout: shape");
        let v = y.to_vec();
        y.backward();
        close_v(&nx.inner_gradient().to_vec(), &vx::vjp(&v, &vec![1.; v.len()], &x.v), GRAD);
        v
    } else {
        let y = if dim { t.dropout_dim(k, rate, on) } else { t.dropout(rate, on) };
        vx::check(y.shape() == t.shape(), "dropout: shape");
        y.to_vec()
    };
    same(&t, &x.v, KEEP);
    if !on || rate == 0. {
        close_v(&y, &x.v, "dropout: passes everything when it is off");
        return;
    }
    if rate >= 1. {
        close_v(&y, &vec![0.; y.len()], "dropout: passes nothing at rate one");
        return;
    }
    // the mask: a unit input shows it
    rng::set(words);
    let ones = dev.new_tensor_by_constant(x.shape(), 1.);
    let m = if dim { ones.dropout_dim(k, rate, on) } else { ones.dropout(rate, on) }.to_vec();
    let scale = 1. / (1. - rate);
    let mut kept = 0;
    for i in 0..m.len() {
        if m[i] == 0. {
            vx::feq(y[i], 0., "dropout: an element is dropped or scaled by 1/(1-rate)");
        } else {
            kept += 1;
            vx::feq(m[i], scale, "dropout: an element is dropped or scaled by 1/(1-rate)");
            vx::feq(y[i], x.v[i] * scale, "dropout: an element is dropped or scaled by 1/(1-rate)");
        }
    }
    if dim {
        let m = Ref::new(d, b, &m);
        lines(&m, ku, &mut |_, _, l| {
            for a in &l {
                vx::bits(*a, l[0], "dropout_dim: a line is kept or dropped as a whole");
            }
        });
        kept /= x.dim(ku) as usize;
    }
    // words spread evenly over the range keep the share 1 - rate
    let want = (1. - rate) * n as f32;
    vx::check((kept as f32 - want).abs() < 1., "dropout: an element is dropped with probability rate");
}

fn norm(job: u32) {
    let dev = Naive::new();
    junk(&dev, 6, 16);
    let layer = job & 1 == 1;
    let (d, b): (&[u32], u32) = match (job / 2, layer) {
        (0, true) => vx::pick(&[(&[2][..], 1), (&[2, 1, 1], 2), (&[1, 2], 1)]),
        (0, _) => vx::pick(&[(&[][..], 2), (&[2], 2), (&[1], 3)]),
        (1, true) => (&[2, 2], 1),
        (1, _) => vx::pick(&[(&[2, 2][..], 2), (&[1, 2], 2)]),
        (2, true) => vx::pick(&[(&[3][..], 2), (&[1, 1, 2], 2)]),
        (2, _) => vx::pick(&[(&[1, 1, 2][..], 3), (&[3], 1)]),
        (_, true) => (&[3, 2], 1),
        _ => (&[2, 3], 2),
    };
    let (gd, gb): (&[u32], u32) = if vx::choose(2) == 1 { (d, 1) } else { (&[], 1) };
    let (x, g, h) = (Ref::sym(d, b), Ref::sym(gd, gb), Ref::sym(gd, gb));
    let eps = vx::f32_finite();
    vx::assume(eps > 0.001 && eps < 1.);
    let (tx, tg, th) = (x.tensor(&dev), g.tensor(&dev), h.tensor(&dev));
    let vol = x.volume() as u32;
    let n = if layer { vol } else { b };
    let at = |c: u32, s: u32| x.v[(s * vol + c) as usize];
    let stat = |c: u32, s: u32| {
        let e: Vec<f32> = (0..n).map(|i| if layer { at(i, s) } else { at(c, i) }).collect();
        let mut m = 0.;
        for a in &e {
            m += *a;
        }
        m /= n as f32;
        let mut v = 0.;
        for a in &e {
            v += (*a - m) * (*a - m);
        }
        (m, v / n as f32 + eps)
    };
    let y = if layer { tx.layer_normalization(&tg, &th, eps) } else { tx.batch_normalization(&tg, &th, eps, true) };
    vx::check(y.shape() == tx.shape(), "normalization: shape");
    let yv = y.to_vec();
    for s in 0..b {
        for c in 0..vol {
            let (m, v) = stat(c, s);
            let (gg, hh) = if gd.len() == 0 { (g.v[0], h.v[0]) } else { (g.v[c as usize], h.v[c as usize]) };
            vx::feq(yv[(s * vol + c) as usize], gg * (at(c, s) - m) / v.sqrt() + hh, "normalization: scaled deviation from the mean over the standard deviation");
        }
    }
    both!(&dev, [x, g, h], y, |m| if layer { m[0].layer_normalization(&m[1], &m[2], eps) } else { m[0].batch_normalization(&m[1], &m[2], eps, true) });
    if !layer {
        close(&tx.batch_normalization(&tg, &th, eps, false), &x.v, "normalization: passes everything when it is off");
        let nx = Node::from(&tx);
        close_v(&nx.batch_normalization(&Node::from(&tg), &Node::from(&th), eps, false).to_vec(), &x.v, "normalization: passes everything when it is off");
    }
}

fn near_to(a: f32, e: f64, tol: f64, l: &str) {
    vx::check((a as f64 - e).abs() <= tol * (1. + e.abs()), l);
}
// thousands of elements
fn huges(job: u32) {
    set_huge();
    large(job + 2)
}
// many elements: values of both forms against the definition in double precision
fn large(job: u32) {
    if job < 2 {
        set_big(1);
        return mean(job);
    }
    let dev = Naive::new();
    set_big(5);
    junk(&dev, 6, 256);
    let d = deep();
    let b = batch(0);
    let k = vx::choose(3);
    let ku = k as usize;
    let x = Ref::sym(&d, b);
    let t = x.tensor(&dev);
    let n = x.dim(ku);
    let two = |a: &Tensor, n: &Node, l: &str| {
        vx::check(n.shape() == a.shape(), l);
        close_v(&n.to_vec(), &a.to_vec(), NODE);
    };
    let near = |a: f32, e: f64, l: &str| near_to(a, e, if huge() { 1e-3 } else { 1e-4 }, l);
    // log-softmax of the line through c, in double precision
    let first = redim(&d, ku, 1);
    let place = |c: &[u32], s: u32| {
        let (mut o, mut m) = (0, 1);
        for (i, e) in first.iter().enumerate() {
            o += m * if i == ku { 0 } else { *c.get(i).unwrap_or(&0) };
            m *= e;
        }
        (s * m + o) as usize
    };
    let mut lns = vec![];
    Ref::build(&first, b, &mut |c, s| {
        let mut z = 0.;
        for i in 0..n {
            z += (x.at(&with(c, ku, i), s) as f64).exp();
        }
        lns.push(z.ln());
        0.
    });
    let ls = |c: &[u32], s: u32| x.at(c, s) as f64 - lns[place(c, s)];
    let over = |y: &Tensor, dd: &[u32], bb: u32, f: &dyn Fn(&[u32], u32) -> f64, l: &str| {
        shape_is(y.shape(), dd, bb, l);
        let v = y.to_vec();
        let mut i = 0;
        Ref::build(dd, bb, &mut |c, s| {
            near(v[i], f(c, s), l);
            i += 1;
            0.
        });
    };
    match job {
        2 => {
            let y = t.softmax(k);
            over(&y, &d, b, &|c, s| ls(c, s).exp(), "softmax: long lines");
            let v = Ref::new(&d, b, &y.to_vec());
            lines(&v, ku, &mut |_, _, l| {
                let sum: f64 = l.iter().map(|a| *a as f64).sum();
                near(sum as f32, 1., "softmax: a line sums to one");
            });
            two(&y, &Node::from(&t).softmax(k), NODE);
        }
        3 => {
            let y = t.ln_softmax(k);
            over(&y, &d, b, &ls, "ln_softmax: long lines");
            two(&y, &Node::from(&t).ln_softmax(k), NODE);
        }
        4 => {
            let m = if b > 1 { vx::pick(&[1, b]) } else { 9 };
            let ids: Vec<u32> = (0..m).map(|i| (i * 5 + 2) % n).collect();
            let y = t.sparse_softmax_cross_entropy(&ids, k);
            over(&y, &redim(&d, ku, 1), b.max(m), &|c, s| -ls(&with(c, ku, ids[if m > 1 { s as usize } else { 0 }]), if b > 1 { s } else { 0 }), "sparse_softmax_cross_entropy: long lines");
            two(&y, &Node::from(&t).sparse_softmax_cross_entropy(&ids, k), NODE);
        }
        5 => {
            let q = Ref::sym(&d, b);
            let qt = q.tensor(&dev);
            let y = t.softmax_cross_entropy(&qt, k);
            over(&y, &redim(&d, ku, 1), b, &|c, s| {
                let mut r = 0.;
                for i in 0..n {
                    let c = with(c, ku, i);
                    r -= q.at(&c, s) as f64 * ls(&c, s);
                }
                r
            }, "softmax_cross_entropy: long lines");
            two(&y, &Node::from(&t).softmax_cross_entropy(&Node::from(&qt), k), NODE);
        }
        6 | 7 => {
            let vol = x.volume() as u32;
            let m = if job == 6 { vol } else { b };
            let g = Ref::sym(&d, 1);
            let h = Ref::sym(&d, 1);
            let (gt, ht) = (g.tensor(&dev), h.tensor(&dev));
            let y = if job == 6 { t.layer_normalization(&gt, &ht, 0.1) } else { t.batch_normalization(&gt, &ht, 0.1, true) };
            let v = y.to_vec();
            vx::check(y.shape() == t.shape() && v.len() == x.v.len(), "normalization: shape");
            // mean and variance of each sample, or of each element over the samples
            let stats: Vec<(f64, f64)> = (0..if job == 6 { b } else { vol })
                .map(|j| {
                    let at = |i: u32| if job == 6 { x.v[(j * vol + i) as usize] } else { x.v[(i * vol + j) as usize] } as f64;
                    let mut mean = 0.;
                    for i in 0..m {
                        mean += at(i) / m as f64;
                    }
                    let mut var = 0.1f32 as f64;
                    for i in 0..m {
                        var += (at(i) - mean) * (at(i) - mean) / m as f64;
                    }
                    (mean, var)
                })
                .collect();
            for s in 0..b {
                for c in 0..vol {
                    let (mean, var) = stats[if job == 6 { s } else { c } as usize];
                    let e = x.v[(s * vol + c) as usize] as f64;
                    near(v[(s * vol + c) as usize], g.v[c as usize] as f64 * (e - mean) / var.sqrt() + h.v[c as usize] as f64, "normalization: many elements");
                }
            }
            let (ng, nh) = (Node::from(&gt), Node::from(&ht));
            two(&y, &if job == 6 { Node::from(&t).layer_normalization(&ng, &nh, 0.1) } else { Node::from(&t).batch_normalization(&ng, &nh, 0.1, true) }, NODE);
        }
        _ => {
            // many operands
            let xs: Vec<Ref> = (0..11).map(|i| Ref::sym(if i % 4 == 1 { &[] } else { &d }, if i % 3 == 2 { b } else { 1 })).collect();
            let ts: Vec<Tensor> = xs.iter().map(|x| x.tensor(&dev)).collect();
            let y = Tensor::slice_sum(&ts.iter().collect::<Vec<_>>());
            over(&y, &d, b, &|c, s| xs.iter().map(|x| x.at(if x.d.len() == 0 { &[] } else { c }, s) as f64).sum(), "slice_sum: many operands");
            let ns: Vec<Node> = ts.iter().map(|t| Node::from(t)).collect();
            two(&y, &Node::slice_sum(&ns.iter().collect::<Vec<_>>()), NODE);
        }
    }
    same(&t, &x.v, KEEP);
}

harnesses! { "c14";
    "mean": 2 => mean;
    "softmax": 12 => softmax;
    "cross": 10 => cross;
    "sparse": 5 => sparse;
    "sum": 4 => sum;
    "dropout": 4 => dropout;
    "norm": 8 => norm;
    "large": 9 => large;
    "huge": 7 => huges;
}
