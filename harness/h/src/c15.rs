//! C15: saturating functions over all finite inputs, in exact IEEE-754 arithmetic.
use crate::util::*;
use crate::vx;

const FIN: &str = "saturating: finite for finite inputs";
const UNIT: &str = "saturating: stays in [0, 1]";
const PMONE: &str = "saturating: stays in [-1, 1]";
const POS: &str = "saturating: never negative";
const GFIN: &str = "saturating: the gradient is finite";

fn unit(a: f32) {
    vx::check(a >= 0. && a <= 1., UNIT);
}
/// a float between -m and m
fn upto(m: f32) -> f32 {
    let x = vx::f32_finite();
    vx::assume(x >= -m && x <= m);
    x
}
fn unary<'d>(k: u32, t: &Tensor<'d>) -> Tensor<'d> {
    match k {
        0 => t.sigmoid(),
        1 => t.tanh(),
        2 => t.softplus(),
        3 => t.elu(1.),
        4 => t.logsumexp(0),
        5 => t.softmax(0),
        6 => t.logsumexp(1),
        _ => t.ln_softmax(0),
    }
}
fn unary_n<'a, 'd>(k: u32, t: &Node<'a, 'd>) -> Node<'a, 'd> {
    match k {
        0 => t.sigmoid(),
        1 => t.tanh(),
        2 => t.softplus(),
        3 => t.elu(1.),
        4 => t.logsumexp(0),
        5 => t.softmax(0),
        6 => t.logsumexp(1),
        _ => t.ln_softmax(0),
    }
}
fn bounds(k: u32, y: &[f32]) {
    for a in y {
        vx::finite(*a, FIN);
        match k {
            0 | 5 => unit(*a),
            1 => vx::check(*a >= -1. && *a <= 1., PMONE),
            2 => vx::check(*a >= 0., POS),
            3 => vx::check(*a >= -1., "saturating: ELU stays above -1"),
            7 => vx::check(*a <= 0., "saturating: log-softmax is never positive"),
            _ => (),
        }
    }
}

const OTHER: [f32; 4] = [-2., 0.75, -40., 3.];
/// The line as the second line of the first sample, or the first line of the second, among fixed ones.
fn among<'d>(dev: &'d Device<'d>, x: &[f32], axis: u32, late: bool) -> Tensor<'d> {
    let n = x.len();
    let at = if late { 2 } else { 1 };
    let mut v = vec![0.; n * 4];
    for l in 0..4 {
        for i in 0..n {
            let p = if axis == 0 { l * n + i } else { l / 2 * 2 * n + i * 2 + l % 2 };
            v[p] = if l == at { x[i] } else { OTHER[(l + i) % 4] };
        }
    }
    let d = if axis == 0 { [n as u32, 2] } else { [2, n as u32] };
    dev.new_tensor_by_slice(Shape::new(&d, 2), &v)
}
/// the elements of that line in a result with lines of m elements
fn own(y: &[f32], m: usize, axis: u32, late: bool) -> Vec<f32> {
    vx::check(y.len() == m * 4, "saturating: size");
    let l = if late { 2 } else { 1 };
    (0..m).map(|i| y[if axis == 0 { l * m + i } else { l / 2 * 2 * m + i * 2 + l % 2 }]).collect()
}

/// element-wise functions: every finite value
fn point(job: u32) {
    vx::strict_fp(true);
    let dev = Naive::new();
    let (k, node) = (job / 2, job % 2 == 1);
    let mut x = [0.5, -3., 2., -0.25, 7., -90.];
    x[if node { 5 } else { 2 }] = vx::f32_finite();
    let t = dev.new_tensor_by_slice(Shape::new(&[3], 2), &x);
    let y = if node { unary_n(k, &Node::from(&t)).to_vec() } else { unary(k, &t).to_vec() };
    vx::check(y.len() == 6, "saturating: size");
    bounds(k, &y);
}

/// lines of n elements: every finite value
fn line(job: u32) {
    vx::strict_fp(true);
    let dev = Naive::new();
    let (k, n) = (4 + job % 4, 1 + job / 4);
    // what log-softmax returns is a difference of two inputs: it has to be representable
    let x: Vec<f32> = (0..n).map(|_| if k == 7 { upto(1.7e38) } else { vx::f32_finite() }).collect();
    let (axis, node) = ((k == 6) as u32, vx::choose(2) == 1);
    let t = among(&dev, &x, axis, node);
    let y = if node { unary_n(k, &Node::from(&t)).to_vec() } else { unary(k, &t).to_vec() };
    let y = own(&y, if k % 2 == 1 { n as usize } else { 1 }, axis, node);
    bounds(k, &y);
    if k % 2 == 0 {
        // never below an operand
        for a in &x {
            vx::check(y[0] >= *a, "saturating: log-sum-exp is at least every operand");
        }
    }
}

/// lines in which some elements are minus infinity, which has weight zero
fn masked(job: u32) {
    vx::strict_fp(true);
    let dev = Naive::new();
    let (k, n) = if job < 4 { (4 + job, 2) } else { (4 + job % 2 * 2, 3) };
    let mask = vx::choose((1 << n) - 1);
    let x: Vec<f32> = (0..n)
        .map(|i| if mask >> i & 1 == 1 { f32::NEG_INFINITY } else if k == 7 { upto(1.7e38) } else { vx::f32_finite() })
        .collect();
    let on = |i: &usize| mask >> *i & 1 == 0;
    let live: Vec<usize> = (0..n as usize).filter(on).collect();
    let (axis, node) = ((k == 6) as u32, vx::choose(2) == 1);
    let t = among(&dev, &x, axis, node);
    let tn = Node::from(&t);
    let yn = unary_n(k, &tn);
    let y = if node { yn.to_vec() } else { unary(k, &t).to_vec() };
    let y = own(&y, if k % 2 == 1 { n as usize } else { 1 }, axis, node);
    if k % 2 == 0 {
        bounds(k, &y);
        for i in &live {
            vx::check(y[0] >= x[*i], "saturating: log-sum-exp is at least every operand");
        }
        if live.len() == 1 {
            vx::check(y[0] == x[live[0]], "saturating: minus infinity adds nothing to log-sum-exp");
        }
        if k == 4 && n == 2 {
            yn.backward();
            for g in tn.inner_gradient().to_vec() {
                vx::finite(g, GFIN);
            }
        }
    } else {
        for i in 0..n as usize {
            if on(&i) {
                bounds(k, &y[i..i + 1]);
            } else {
                vx::check(y[i] == if k == 5 { 0. } else { f32::NEG_INFINITY }, "saturating: minus infinity has weight zero");
            }
        }
    }
}
/// cross entropy against a distribution or a list of indices
fn cross(job: u32) {
    vx::strict_fp(true);
    let dev = Naive::new();
    let n = 1 + job / 2;
    let x: Vec<f32> = (0..n).map(|_| upto(1e37)).collect();
    let node = vx::choose(2) == 1;
    let t = among(&dev, &x, 0, node);
    let y = if job % 2 == 0 {
        let p: Vec<f32> = (0..n).map(|_| vx::f32_finite()).collect();
        for a in &p {
            vx::assume(*a >= 0. && *a <= 1.);
        }
        let q = 1. / n as f32;
        let v: Vec<f32> = (0..4 * n).map(|i| if i / n == 1 + node as u32 { p[(i % n) as usize] } else { q }).collect();
        let tp = dev.new_tensor_by_slice(Shape::new(&[n, 2], 2), &v);
        if node {
            Node::from(&t).softmax_cross_entropy(Node::from(&tp), 0).to_vec()
        } else {
            t.softmax_cross_entropy(&tp, 0).to_vec()
        }
    } else {
        let i = vx::choose(n);
        if node {
            Node::from(&t).sparse_softmax_cross_entropy(&[i], 0).to_vec()
        } else {
            t.sparse_softmax_cross_entropy(&[i], 0).to_vec()
        }
    };
    let y = own(&y, 1, 0, node);
    vx::finite(y[0], FIN);
    vx::check(y[0] >= 0., POS);
}

/// gradients for output gradients of at most 1e30
fn grad(job: u32) {
    vx::strict_fp(true);
    let dev = Naive::new();
    let k = job;
    let n = if k >= 4 { 2 } else { 1 };
    let x: Vec<f32> = (0..n).map(|_| if k == 7 { upto(1.7e38) } else { vx::f32_finite() }).collect();
    let late = vx::choose(2) == 1;
    let axis = (k == 6) as u32;
    let t = Node::from(among(&dev, &x, axis, late));
    let y = unary_n(k, &t);
    let m = if k >= 4 && k % 2 == 0 { 1 } else { n };
    let at = 1 + late as u32;
    let w: Vec<f32> = (0..4 * m)
        .map(|i| {
            let l = if axis == 0 { i / m } else { i / (2 * m) * 2 + i % 2 };
            if l == at { upto(1e30) } else { 1. }
        })
        .collect();
    let z = &y * Node::from(dev.new_tensor_by_slice(y.shape(), &w));
    z.backward();
    for g in t.inner_gradient().to_vec() {
        vx::finite(g, GFIN);
    }
}

harnesses! { "c15";
    "point": 8 => point;
    "line": if vx::thorough() { 16 } else { 12 } => line;
    "masked": if vx::thorough() { 6 } else { 4 } => masked;
    "cross": if vx::thorough() { 6 } else { 4 } => cross;
    "grad": 8 => grad;
}
