//! Every operation that exists both for tensors and for graph nodes, under one numbering.
use crate::util::*;
use crate::vx;

pub const N: u32 = 54;
#[derive(Clone)]
pub struct P {
    pub op: u32,
    pub k: f32,
    pub i: i32,
    pub dim: u32,
    /// size, offset, or number of parts
    pub u: u32,
    pub lo: u32,
    pub up: u32,
    pub ids: Vec<u32>,
    pub shape: Shape,
}
pub struct Case {
    pub p: P,
    pub a: Ref,
    pub b: Option<Ref>,
}

macro_rules! define_apply {
    ($name:ident, $t:ty) => {
        pub fn $name<'a, 'd>(p: &P, a: &$t, b: Option<&$t>) -> Vec<$t> {
            let k = p.k;
            let y = match p.op {
                0 => -a,
                1 => a.sqrt(),
                2 => a.abs(),
                3 => a.sin(),
                4 => a.cos(),
                5 => a.tan(),
                6 => a.exp(),
                7 => a.ln(),
                8 => a.tanh(),
                9 => a.sigmoid(),
                10 => a.softplus(),
                11 => a.relu(),
                12 => a.lrelu(),
                13 => a.prelu(k),
                14 => a.elu(k),
                15 => a.powf(k),
                16 => a.powi(p.i),
                17 => a + k,
                18 => k + a,
                19 => a - k,
                20 => k - a,
                21 => a * k,
                22 => k * a,
                23 => a / k,
                24 => k / a,
                25 => a.sum(p.dim),
                26 => a.max(p.dim),
                27 => a.min(p.dim),
                28 => a.logsumexp(p.dim),
                29 => a.softmax(p.dim),
                30 => a.ln_softmax(p.dim),
                31 => a.broadcast(p.dim, p.u),
                32 => a.transpose(),
                33 => a.triangular_l(p.u),
                34 => a.triangular_u(p.u),
                35 => a.slice(p.dim, p.lo, p.up),
                36 => return a.split(p.dim, p.u),
                37 => a.pick(&p.ids, p.dim),
                38 => a.reshape(p.shape),
                39 => a.flatten(),
                40 => a.batch_sum(),
                41 => a.batch_slice(p.lo, p.up),
                42 => return a.batch_split(p.u),
                43 => a.batch_pick(&p.ids),
                44 => a.sparse_softmax_cross_entropy(&p.ids, p.dim),
                45 => a + b.unwrap(),
                46 => a - b.unwrap(),
                47 => a * b.unwrap(),
                48 => a / b.unwrap(),
                49 => a.pow(b.unwrap()),
                50 => a.matmul(b.unwrap()),
                51 => <$t>::concat(&[a, b.unwrap()], p.dim),
                52 => <$t>::batch_concat(&[a, b.unwrap()]),
                _ => a.softmax_cross_entropy(b.unwrap(), p.dim),
            };
            vec![y]
        }
    };
}
define_apply!(tensor_op, Tensor<'d>);
define_apply!(node_op, Node<'a, 'd>);

pub fn binary(op: u32) -> bool {
    op >= 45
}

/// Operands and arguments for the operation, everything symbolic that can be. `smooth` keeps away from
/// the points where the operation has no derivative.
pub const AXIAL: &[u32] = &[25, 26, 27, 28, 29, 30, 31, 35, 36, 37, 44, 51, 53];
pub fn setup(op: u32, smooth: bool) -> Case {
    let t = vx::thorough();
    let mut p = P { op, k: vx::f32_finite(), i: 0, dim: 0, u: 0, lo: 0, up: 0, ids: vec![], shape: Shape::new(&[], 1) };
    let shapes: &[&[u32]] = match op {
        0..=24 => if t { &[&[], &[2], &[1, 2], &[2, 2], &[3]] } else { &[&[], &[2], &[1, 2]] },
        28..=30 | 44 | 53 => if t { &[&[], &[2], &[3], &[1, 2], &[2, 2]] } else { &[&[], &[2], &[1, 2]] },
        32 => &[&[], &[2], &[2, 3], &[1, 2], &[3, 2]],
        33 | 34 => &[&[], &[2, 2], &[3, 3]],
        45..=49 => if t { &[&[], &[2], &[1, 2], &[2, 2]] } else { &[&[], &[2], &[1, 2]] },
        50 => &[&[1, 2], &[2, 1], &[2, 2], &[3, 2]],
        _ => if t { &[&[], &[2], &[3], &[1, 2], &[2, 2], &[2, 3], &[1, 1, 2], &[2, 1, 3], &[2, 2, 2]] } else { &[&[], &[2], &[1, 2], &[3, 2], &[2, 1, 2]] },
    };
    let d = if tall() {
        let k = axis(0) as usize;
        let one = op == 31;
        if vx::choose(2) == 0 {
            redim(&redim(&[], if k == 7 { 6 } else { 0 }, 2), k, if one { 1 } else { 2 })
        } else {
            redim(&redim(&[1, if one || t { 3 } else { 1 }], k, 1), if one { 6 } else { 7 }, 2)
        }
    } else {
        vx::pick(shapes).to_vec()
    };
    let (ba, bb) = if binary(op) { if op == 52 { (1 + vx::choose(2), 1 + vx::choose(2)) } else { batches(2) } } else { (batch(if op >= 40 && op < 44 { 4 } else { 2 }), 1) };
    // a scalar on either side
    let side = if op >= 45 && op <= 49 && d.len() > 0 { vx::choose(3) } else { 0 };
    let mut a = Ref::sym(if side == 1 { &[] } else { &d }, ba);
    let dim = |k: u32| if (k as usize) < d.len() { d[k as usize] } else { 1 };
    let ax = |n: u32| if tall() { axis(0) } else { vx::choose(n) };
    let nk = d.len() as u32 + 2;
    match op {
        1 | 7 | 15 => a.v.iter().for_each(|e| vx::assume(*e > 0.)),
        // (softplus is computed by cases, which meet in 0)
        10 | 11 | 12 | 13 | 14 | 2 | 24 => a.v.iter().for_each(|e| vx::assume(*e != 0.)),
        23 => vx::assume(p.k != 0.),
        16 => {
            p.i = vx::pick(&[0, 1, 2, 3, -1, -2]);
            a.v.iter().for_each(|e| vx::assume(*e != 0.));
        }
        25..=30 | 44 | 53 => p.dim = ax(nk.min(if t { 5 } else { 4 })),
        31 => {
            p.dim = ax(nk);
            vx::assume(dim(p.dim) == 1);
            p.u = 1 + vx::choose(3);
        }
        33 | 34 => p.u = vx::u32_in(0, u32::MAX),
        35 => {
            p.dim = ax(nk);
            p.lo = vx::choose(dim(p.dim));
            p.up = p.lo + 1 + vx::choose(dim(p.dim) - p.lo);
        }
        36 => {
            p.dim = ax(nk);
            p.u = 1 + vx::choose(dim(p.dim));
            vx::assume(dim(p.dim) % p.u == 0);
        }
        38 => {
            let n: u32 = d.iter().product();
            p.shape = Shape::new(vx::pick(&[[n, 1, 1], [1, n, 1], [1, 1, n]]).as_slice(), ba);
        }
        41 => {
            p.lo = vx::choose(ba);
            p.up = p.lo + 1 + vx::choose(ba - p.lo);
        }
        42 => {
            p.u = 1 + vx::choose(ba);
            vx::assume(ba % p.u == 0);
        }
        43 => p.ids = (0..1 + vx::choose(3)).map(|_| vx::u32_in(0, ba - 1)).collect(),
        51 => p.dim = ax(nk),
        _ => {}
    }
    if op == 37 {
        p.dim = ax(nk);
    }
    if op == 37 || op == 44 {
        let m = if ba > 1 { vx::pick(&[1, ba]) } else { 1 + vx::choose(2) };
        p.ids = (0..m).map(|_| vx::u32_in(0, dim(p.dim) - 1)).collect();
    }
    if (op == 26 || op == 27) && smooth {
        let k = p.dim as usize;
        Ref::build(&redim(&d, k, 1), ba, &mut |c, s| {
            for i in 0..a.dim(k) {
                for j in 0..i {
                    vx::assume(a.at(&with(c, k, i), s) != a.at(&with(c, k, j), s));
                }
            }
            0.
        });
    }
    let b = if binary(op) {
        let db: Vec<u32> = match op {
            50 => vec![dim(1), 1 + vx::choose(3)],
            51 => redim(&d, p.dim as usize, 1 + vx::choose(2)),
            _ => if side == 2 { vec![] } else { d.clone() },
        };
        let mut b = Ref::sym(&db, bb);
        if op == 48 {
            b.v.iter().for_each(|e| vx::assume(*e != 0.));
        }
        if op == 49 {
            a.v.iter().for_each(|e| vx::assume(*e > 0.));
        }
        if op == 53 && smooth {
            // a distribution: the last entry of each line completes the sum to 1
            let k = p.dim as usize;
            let n = b.dim(k);
            b = Ref::build(&db, bb, &mut |c, s| {
                let q = if k < c.len() { c[k] } else { 0 };
                if q + 1 < n {
                    b.at(c, s)
                } else {
                    let mut r = 1.;
                    for j in 0..n - 1 {
                        r -= b.at(&with(c, k, j), s);
                    }
                    r
                }
            });
        }
        Some(b)
    } else {
        None
    };
    a.d = a.d.clone();
    Case { p, a, b }
}
