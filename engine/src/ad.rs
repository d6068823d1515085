//! Reverse-mode differentiation of terms: the oracle for backward passes.
//!
//! The derivative is taken of the *real implementation's* forward value term, so the oracle never
//! restates what an operation computes.
use crate::term::*;
use std::collections::{HashMap, HashSet};

fn is_zero(ar: &Arena, t: u32) -> bool {
    match ar.as_const(t) {
        Some(c) => match ar.sort(t) {
            S::F32 => f32b(c) == 0.0,
            S::F64 => f64b(c) == 0.0,
            _ => c == 0,
        },
        None => false,
    }
}
fn is_one(ar: &Arena, t: u32) -> bool {
    match ar.as_const(t) {
        Some(c) => match ar.sort(t) {
            S::F32 => f32b(c) == 1.0,
            S::F64 => f64b(c) == 1.0,
            _ => false,
        },
        None => false,
    }
}
pub fn num(ar: &mut Arena, s: S, v: f64) -> u32 {
    match s {
        S::F32 => ar.cst(s, b32(v as f32)),
        _ => ar.cst(s, b64(v)),
    }
}
fn add(ar: &mut Arena, a: u32, b: u32) -> u32 {
    if is_zero(ar, a) {
        b
    } else if is_zero(ar, b) {
        a
    } else {
        ar.bin(K::FAdd, a, b)
    }
}
fn mul(ar: &mut Arena, a: u32, b: u32) -> u32 {
    if is_zero(ar, a) || is_one(ar, b) {
        a
    } else if is_zero(ar, b) || is_one(ar, a) {
        b
    } else {
        ar.bin(K::FMul, a, b)
    }
}
fn neg(ar: &mut Arena, a: u32) -> u32 {
    if is_zero(ar, a) {
        return a;
    }
    let s = ar.sort(a);
    ar.un(K::FNeg, s, 0, a)
}

/// Vector-Jacobian product: sum over i of gt[i] * d yt[i] / d xt[j], for every j.
pub fn vjp(ar: &mut Arena, yt: &[u32], gt: &[u32], xt: &[u32]) -> Result<Vec<u32>, String> {
    let leaves: HashSet<u32> = xt.iter().copied().collect();
    // post-order over float nodes
    let mut order = vec![];
    let mut seen = HashSet::new();
    let mut st: Vec<(u32, bool)> = yt.iter().rev().map(|y| (*y, false)).collect();
    while let Some((x, done)) = st.pop() {
        if done {
            order.push(x);
            continue;
        }
        if !seen.insert(x) {
            continue;
        }
        st.push((x, true));
        if leaves.contains(&x) {
            continue;
        }
        let tm = &ar.t[x as usize];
        for a in tm.args() {
            if ar.sort(*a).is_fp() && !seen.contains(a) {
                st.push((*a, false));
            }
        }
    }
    let mut adj: HashMap<u32, u32> = HashMap::new();
    let acc = |ar: &mut Arena, adj: &mut HashMap<u32, u32>, x: u32, v: u32| {
        let n = match adj.get(&x) {
            Some(o) => add(ar, *o, v),
            None => v,
        };
        adj.insert(x, n);
    };
    for (y, g) in yt.iter().zip(gt) {
        acc(ar, &mut adj, *y, *g);
    }
    for x in order.into_iter().rev() {
        if leaves.contains(&x) {
            continue;
        }
        let g = match adj.get(&x) {
            Some(g) => *g,
            None => continue,
        };
        if is_zero(ar, g) {
            continue;
        }
        let tm = ar.t[x as usize].clone();
        let s = tm.s;
        match tm.k {
            K::Const | K::Var => {}
            K::FAdd => {
                acc(ar, &mut adj, tm.a[0], g);
                acc(ar, &mut adj, tm.a[1], g);
            }
            K::FSub => {
                acc(ar, &mut adj, tm.a[0], g);
                let n = neg(ar, g);
                acc(ar, &mut adj, tm.a[1], n);
            }
            K::FMul => {
                let p = mul(ar, g, tm.a[1]);
                acc(ar, &mut adj, tm.a[0], p);
                let q = mul(ar, g, tm.a[0]);
                acc(ar, &mut adj, tm.a[1], q);
            }
            K::FDiv => {
                let p = ar.bin(K::FDiv, g, tm.a[1]);
                acc(ar, &mut adj, tm.a[0], p);
                let q = mul(ar, p, x);
                let q = neg(ar, q);
                acc(ar, &mut adj, tm.a[1], q);
            }
            K::FNeg => {
                let n = neg(ar, g);
                acc(ar, &mut adj, tm.a[0], n);
            }
            K::FAbs => {
                let z = num(ar, s, 0.0);
                let c = ar.bin(K::FLt, tm.a[0], z);
                let n = neg(ar, g);
                let v = ar.ite(c, n, g);
                acc(ar, &mut adj, tm.a[0], v);
            }
            K::FSqrt => {
                let two = num(ar, s, 2.0);
                let d = ar.bin(K::FMul, two, x);
                let v = ar.bin(K::FDiv, g, d);
                acc(ar, &mut adj, tm.a[0], v);
            }
            K::Ite => {
                let z = num(ar, s, 0.0);
                let p = ar.ite(tm.a[0], g, z);
                let q = ar.ite(tm.a[0], z, g);
                acc(ar, &mut adj, tm.a[1], p);
                acc(ar, &mut adj, tm.a[2], q);
            }
            K::FpExt => {
                let v = ar.un(K::FpTrunc, S::F32, 0, g);
                acc(ar, &mut adj, tm.a[0], v);
            }
            K::FpTrunc => {
                let v = ar.un(K::FpExt, S::F64, 0, g);
                acc(ar, &mut adj, tm.a[0], v);
            }
            K::PowI => {
                let n = tm.imm as u32 as i32;
                if n == 0 {
                    continue;
                }
                let c = num(ar, s, n as f64);
                let m1 = if n == i32::MIN { return Err("derivative of powi with the smallest exponent".into()) } else { n - 1 };
                let p = if m1 == 0 { num(ar, s, 1.0) } else { ar.un(K::PowI, s, m1 as u32 as u128, tm.a[0]) };
                let v = mul(ar, c, p);
                let v = mul(ar, g, v);
                acc(ar, &mut adj, tm.a[0], v);
            }
            K::FUn => {
                let a = tm.a[0];
                let one = num(ar, s, 1.0);
                let d = match tm.imm {
                    FN_EXP => x,
                    FN_LN => ar.bin(K::FDiv, one, a),
                    FN_SIN => ar.un(K::FUn, s, FN_COS, a),
                    FN_COS => {
                        let v = ar.un(K::FUn, s, FN_SIN, a);
                        neg(ar, v)
                    }
                    FN_TAN => {
                        let q = ar.bin(K::FMul, x, x);
                        ar.bin(K::FAdd, one, q)
                    }
                    FN_TANH => {
                        let q = ar.bin(K::FMul, x, x);
                        ar.bin(K::FSub, one, q)
                    }
                    FN_LN1P => {
                        let q = ar.bin(K::FAdd, one, a);
                        ar.bin(K::FDiv, one, q)
                    }
                    FN_EXPM1 => ar.bin(K::FAdd, x, one),
                    FN_SINH => ar.un(K::FUn, s, FN_COSH, a),
                    FN_COSH => ar.un(K::FUn, s, FN_SINH, a),
                    FN_FLOOR | FN_CEIL | FN_ROUND | FN_TRUNC | FN_RINT => continue,
                    FN_LOG2 => {
                        let c = num(ar, s, std::f64::consts::LN_2);
                        let q = ar.bin(K::FMul, a, c);
                        ar.bin(K::FDiv, one, q)
                    }
                    FN_LOG10 => {
                        let c = num(ar, s, std::f64::consts::LN_10);
                        let q = ar.bin(K::FMul, a, c);
                        ar.bin(K::FDiv, one, q)
                    }
                    FN_EXP2 => {
                        let c = num(ar, s, std::f64::consts::LN_2);
                        ar.bin(K::FMul, x, c)
                    }
                    FN_CBRT => {
                        let q = ar.bin(K::FMul, x, x);
                        let th = num(ar, s, 3.0);
                        let q = ar.bin(K::FMul, th, q);
                        ar.bin(K::FDiv, one, q)
                    }
                    i => return Err(format!("derivative of {}", FN_NAMES[i as usize])),
                };
                let v = mul(ar, g, d);
                acc(ar, &mut adj, a, v);
            }
            K::FBin if tm.imm == FB_POW => {
                let (a, b) = (tm.a[0], tm.a[1]);
                if ar.as_const(a).is_none() {
                    let one = num(ar, s, 1.0);
                    let bm = ar.bin(K::FSub, b, one);
                    let p = ar.fbin(FB_POW, a, bm);
                    let v = mul(ar, b, p);
                    let v = mul(ar, g, v);
                    acc(ar, &mut adj, a, v);
                }
                if ar.as_const(b).is_none() {
                    let l = ar.un(K::FUn, s, FN_LN, a);
                    let v = mul(ar, l, x);
                    let v = mul(ar, g, v);
                    acc(ar, &mut adj, b, v);
                }
            }
            K::SiToFp | K::UiToFp | K::BitsToF => {}
            k => return Err(format!("derivative of {:?}", k)),
        }
    }
    let mut out = vec![];
    for x in xt {
        let s = ar.sort(*x);
        let v = match adj.get(x) {
            Some(v) => *v,
            None => num(ar, s, 0.0),
        };
        out.push(v);
    }
    Ok(out)
}
