//! Exact IEEE-754 queries (SMT FloatingPoint, round to nearest even). libm functions are fresh values
//! constrained by range and bracketing facts that hold for any implementation with an error of a few
//! units in the last place; facts are refined at the points a spurious model picks.
use crate::solver::{Sat, Stats};
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::channel;
use std::time::{Duration, Instant};

fn sort(s: S) -> String {
    match s {
        S::Bool => "Bool".into(),
        S::BV(w) => format!("(_ BitVec {})", w),
        S::F32 => "(_ FloatingPoint 8 24)".into(),
        S::F64 => "(_ FloatingPoint 11 53)".into(),
    }
}
fn fpn(s: S) -> &'static str {
    if s == S::F32 {
        "(_ to_fp 8 24)"
    } else {
        "(_ to_fp 11 53)"
    }
}
fn fconst(s: S, x: f64) -> String {
    if s == S::F32 {
        format!("({} #x{:08x})", fpn(s), (x as f32).to_bits())
    } else {
        format!("({} #x{:016x})", fpn(s), x.to_bits())
    }
}
fn bvc(w: u32, x: u128) -> String {
    format!("(_ bv{} {})", x, w)
}

/// the value moved by k units in the last place (as a value of the sort)
fn nudge(s: S, x: f64, k: i64) -> f64 {
    if x.is_nan() || x.is_infinite() {
        return x;
    }
    fn key32(b: u32) -> i64 {
        if b >> 31 == 1 { -((b & 0x7fffffff) as i64) } else { b as i64 }
    }
    if s == S::F32 {
        let n = key32((x as f32).to_bits()) + k;
        let b = if n < 0 { 0x80000000u32 | (-n) as u32 } else { n as u32 };
        let y = f32::from_bits(b);
        (if y.is_nan() { f32::INFINITY.copysign(y) } else { y }) as f64
    } else {
        let b = x.to_bits();
        let n = if b >> 63 == 1 { -((b & !(1 << 63)) as i128) } else { b as i128 } + k as i128;
        let b = if n < 0 { 1u64 << 63 | (-n) as u64 } else { n as u64 };
        let y = f64::from_bits(b);
        if y.is_nan() { f64::INFINITY.copysign(y) } else { y }
    }
}

fn monotone(id: u128) -> bool {
    matches!(id, FN_EXP | FN_LN | FN_TANH | FN_LN1P | FN_EXPM1 | FN_LOG2 | FN_LOG10 | FN_EXP2 | FN_SINH | FN_ATAN | FN_CBRT | FN_ASIN)
}
fn apply(s: S, id: u128, x: f64) -> f64 {
    if s == S::F32 {
        fun1_f32(id, x as f32) as f64
    } else {
        fun1_f64(id, x)
    }
}
fn exact_at(id: u128) -> Option<f64> {
    match id {
        FN_EXP | FN_TANH | FN_LN1P | FN_EXPM1 | FN_EXP2 | FN_SINH | FN_ATAN | FN_CBRT | FN_ASIN => Some(0.),
        FN_LN | FN_LOG2 | FN_LOG10 => Some(1.),
        _ => None,
    }
}

/// facts y = f(x) at the point c: below c the value is at most f(c), above it at least
fn bracket(out: &mut String, s: S, id: u128, x: &str, y: &str, c: f64) {
    let v = apply(s, id, c);
    if v.is_nan() {
        return;
    }
    let ex = exact_at(id) == Some(c);
    let (lo, hi) = if ex { (v, v) } else { (nudge(s, v, -4), nudge(s, v, 4)) };
    let _ = writeln!(out, "(assert (=> (fp.leq {x} {c}) (or (fp.isNaN {y}) (fp.leq {y} {hi}))))", c = fconst(s, c), hi = fconst(s, hi));
    let _ = writeln!(out, "(assert (=> (fp.leq {c} {x}) (or (fp.isNaN {y}) (fp.leq {lo} {y}))))", c = fconst(s, c), lo = fconst(s, lo));
}

fn facts(out: &mut String, s: S, id: u128, x: &str, y: &str) {
    let z = fconst(s, 0.);
    match id {
        FN_EXP | FN_TANH | FN_EXPM1 | FN_EXP2 | FN_SINH | FN_ATAN | FN_CBRT | FN_COSH => {
            let _ = writeln!(out, "(assert (= (fp.isNaN {y}) (fp.isNaN {x})))");
        }
        FN_LN | FN_LOG2 | FN_LOG10 => {
            let _ = writeln!(out, "(assert (= (fp.isNaN {y}) (or (fp.isNaN {x}) (fp.lt {x} {z}))))");
            let _ = writeln!(out, "(assert (= (and (fp.isInfinite {y}) (fp.isNegative {y})) (fp.isZero {x})))");
            let _ = writeln!(out, "(assert (= (and (fp.isInfinite {y}) (fp.isPositive {y})) (and (fp.isInfinite {x}) (fp.isPositive {x}))))");
        }
        FN_LN1P => {
            let m = fconst(s, -1.);
            let _ = writeln!(out, "(assert (= (fp.isNaN {y}) (or (fp.isNaN {x}) (fp.lt {x} {m}))))");
            let _ = writeln!(out, "(assert (= (and (fp.isInfinite {y}) (fp.isNegative {y})) (fp.eq {x} {m})))");
            let _ = writeln!(out, "(assert (= (and (fp.isInfinite {y}) (fp.isPositive {y})) (and (fp.isInfinite {x}) (fp.isPositive {x}))))");
        }
        FN_SIN | FN_COS => {
            let _ = writeln!(out, "(assert (= (fp.isNaN {y}) (or (fp.isNaN {x}) (fp.isInfinite {x}))))");
            let _ = writeln!(out, "(assert (or (fp.isNaN {y}) (fp.leq (fp.abs {y}) {})))", fconst(s, 1.));
        }
        FN_TAN => {
            let _ = writeln!(out, "(assert (= (fp.isNaN {y}) (or (fp.isNaN {x}) (fp.isInfinite {x}))))");
            let _ = writeln!(out, "(assert (not (fp.isInfinite {y})))");
        }
        _ => {}
    }
    match id {
        FN_EXP | FN_EXP2 => {
            let _ = writeln!(out, "(assert (or (fp.isNaN {y}) (fp.isPositive {y})))");
            let _ = writeln!(out, "(assert (=> (fp.isInfinite {x}) (ite (fp.isPositive {x}) (fp.isInfinite {y}) (fp.isZero {y}))))");
        }
        FN_TANH => {
            let _ = writeln!(out, "(assert (or (fp.isNaN {y}) (fp.leq (fp.abs {y}) {})))", fconst(s, 1.));
            let _ = writeln!(out, "(assert (or (fp.isNaN {y}) (fp.leq (fp.abs {y}) (fp.abs {x}))))");
        }
        FN_EXPM1 => {
            let _ = writeln!(out, "(assert (or (fp.isNaN {y}) (fp.leq {} {y})))", fconst(s, -1.));
            let _ = writeln!(out, "(assert (=> (fp.isInfinite {x}) (ite (fp.isPositive {x}) (fp.isInfinite {y}) (fp.eq {y} {}))))", fconst(s, -1.));
        }
        FN_COSH => {
            let _ = writeln!(out, "(assert (or (fp.isNaN {y}) (fp.leq {} {y})))", fconst(s, 1.));
        }
        _ => {}
    }
    if monotone(id) {
        let mut pts: Vec<f64> = match id {
            FN_LN | FN_LOG2 | FN_LOG10 => {
                if s == S::F32 {
                    vec![f32::from_bits(1) as f64, f32::MIN_POSITIVE as f64, 1e-3, 1., 2., 4., 16., 1e3, f32::MAX as f64]
                } else {
                    vec![f64::from_bits(1), f64::MIN_POSITIVE, 1e-3, 1., 2., 4., 16., 1e3, f32::MAX as f64, f64::MAX]
                }
            }
            FN_LN1P => vec![-0.5, 0., 1., 3., 1e3, if s == S::F32 { f32::MAX as f64 } else { f64::MAX }],
            FN_ASIN => vec![-1., 0., 1.],
            _ => {
                let mut v = vec![-20., -1., 0., 1., 20.];
                if s == S::F32 {
                    v.extend([-104., -87., 88., 88.72284]);
                } else {
                    v.extend([-746., -708., 708., 709.78271289]);
                }
                v
            }
        };
        pts.dedup();
        for c in pts {
            bracket(out, s, id, x, y, if s == S::F32 { c as f32 as f64 } else { c });
        }
    }
}

struct Enc<'a> {
    ar: &'a Arena,
    out: String,
    done: HashSet<u32>,
    vars: Vec<u32>,            // term ids of the variables
    apps: Vec<(u32, u128)>,    // unary applications: term, function
    apps2: Vec<u32>,           // other uninterpreted applications
    ops: Vec<u32>,             // rounded operations
    consts: Vec<f64>,          // bounds that occur in the query
    exact: String,             // their exact definitions
    singles: Vec<String>,      // single precision values that are widened
    truncs: Vec<u32>,          // narrowings
    bad: bool,
}

impl<'a> Enc<'a> {
    fn r(&self, t: u32) -> String {
        let tm = &self.ar.t[t as usize];
        if tm.k == K::Const {
            match tm.s {
                S::Bool => (if tm.imm != 0 { "true" } else { "false" }).to_string(),
                S::BV(w) => bvc(w, tm.imm),
                S::F32 => format!("({} #x{:08x})", fpn(S::F32), tm.imm as u32),
                S::F64 => format!("({} #x{:016x})", fpn(S::F64), tm.imm as u64),
            }
        } else {
            format!("t{}", t)
        }
    }
    fn define(&mut self, t: u32) {
        let mut st = vec![(t, false)];
        while let Some((x, fin)) = st.pop() {
            if self.done.contains(&x) {
                continue;
            }
            let tm = self.ar.t[x as usize].clone();
            if !fin && tm.nargs() > 0 {
                st.push((x, true));
                for a in tm.args() {
                    st.push((*a, false));
                }
                continue;
            }
            self.done.insert(x);
            match tm.k {
                K::Const => {}
                K::Var => {
                    self.vars.push(x);
                    let v = &self.ar.vars[tm.imm as usize];
                    match tm.s {
                        S::F32 | S::F64 => {
                            let w = tm.s.bits();
                            let _ = writeln!(self.out, "(declare-const v{} (_ BitVec {}))", x, w);
                            let _ = writeln!(self.out, "(define-fun t{} () {} ({} v{}))", x, sort(tm.s), fpn(tm.s), x);
                            if !v.any && !v.junk {
                                let _ = writeln!(self.out, "(assert (not (or (fp.isNaN t{x}) (fp.isInfinite t{x}))))");
                            }
                        }
                        s => {
                            let _ = writeln!(self.out, "(declare-const t{} {})", x, sort(s));
                        }
                    }
                }
                _ => self.node(x, &tm),
            }
        }
    }
    fn node(&mut self, x: u32, tm: &Term) {
        let a: Vec<String> = tm.args().iter().map(|y| self.r(*y)).collect();
        let asort = self.ar.sort(tm.a[0]);
        let b2 = |op: &str| format!("({} {} {})", op, a[0], a[1]);
        let rne = |op: &str| format!("({} RNE {})", op, a.join(" "));
        let e = match tm.k {
            K::Add => b2("bvadd"),
            K::Sub => b2("bvsub"),
            K::Mul => b2("bvmul"),
            K::UDiv => b2("bvudiv"),
            K::SDiv => b2("bvsdiv"),
            K::URem => b2("bvurem"),
            K::SRem => b2("bvsrem"),
            K::Shl => b2("bvshl"),
            K::LShr => b2("bvlshr"),
            K::AShr => b2("bvashr"),
            K::And => b2("bvand"),
            K::Or => b2("bvor"),
            K::Xor => b2("bvxor"),
            K::Concat => b2("concat"),
            K::Extract => format!("((_ extract {} {}) {})", tm.imm as u32 + tm.s.bits() - 1, tm.imm, a[0]),
            K::ZExt => format!("((_ zero_extend {}) {})", tm.s.bits() - asort.bits(), a[0]),
            K::SExt => format!("((_ sign_extend {}) {})", tm.s.bits() - asort.bits(), a[0]),
            K::Ite => format!("(ite {} {} {})", a[0], a[1], a[2]),
            K::Not => format!("(not {})", a[0]),
            K::BAnd => b2("and"),
            K::BOr => b2("or"),
            K::Eq => b2("="),
            K::Ult => b2("bvult"),
            K::Ule => b2("bvule"),
            K::Slt => b2("bvslt"),
            K::Sle => b2("bvsle"),
            K::FAdd | K::FSub | K::FMul | K::FDiv | K::FpTrunc => {
                let d = match tm.k {
                    K::FAdd => rne("fp.add"),
                    K::FSub => rne("fp.sub"),
                    K::FMul => rne("fp.mul"),
                    K::FDiv => rne("fp.div"),
                    _ => format!("({} RNE {})", fpn(tm.s), a[0]),
                };
                let y = format!("t{}", x);
                let _ = writeln!(self.out, "(declare-const {} {})", y, sort(tm.s));
                let _ = writeln!(self.exact, "(assert (= {} {}))", y, d);
                self.ops.push(x);
                if tm.k == K::FpTrunc {
                    self.trunc(x, &a[0]);
                } else {
                    lemmas(&mut self.out, tm.k, tm.s, &a[0], &a[1], &y);
                    if matches!(tm.k, K::FAdd | K::FSub) {
                        let mut o = String::new();
                        for c in [1., 2., 4.] {
                            self.at(&mut o, x, c, if tm.k == K::FAdd { c } else { -c });
                            self.at(&mut o, x, -c, if tm.k == K::FAdd { -c } else { c });
                        }
                        for c in self.consts.clone() {
                            for (p, q) in [(c, 1024.), (1024., c), (c, c), (2. * c, 2. * c)] {
                                let q = if tm.k == K::FAdd { q } else { -q };
                                self.at(&mut o, x, p, q);
                                self.at(&mut o, x, -p, -q);
                            }
                        }
                        self.out.push_str(&o);
                    }
                }
                return;
            }
            K::FSqrt => rne("fp.sqrt"),
            K::FNeg => format!("(fp.neg {})", a[0]),
            K::FAbs => format!("(fp.abs {})", a[0]),
            K::FLt => b2("fp.lt"),
            K::FLe => b2("fp.leq"),
            K::FEq => b2("fp.eq"),
            K::FIsNan => format!("(fp.isNaN {})", a[0]),
            K::BitsToF => format!("({} {})", fpn(tm.s), a[0]),
            K::FpExt => {
                let w = format!("({} RNE {})", fpn(tm.s), a[0]);
                let _ = writeln!(self.out, "(define-fun t{} () {} {})", x, sort(tm.s), w);
                for t in self.truncs.clone() {
                    let (b, y) = (self.r(self.ar.t[t as usize].a[0]), format!("t{}", t));
                    around(&mut self.out, &b, &y, &format!("t{}", x), &a[0]);
                }
                self.singles.push(a[0].clone());
                return;
            }
            K::SiToFp => format!("({} RNE {})", fpn(tm.s), a[0]),
            K::UiToFp => format!("((_ to_fp_unsigned {}) RNE {})", if tm.s == S::F32 { "8 24" } else { "11 53" }, a[0]),
            K::FpToSi => format!("((_ fp.to_sbv {}) RTZ {})", tm.s.bits(), a[0]),
            K::FpToUi => format!("((_ fp.to_ubv {}) RTZ {})", tm.s.bits(), a[0]),
            K::FToBits => {
                if self.ar.t[tm.a[0] as usize].k == K::Var {
                    format!("v{}", tm.a[0])
                } else {
                    let _ = writeln!(self.out, "(declare-const t{} {})", x, sort(tm.s));
                    let _ = writeln!(self.out, "(assert (= ({} t{}) {}))", fpn(asort), x, a[0]);
                    return;
                }
            }
            K::FUn if matches!(tm.imm, FN_FLOOR | FN_CEIL | FN_TRUNC | FN_ROUND | FN_RINT) => {
                let m = match tm.imm {
                    FN_FLOOR => "RTN",
                    FN_CEIL => "RTP",
                    FN_TRUNC => "RTZ",
                    FN_ROUND => "RNA",
                    _ => "RNE",
                };
                format!("(fp.roundToIntegral {} {})", m, a[0])
            }
            K::FUn => {
                let y = format!("t{}", x);
                let _ = writeln!(self.out, "(declare-const {} {})", y, sort(tm.s));
                facts(&mut self.out, tm.s, tm.imm, &a[0], &y);
                for (o, id) in &self.apps {
                    let ot = &self.ar.t[*o as usize];
                    if *id == tm.imm && ot.s == tm.s {
                        let _ = writeln!(self.out, "(assert (=> (= {} {}) (= {} t{})))", self.r(ot.a[0]), a[0], y, o);
                    }
                }
                self.apps.push((x, tm.imm));
                return;
            }
            K::FBin | K::PowI => {
                let _ = writeln!(self.out, "(declare-const t{} {})", x, sort(tm.s));
                self.apps2.push(x);
                return;
            }
            K::Const | K::Var => {
                self.bad = true;
                return;
            }
        };
        let _ = writeln!(self.out, "(define-fun t{} () {} {})", x, sort(tm.s), e);
    }
}

/// narrowing keeps the order: y is the narrowed value of b, v the single whose widened value is w
fn around(out: &mut String, b: &str, y: &str, w: &str, v: &str) {
    let _ = writeln!(out, "(assert (=> (fp.leq {b} {w}) (fp.leq {y} {v})))");
    let _ = writeln!(out, "(assert (=> (fp.leq {w} {b}) (fp.leq {v} {y})))");
}

impl<'a> Enc<'a> {
    fn trunc(&mut self, x: u32, a: &str) {
        let y = format!("t{}", x);
        let d = fpn(S::F64);
        let _ = writeln!(self.out, "(assert (= (fp.isNaN {y}) (fp.isNaN {a})))");
        for v in self.singles.clone() {
            around(&mut self.out, a, &y, &format!("({d} RNE {v})"), &v);
        }
        for t in self.truncs.clone() {
            let b = self.r(self.ar.t[t as usize].a[0]);
            let _ = writeln!(self.out, "(assert (=> (fp.leq {b} {a}) (fp.leq t{t} {y})))");
            let _ = writeln!(self.out, "(assert (=> (fp.leq {a} {b}) (fp.leq {y} t{t})))");
        }
        let mut cs = vec![0., 1., -1., f32::MAX as f64, -(f32::MAX as f64)];
        for c in &self.consts {
            cs.extend([*c, -*c]);
        }
        for c in cs {
            around(&mut self.out, a, &y, &fconst(S::F64, c), &fconst(S::F32, c));
        }
        self.truncs.push(x);
    }
    fn val(&self, s: S, b: u128) -> f64 {
        if s == S::F32 {
            f32b(b) as f64
        } else {
            f64b(b)
        }
    }
    /// facts about a rounded operation at the operands p, q
    fn at(&self, out: &mut String, x: u32, p: f64, q: f64) {
        let tm = &self.ar.t[x as usize];
        let s = tm.s;
        let y = format!("t{}", x);
        let a = self.r(tm.a[0]);
        if p.is_nan() || q.is_nan() {
            return;
        }
        if tm.k == K::FpTrunc {
            let v = p as f32;
            let (c, f) = (fconst(S::F64, p), fconst(S::F32, v as f64));
            let _ = writeln!(out, "(assert (=> (fp.leq {a} {c}) (fp.leq {y} {f})))");
            let _ = writeln!(out, "(assert (=> (fp.leq {c} {a}) (fp.leq {f} {y})))");
            return;
        }
        let b = self.r(tm.a[1]);
        let (cp, cq) = (fconst(s, p), fconst(s, q));
        let f = |z: f64| if s == S::F32 { z as f32 as f64 } else { z };
        match tm.k {
            K::FAdd | K::FSub => {
                let v = if tm.k == K::FAdd { p + q } else { p - q };
                // f64 addition of two singles rounds once more: redo it in single precision
                let v = if s == S::F32 { (if tm.k == K::FAdd { p as f32 + q as f32 } else { p as f32 - q as f32 }) as f64 } else { f(v) };
                if v.is_nan() {
                    return;
                }
                let r = fconst(s, v);
                let (up, dn) = if tm.k == K::FAdd { ("fp.leq", "fp.geq") } else { ("fp.geq", "fp.leq") };
                let _ = writeln!(out, "(assert (=> (and (fp.leq {a} {cp}) ({up} {b} {cq}) (not (fp.isNaN {y}))) (fp.leq {y} {r})))");
                let _ = writeln!(out, "(assert (=> (and (fp.geq {a} {cp}) ({dn} {b} {cq}) (not (fp.isNaN {y}))) (fp.geq {y} {r})))");
            }
            _ => {
                let (p, q) = (p.abs(), q.abs());
                let v = if s == S::F32 {
                    (if tm.k == K::FMul { p as f32 * q as f32 } else { p as f32 / q as f32 }) as f64
                } else if tm.k == K::FMul {
                    p * q
                } else {
                    p / q
                };
                if v.is_nan() {
                    return;
                }
                let (cp, cq, r) = (fconst(s, p), fconst(s, q), fconst(s, v));
                let (up, dn) = if tm.k == K::FMul { ("fp.leq", "fp.geq") } else { ("fp.geq", "fp.leq") };
                let _ = writeln!(out, "(assert (=> (and (fp.leq (fp.abs {a}) {cp}) ({up} (fp.abs {b}) {cq}) (not (fp.isNaN {y}))) (fp.leq (fp.abs {y}) {r})))");
                let _ = writeln!(out, "(assert (=> (and (fp.geq (fp.abs {a}) {cp}) ({dn} (fp.abs {b}) {cq}) (not (fp.isNaN {y}))) (fp.geq (fp.abs {y}) {r})))");
            }
        }
    }
}

/// facts of correctly rounded arithmetic, enough for most bounds
fn lemmas(out: &mut String, k: K, s: S, a: &str, b: &str, y: &str) {
    let z = fconst(s, 0.);
    let one = fconst(s, 1.);
    let (half, root) = if s == S::F32 { (f32::MAX as f64 / 2., 1.8e19) } else { (f64::MAX / 2., 1.3e154) };
    let (half, root) = (fconst(s, half), fconst(s, root));
    let fin = |v: &str| format!("(not (or (fp.isNaN {v}) (fp.isInfinite {v})))");
    let (fa, fb) = (fin(a), fin(b));
    let nan = format!("(or (fp.isNaN {a}) (fp.isNaN {b}))");
    match k {
        K::FAdd | K::FSub => {
            let same = format!("(= (fp.isNegative {a}) (fp.isNegative {b}))");
            let clash = if k == K::FAdd { format!("(not {same})") } else { same };
            let _ = writeln!(out, "(assert (= (fp.isNaN {y}) (or {nan} (and (fp.isInfinite {a}) (fp.isInfinite {b}) {clash}))))");
            let nb = if k == K::FAdd { b.to_string() } else { format!("(fp.neg {b})") };
            for (u, v) in [(a, nb.as_str()), (nb.as_str(), a)] {
                let _ = writeln!(out, "(assert (=> (and (fp.geq {u} {z}) (not (fp.isNaN {y}))) (fp.geq {y} {v})))");
                let _ = writeln!(out, "(assert (=> (and (fp.leq {u} {z}) (not (fp.isNaN {y}))) (fp.leq {y} {v})))");
            }
            // the sign of a sum is the sign of the operand of larger size
            let _ = writeln!(out, "(assert (=> (and (fp.leq (fp.neg {nb}) {a}) (not (fp.isNaN {y}))) (fp.geq {y} {z})))");
            let _ = writeln!(out, "(assert (=> (and (fp.leq {a} (fp.neg {nb})) (not (fp.isNaN {y}))) (fp.leq {y} {z})))");
            let _ = writeln!(out, "(assert (=> (and (fp.leq (fp.abs {a}) {half}) (fp.leq (fp.abs {b}) {half})) {}))", fin(y));
            if s == S::F64 {
                let m = fconst(s, f32::MAX as f64);
                let e = fconst(s, 1e20);
                for (u, v) in [(a, nb.as_str()), (nb.as_str(), a)] {
                    let _ = writeln!(out, "(assert (=> (and (fp.leq {u} {m}) (fp.leq {v} {e})) (fp.leq {y} {m})))");
                    let _ = writeln!(out, "(assert (=> (and (fp.geq {u} (fp.neg {m})) (fp.geq {v} (fp.neg {e}))) (fp.geq {y} (fp.neg {m}))))");
                }
            }
        }
        K::FMul => {
            let _ = writeln!(out, "(assert (= (fp.isNaN {y}) (or {nan} (and (fp.isInfinite {a}) (fp.isZero {b})) (and (fp.isZero {a}) (fp.isInfinite {b})))))");
            for (u, v) in [(a, b), (b, a)] {
                let _ = writeln!(out, "(assert (=> (and (fp.leq (fp.abs {u}) {one}) (not (fp.isNaN {y}))) (fp.leq (fp.abs {y}) (fp.abs {v}))))");
                let _ = writeln!(out, "(assert (=> (and (fp.geq (fp.abs {u}) {one}) (not (fp.isNaN {y}))) (fp.geq (fp.abs {y}) (fp.abs {v}))))");
                let _ = writeln!(out, "(assert (=> (and (fp.isZero {u}) (not (fp.isNaN {y}))) (fp.isZero {y})))");
            }
            let _ = writeln!(out, "(assert (=> (and (fp.leq (fp.abs {a}) {root}) (fp.leq (fp.abs {b}) {root})) {}))", fin(y));
        }
        _ => {
            let _ = writeln!(out, "(assert (= (fp.isNaN {y}) (or {nan} (and (fp.isInfinite {a}) (fp.isInfinite {b})) (and (fp.isZero {a}) (fp.isZero {b})))))");
            let _ = writeln!(out, "(assert (=> (and (fp.geq (fp.abs {b}) {one}) (not (fp.isNaN {y}))) (fp.leq (fp.abs {y}) (fp.abs {a}))))");
            let _ = writeln!(out, "(assert (=> (and (fp.leq (fp.abs {b}) {one}) (not (fp.isNaN {y}))) (fp.geq (fp.abs {y}) (fp.abs {a}))))");
            let _ = writeln!(out, "(assert (=> (and (fp.leq (fp.abs {a}) (fp.abs {b})) (not (fp.isNaN {y}))) (fp.leq (fp.abs {y}) {one})))");
            let _ = writeln!(out, "(assert (=> (and (fp.geq (fp.abs {a}) (fp.abs {b})) (not (fp.isNaN {y}))) (fp.geq (fp.abs {y}) {one})))");
            let _ = writeln!(out, "(assert (=> (and (fp.isInfinite {y}) {fa} {fb}) (or (fp.isZero {b}) (fp.lt (fp.abs {b}) {one}))))");
        }
    }
    if matches!(k, K::FMul | K::FDiv) {
        let _ = writeln!(out, "(assert (=> (not (fp.isNaN {y})) (= (fp.isNegative {y}) (xor (fp.isNegative {a}) (fp.isNegative {b})))))");
    }
}

fn spawn(cmd: &[&str], text: &str) -> Option<Child> {
    let mut c = Command::new(cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let mut i = c.stdin.take()?;
    let t = text.to_string();
    std::thread::spawn(move || {
        let _ = i.write_all(t.as_bytes());
    });
    Some(c)
}

/// the first definite answer of the available solvers
fn portfolio(text: &str, secs: u64, all: bool) -> (Sat, Vec<String>, &'static str) {
    let ms = format!("--tlimit={}", secs * 1000);
    let zt = format!("-T:{}", secs);
    let cmds: [(&'static str, Vec<&str>); 3] = [
        ("z3", vec!["z3", "-in", "-smt2", &zt]),
        ("z3-new", vec!["z3-new", "-in", "-smt2", &zt]),
        ("cvc5", vec!["cvc5", "--lang=smt2", "--produce-models", "--fp-exp", &ms]),
    ];
    let (tx, rx) = channel::<(&'static str, Option<Vec<String>>)>();
    let mut procs = vec![];
    for (n, c) in cmds.iter().take(if all { 3 } else { 1 }) {
        if let Some(mut p) = spawn(c, text) {
            let o = p.stdout.take().unwrap();
            let tx = tx.clone();
            let n = *n;
            std::thread::spawn(move || {
                let v: Vec<String> = BufReader::new(o).lines().map_while(Result::ok).collect();
                let _ = tx.send((n, Some(v)));
            });
            procs.push(p);
        }
    }
    drop(tx);
    let end = Instant::now() + Duration::from_secs(secs + 2);
    let mut res = (Sat::Unknown, vec![], "");
    while let Ok((n, v)) = rx.recv_timeout(end.saturating_duration_since(Instant::now())) {
        let v = v.unwrap_or_default();
        match v.first().map(|s| s.trim()) {
            Some("unsat") => {
                res = (Sat::Unsat, v, n);
                break;
            }
            Some("sat") => {
                res = (Sat::Sat, v, n);
                break;
            }
            _ => {}
        }
    }
    for p in procs.iter_mut() {
        let _ = p.kill();
        let _ = p.wait();
    }
    res
}

fn parse_values(lines: &[String]) -> HashMap<String, u128> {
    // ((v3 #x3f800000)) possibly spread over several lines
    let txt: String = lines.iter().skip(1).cloned().collect::<Vec<_>>().join(" ");
    let toks: Vec<String> = txt.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_string()).collect();
    let mut m = HashMap::new();
    for i in 0..toks.len().saturating_sub(1) {
        if !(toks[i].starts_with('v') || toks[i].starts_with('t')) {
            continue;
        }
        let v = &toks[i + 1];
        let val = if let Some(h) = v.strip_prefix("#x") {
            u128::from_str_radix(h, 16).ok()
        } else if let Some(b) = v.strip_prefix("#b") {
            u128::from_str_radix(b, 2).ok()
        } else if v == "true" {
            Some(1)
        } else if v == "false" {
            Some(0)
        } else {
            None
        };
        if let Some(x) = val {
            m.insert(toks[i].clone(), x);
        }
    }
    m
}

/// Is the conjunction satisfiable? Sat comes with an assignment under which it holds concretely;
/// Unknown may come with the last assignment tried.
pub fn decide(ar: &Arena, st: &mut Stats, conds: &[u32], secs: u64) -> (Sat, Option<HashMap<u32, u128>>) {
    let t0 = Instant::now();
    let mut e = Enc { ar, out: String::new(), done: HashSet::new(), vars: vec![], apps: vec![], apps2: vec![], ops: vec![], exact: String::new(), consts: vec![], singles: vec![], truncs: vec![], bad: false };
    // single precision constants compared with something, and large
    for c in conds {
        let mut seen = HashSet::new();
        let mut st = vec![*c];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let tm = &ar.t[x as usize];
            for a in tm.args() {
                st.push(*a);
                if ar.t[*a as usize].k == K::Const && matches!(tm.k, K::FLt | K::FLe) && ar.sort(*a).is_fp() {
                    let v = e.val(ar.sort(*a), ar.t[*a as usize].imm).abs();
                    if v > 1e3 && v < 1.7e38 && !e.consts.contains(&v) && v as f32 as f64 == v {
                        e.consts.push(v);
                    }
                }
            }
        }
    }
    for c in conds {
        e.define(*c);
    }
    if e.bad {
        return (Sat::Unknown, None);
    }
    let mut text = String::from("(set-logic QF_BVFP)\n(set-option :produce-models true)\n");
    text.push_str(&e.out);
    for c in conds {
        let _ = writeln!(text, "(assert {})", e.r(*c));
    }
    let names: Vec<String> = e
        .vars
        .iter()
        .map(|v| if ar.sort(*v).is_fp() { format!("v{}", v) } else { format!("t{}", v) })
        .collect();
    let mut last = None;
    let debug = std::env::var("VX_FPQ").is_ok();
    let end = t0 + Duration::from_secs(secs);
    let mut exact = e.ops.is_empty();
    for round in 0..20 {
        if round == 6 && !exact {
            exact = true;
            text.push_str(&e.exact);
        }
        let left = end.saturating_duration_since(Instant::now()).as_secs();
        if left < 1 {
            break;
        }
        let q = format!("{}(check-sat)\n(get-value ({}))\n", text, if names.is_empty() { "true".to_string() } else { names.join(" ") });
        let t1 = Instant::now();
        let (r, lines, _who) = portfolio(&q, if exact { left } else { left.min(8) }, exact);
        let dt = t1.elapsed().as_secs_f64();
        if debug && dt > 2. {
            eprintln!("fpq round {} exact {} {:?} {} {:.1}s", round, exact, r, _who, dt);
            static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
            let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let _ = std::fs::write(format!("/tmp/fpq_{}.smt2", n), &q);
        }
        st.queries += 1;
        st.time += dt;
        st.max_time = st.max_time.max(dt);
        match r {
            Sat::Unsat => {
                st.unsat += 1;
                return (Sat::Unsat, None);
            }
            Sat::Unknown if !exact => {
                st.unknown += 1;
                exact = true;
                text.push_str(&e.exact);
                continue;
            }
            Sat::Unknown => {
                st.unknown += 1;
                return (Sat::Unknown, last);
            }
            Sat::Sat => st.sat += 1,
        }
        let vals = parse_values(&lines);
        let mut m = HashMap::new();
        for (v, n) in e.vars.iter().zip(&names) {
            if let Some(x) = vals.get(n) {
                m.insert(ar.t[*v as usize].imm as u32, *x);
            }
        }
        let mut memo = HashMap::new();
        let ok = conds.iter().all(|c| ar.eval(*c, &m, &mut memo) != 0);
        last = Some(m.clone());
        if ok {
            return (Sat::Sat, last);
        }
        if e.apps.is_empty() && e.apps2.is_empty() && exact {
            return (Sat::Unknown, last);
        }
        for t in &e.ops {
            let tm = &ar.t[*t as usize];
            let p = e.val(ar.sort(tm.a[0]), ar.eval(tm.a[0], &m, &mut memo));
            let q = if tm.nargs() > 1 { e.val(tm.s, ar.eval(tm.a[1], &m, &mut memo)) } else { 0. };
            e.at(&mut text, *t, p, q);
        }
        // facts at the points this assignment leads to
        for (t, id) in &e.apps {
            let tm = &ar.t[*t as usize];
            let av = ar.eval(tm.a[0], &m, &mut memo);
            let c = if tm.s == S::F32 { f32b(av) as f64 } else { f64b(av) };
            if c.is_nan() {
                continue;
            }
            let (x, y) = (e.r(tm.a[0]), format!("t{}", t));
            if monotone(*id) {
                bracket(&mut text, tm.s, *id, &x, &y, c);
                // and around it
                for k in [-(1i64 << (2 * round)), 1i64 << (2 * round)] {
                    let n = nudge(tm.s, c, k);
                    if n.is_finite() {
                        bracket(&mut text, tm.s, *id, &x, &y, n);
                    }
                }
            } else {
                let v = apply(tm.s, *id, c);
                let _ = writeln!(text, "(assert (=> (= {} {}) (= {} {})))", x, fconst(tm.s, c), y, fconst(tm.s, v));
            }
        }
        for t in &e.apps2 {
            let tm = &ar.t[*t as usize];
            let v = ar.eval(*t, &m, &mut memo);
            let k = |s: S, b: u128| if s == S::F32 { format!("({} #x{:08x})", fpn(s), b as u32) } else { format!("({} #x{:016x})", fpn(s), b as u64) };
            let mut c = String::new();
            for a in tm.args() {
                let b = ar.eval(*a, &m, &mut memo);
                let s = ar.sort(*a);
                let _ = write!(c, "(= {} {}) ", e.r(*a), if s.is_fp() { k(s, b) } else { bvc(s.bits(), b) });
            }
            let _ = writeln!(text, "(assert (=> (and {} true) (= t{} {})))", c, t, k(tm.s, v));
        }
    }
    (Sat::Unknown, last)
}
