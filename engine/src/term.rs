//! Hash-consed terms: the symbolic values of the executor.
use crate::ir::{mask, sext};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum S {
    Bool,
    BV(u32),
    F32,
    F64,
}
impl S {
    pub fn bits(self) -> u32 {
        match self {
            S::Bool => 1,
            S::BV(n) => n,
            S::F32 => 32,
            S::F64 => 64,
        }
    }
    pub fn is_fp(self) -> bool {
        matches!(self, S::F32 | S::F64)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const,
    Var,
    // bit vectors
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Concat,
    Extract, // imm = lo; width from the sort
    ZExt,
    SExt,
    Ite,
    // predicates
    Not, BAnd, BOr, Eq, Ult, Ule, Slt, Sle,
    // floats
    FAdd, FSub, FMul, FDiv, FNeg, FAbs, FSqrt, FLt, FLe, FEq, FIsNan,
    FUn,  // imm = function id
    FBin, // imm = function id
    PowI, // imm = exponent as i32 bits
    FToBits, BitsToF, FpExt, FpTrunc, SiToFp, UiToFp, FpToSi, FpToUi,
}

pub const FN_EXP: u128 = 0;
pub const FN_LN: u128 = 1;
pub const FN_SIN: u128 = 2;
pub const FN_COS: u128 = 3;
pub const FN_TAN: u128 = 4;
pub const FN_TANH: u128 = 5;
pub const FN_LN1P: u128 = 6;
pub const FN_EXPM1: u128 = 7;
pub const FN_FLOOR: u128 = 8;
pub const FN_CEIL: u128 = 9;
pub const FN_ROUND: u128 = 10;
pub const FN_TRUNC: u128 = 11;
pub const FN_LOG2: u128 = 12;
pub const FN_LOG10: u128 = 13;
pub const FN_EXP2: u128 = 14;
pub const FN_SINH: u128 = 15;
pub const FN_COSH: u128 = 16;
pub const FN_ASIN: u128 = 17;
pub const FN_ACOS: u128 = 18;
pub const FN_ATAN: u128 = 19;
pub const FN_CBRT: u128 = 20;
pub const FN_RINT: u128 = 21;
pub const FN_NAMES: &[&str] = &[
    "exp", "ln", "sin", "cos", "tan", "tanh", "ln1p", "expm1", "floor", "ceil", "round", "trunc", "log2", "log10", "exp2",
    "sinh", "cosh", "asin", "acos", "atan", "cbrt", "rint",
];
pub const FB_POW: u128 = 0;
pub const FB_ATAN2: u128 = 1;
pub const FB_FMOD: u128 = 2;
pub const FB_HYPOT: u128 = 3;
pub const FB_NAMES: &[&str] = &["pow", "atan2", "fmod", "hypot"];

pub fn fun1_f64(id: u128, x: f64) -> f64 {
    match id {
        FN_EXP => x.exp(),
        FN_LN => x.ln(),
        FN_SIN => x.sin(),
        FN_COS => x.cos(),
        FN_TAN => x.tan(),
        FN_TANH => x.tanh(),
        FN_LN1P => x.ln_1p(),
        FN_EXPM1 => x.exp_m1(),
        FN_FLOOR => x.floor(),
        FN_CEIL => x.ceil(),
        FN_ROUND => x.round(),
        FN_TRUNC => x.trunc(),
        FN_LOG2 => x.log2(),
        FN_LOG10 => x.log10(),
        FN_EXP2 => x.exp2(),
        FN_SINH => x.sinh(),
        FN_COSH => x.cosh(),
        FN_ASIN => x.asin(),
        FN_ACOS => x.acos(),
        FN_ATAN => x.atan(),
        FN_CBRT => x.cbrt(),
        FN_RINT => x.round_ties_even(),
        _ => panic!("fun1"),
    }
}
pub fn fun1_f32(id: u128, x: f32) -> f32 {
    match id {
        FN_EXP => x.exp(),
        FN_LN => x.ln(),
        FN_SIN => x.sin(),
        FN_COS => x.cos(),
        FN_TAN => x.tan(),
        FN_TANH => x.tanh(),
        FN_LN1P => x.ln_1p(),
        FN_EXPM1 => x.exp_m1(),
        FN_FLOOR => x.floor(),
        FN_CEIL => x.ceil(),
        FN_ROUND => x.round(),
        FN_TRUNC => x.trunc(),
        FN_LOG2 => x.log2(),
        FN_LOG10 => x.log10(),
        FN_EXP2 => x.exp2(),
        FN_SINH => x.sinh(),
        FN_COSH => x.cosh(),
        FN_ASIN => x.asin(),
        FN_ACOS => x.acos(),
        FN_ATAN => x.atan(),
        FN_CBRT => x.cbrt(),
        FN_RINT => x.round_ties_even(),
        _ => panic!("fun1"),
    }
}
pub fn fun2_f64(id: u128, x: f64, y: f64) -> f64 {
    match id {
        FB_POW => x.powf(y),
        FB_ATAN2 => x.atan2(y),
        FB_FMOD => x % y,
        FB_HYPOT => x.hypot(y),
        _ => panic!("fun2"),
    }
}
pub fn fun2_f32(id: u128, x: f32, y: f32) -> f32 {
    match id {
        FB_POW => x.powf(y),
        FB_ATAN2 => x.atan2(y),
        FB_FMOD => x % y,
        FB_HYPOT => x.hypot(y),
        _ => panic!("fun2"),
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Term {
    pub k: K,
    pub s: S,
    pub a: [u32; 3],
    pub imm: u128,
}

pub const NOARG: u32 = u32::MAX;

impl Term {
    pub fn nargs(&self) -> usize {
        self.a.iter().take_while(|x| **x != NOARG).count()
    }
    pub fn args(&self) -> &[u32] {
        &self.a[..self.nargs()]
    }
}

pub struct VarInfo {
    pub name: String,
    pub sort: S,
    /// junk: content of memory that was never written
    pub junk: bool,
    /// any float bit pattern allowed (otherwise finite)
    pub any: bool,
    /// value used when an assignment does not mention the variable
    pub def: u128,
}

pub struct Arena {
    pub t: Vec<Term>,
    map: HashMap<Term, u32>,
    pub vars: Vec<VarInfo>,
    var_terms: Vec<u32>,
    /// finite mode: no value is ever a NaN
    pub finite: bool,
}

pub fn f32b(b: u128) -> f32 {
    f32::from_bits(b as u32)
}
pub fn f64b(b: u128) -> f64 {
    f64::from_bits(b as u64)
}
pub fn b32(f: f32) -> u128 {
    f.to_bits() as u128
}
pub fn b64(f: f64) -> u128 {
    f.to_bits() as u128
}

/// Concrete semantics of every operation; shared by folding, evaluation and replay.
pub fn fold(k: K, s: S, imm: u128, asort: S, v: &[u128]) -> u128 {
    let w = asort.bits();
    let m = mask(s.bits());
    let fp2 = |f32o: fn(f32, f32) -> f32, f64o: fn(f64, f64) -> f64| -> u128 {
        match s {
            S::F32 => b32(f32o(f32b(v[0]), f32b(v[1]))),
            _ => b64(f64o(f64b(v[0]), f64b(v[1]))),
        }
    };
    let fcmp = |f32o: fn(f32, f32) -> bool, f64o: fn(f64, f64) -> bool| -> u128 {
        (match asort {
            S::F32 => f32o(f32b(v[0]), f32b(v[1])),
            _ => f64o(f64b(v[0]), f64b(v[1])),
        }) as u128
    };
    match k {
        K::Const | K::Var => panic!("fold leaf"),
        K::Add => v[0].wrapping_add(v[1]) & m,
        K::Sub => v[0].wrapping_sub(v[1]) & m,
        K::Mul => v[0].wrapping_mul(v[1]) & m,
        K::UDiv => {
            if v[1] == 0 {
                m
            } else {
                v[0] / v[1]
            }
        }
        K::URem => {
            if v[1] == 0 {
                v[0]
            } else {
                v[0] % v[1]
            }
        }
        K::SDiv => {
            let (a, b) = (sext(v[0], w), sext(v[1], w));
            if b == 0 {
                if a >= 0 {
                    m
                } else {
                    1
                }
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        K::SRem => {
            let (a, b) = (sext(v[0], w), sext(v[1], w));
            if b == 0 {
                v[0]
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        K::Shl => {
            if v[1] >= w as u128 {
                0
            } else {
                (v[0] << v[1]) & m
            }
        }
        K::LShr => {
            if v[1] >= w as u128 {
                0
            } else {
                v[0] >> v[1]
            }
        }
        K::AShr => {
            let a = sext(v[0], w);
            let sh = v[1].min(w as u128 - 1);
            ((a >> sh) as u128) & m
        }
        K::And => v[0] & v[1],
        K::Or => v[0] | v[1],
        K::Xor => v[0] ^ v[1],
        K::Concat => panic!("fold concat needs widths"),
        K::Extract => (v[0] >> imm) & m,
        K::ZExt => v[0],
        K::SExt => (sext(v[0], w) as u128) & m,
        K::Ite => {
            if v[0] != 0 {
                v[1]
            } else {
                v[2]
            }
        }
        K::Not => (v[0] == 0) as u128,
        K::BAnd => v[0] & v[1],
        K::BOr => v[0] | v[1],
        K::Eq => (v[0] == v[1]) as u128,
        K::Ult => (v[0] < v[1]) as u128,
        K::Ule => (v[0] <= v[1]) as u128,
        K::Slt => (sext(v[0], w) < sext(v[1], w)) as u128,
        K::Sle => (sext(v[0], w) <= sext(v[1], w)) as u128,
        K::FAdd => fp2(|a, b| a + b, |a, b| a + b),
        K::FSub => fp2(|a, b| a - b, |a, b| a - b),
        K::FMul => fp2(|a, b| a * b, |a, b| a * b),
        K::FDiv => fp2(|a, b| a / b, |a, b| a / b),
        K::FNeg => match s {
            S::F32 => v[0] ^ 0x8000_0000,
            _ => v[0] ^ (1 << 63),
        },
        K::FAbs => match s {
            S::F32 => v[0] & 0x7fff_ffff,
            _ => v[0] & !(1 << 63),
        },
        K::FSqrt => match s {
            S::F32 => b32(f32b(v[0]).sqrt()),
            _ => b64(f64b(v[0]).sqrt()),
        },
        K::FLt => fcmp(|a, b| a < b, |a, b| a < b),
        K::FLe => fcmp(|a, b| a <= b, |a, b| a <= b),
        K::FEq => fcmp(|a, b| a == b, |a, b| a == b),
        K::FIsNan => (match asort {
            S::F32 => f32b(v[0]).is_nan(),
            _ => f64b(v[0]).is_nan(),
        }) as u128,
        K::FUn => match s {
            S::F32 => b32(fun1_f32(imm, f32b(v[0]))),
            _ => b64(fun1_f64(imm, f64b(v[0]))),
        },
        K::FBin => match s {
            S::F32 => b32(fun2_f32(imm, f32b(v[0]), f32b(v[1]))),
            _ => b64(fun2_f64(imm, f64b(v[0]), f64b(v[1]))),
        },
        K::PowI => match s {
            S::F32 => b32(f32b(v[0]).powi(imm as u32 as i32)),
            _ => b64(f64b(v[0]).powi(imm as u32 as i32)),
        },
        K::FToBits | K::BitsToF => v[0],
        K::FpExt => b64(f32b(v[0]) as f64),
        K::FpTrunc => b32(f64b(v[0]) as f32),
        K::SiToFp => {
            let a = sext(v[0], w);
            match s {
                S::F32 => b32(a as f32),
                _ => b64(a as f64),
            }
        }
        K::UiToFp => match s {
            S::F32 => b32(v[0] as f32),
            _ => b64(v[0] as f64),
        },
        K::FpToSi => {
            let d = match asort {
                S::F32 => f32b(v[0]) as f64,
                _ => f64b(v[0]),
            };
            let wb = s.bits();
            let lo = -(2f64.powi(wb as i32 - 1));
            let hi = 2f64.powi(wb as i32 - 1);
            let r: i128 = if d.is_nan() {
                0
            } else if d <= lo {
                -(1i128 << (wb - 1))
            } else if d >= hi {
                (1i128 << (wb - 1)) - 1
            } else {
                d as i128
            };
            (r as u128) & m
        }
        K::FpToUi => {
            let d = match asort {
                S::F32 => f32b(v[0]) as f64,
                _ => f64b(v[0]),
            };
            let wb = s.bits();
            let hi = 2f64.powi(wb as i32);
            if d.is_nan() || d <= 0.0 {
                0
            } else if d >= hi {
                m
            } else {
                d as u128
            }
        }
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { t: vec![], map: HashMap::new(), vars: vec![], var_terms: vec![], finite: true };
        a.cst(S::Bool, 0); // FALSE = 0
        a.cst(S::Bool, 1); // TRUE = 1
        a
    }
    pub const FALSE: u32 = 0;
    pub const TRUE: u32 = 1;

    pub fn intern(&mut self, t: Term) -> u32 {
        if let Some(i) = self.map.get(&t) {
            return *i;
        }
        let id = self.t.len() as u32;
        self.t.push(t.clone());
        self.map.insert(t, id);
        id
    }
    pub fn cst(&mut self, s: S, v: u128) -> u32 {
        self.intern(Term { k: K::Const, s, a: [NOARG; 3], imm: v & mask(s.bits()) })
    }
    pub fn new_var(&mut self, name: String, s: S, junk: bool, any: bool, def: u128) -> u32 {
        let id = self.vars.len();
        self.vars.push(VarInfo { name, sort: s, junk, any, def });
        let t = self.t.len() as u32;
        self.var_terms.push(t);
        self.intern(Term { k: K::Var, s, a: [NOARG; 3], imm: id as u128 })
    }
    pub fn var_term(&self, v: u32) -> u32 {
        self.var_terms[v as usize]
    }
    pub fn sort(&self, t: u32) -> S {
        self.t[t as usize].s
    }
    pub fn as_const(&self, t: u32) -> Option<u128> {
        let x = &self.t[t as usize];
        if x.k == K::Const {
            Some(x.imm)
        } else {
            None
        }
    }
    fn ite_consts(&self, t: u32) -> Option<(u32, u128, u128)> {
        let x = &self.t[t as usize];
        if x.k == K::Ite {
            if let (Some(a), Some(b)) = (self.as_const(x.a[1]), self.as_const(x.a[2])) {
                return Some((x.a[0], a, b));
            }
        }
        None
    }

    pub fn not(&mut self, a: u32) -> u32 {
        if a == Self::FALSE {
            return Self::TRUE;
        }
        if a == Self::TRUE {
            return Self::FALSE;
        }
        if self.t[a as usize].k == K::Not {
            return self.t[a as usize].a[0];
        }
        self.intern(Term { k: K::Not, s: S::Bool, a: [a, NOARG, NOARG], imm: 0 })
    }
    pub fn and(&mut self, a: u32, b: u32) -> u32 {
        if a == Self::FALSE || b == Self::FALSE {
            return Self::FALSE;
        }
        if a == Self::TRUE || a == b {
            return b;
        }
        if b == Self::TRUE {
            return a;
        }
        let (a, b) = (a.min(b), a.max(b));
        self.intern(Term { k: K::BAnd, s: S::Bool, a: [a, b, NOARG], imm: 0 })
    }
    pub fn or(&mut self, a: u32, b: u32) -> u32 {
        if a == Self::TRUE || b == Self::TRUE {
            return Self::TRUE;
        }
        if a == Self::FALSE || a == b {
            return b;
        }
        if b == Self::FALSE {
            return a;
        }
        let (a, b) = (a.min(b), a.max(b));
        self.intern(Term { k: K::BOr, s: S::Bool, a: [a, b, NOARG], imm: 0 })
    }
    pub fn eq(&mut self, a: u32, b: u32) -> u32 {
        if a == b {
            return Self::TRUE;
        }
        if self.sort(a) == S::Bool {
            if a == Self::TRUE {
                return b;
            }
            if b == Self::TRUE {
                return a;
            }
            if a == Self::FALSE {
                return self.not(b);
            }
            if b == Self::FALSE {
                return self.not(a);
            }
        }
        self.bin(K::Eq, a, b)
    }
    pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
        if c == Self::TRUE || a == b {
            return a;
        }
        if c == Self::FALSE {
            return b;
        }
        if self.t[c as usize].k == K::Not {
            let c2 = self.t[c as usize].a[0];
            return self.ite(c2, b, a);
        }
        let s = self.sort(a);
        if s == S::Bool {
            if a == Self::TRUE {
                return self.or(c, b);
            }
            if a == Self::FALSE {
                let n = self.not(c);
                return self.and(n, b);
            }
            if b == Self::FALSE {
                return self.and(c, a);
            }
            if b == Self::TRUE {
                let n = self.not(c);
                return self.or(n, a);
            }
        }
        self.intern(Term { k: K::Ite, s, a: [c, a, b], imm: 0 })
    }

    /// Binary operations whose result sort is the operand sort, and comparisons.
    pub fn bin(&mut self, k: K, a: u32, b: u32) -> u32 {
        let sa = self.sort(a);
        let s = match k {
            K::Eq | K::Ult | K::Ule | K::Slt | K::Sle | K::FLt | K::FLe | K::FEq => S::Bool,
            _ => sa,
        };
        debug_assert_eq!(sa, self.sort(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = fold(k, s, 0, sa, &[x, y]);
            return self.cst(s, r);
        }
        // lift over ite of constants
        if !sa.is_fp() || matches!(k, K::FLt | K::FLe | K::FEq) {
            if let (Some((c, x, y)), Some(z)) = (self.ite_consts(a), cb) {
                let t = fold(k, s, 0, sa, &[x, z]);
                let e = fold(k, s, 0, sa, &[y, z]);
                let (t, e) = (self.cst(s, t), self.cst(s, e));
                return self.ite(c, t, e);
            }
            if let (Some(z), Some((c, x, y))) = (ca, self.ite_consts(b)) {
                let t = fold(k, s, 0, sa, &[z, x]);
                let e = fold(k, s, 0, sa, &[z, y]);
                let (t, e) = (self.cst(s, t), self.cst(s, e));
                return self.ite(c, t, e);
            }
        }
        let m = if sa.is_fp() { 0 } else { mask(sa.bits()) };
        match k {
            K::Add => {
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                if ca.is_some() {
                    return self.bin(k, b, a);
                }
                if let Some(y) = cb {
                    let ta = self.t[a as usize].clone();
                    if ta.k == K::Add {
                        if let Some(z) = self.as_const(ta.a[1]) {
                            let c = self.cst(sa, y.wrapping_add(z));
                            return self.bin(K::Add, ta.a[0], c);
                        }
                    }
                }
            }
            K::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(sa, 0);
                }
                if let Some(y) = cb {
                    let c = self.cst(sa, y.wrapping_neg());
                    return self.bin(K::Add, a, c);
                }
            }
            K::Mul => {
                if ca == Some(1) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if ca == Some(0) || cb == Some(0) {
                    return self.cst(sa, 0);
                }
                if ca.is_some() {
                    return self.bin(k, b, a);
                }
            }
            K::UDiv | K::SDiv if cb == Some(1) => return a,
            K::Shl | K::LShr | K::AShr if cb == Some(0) => return a,
            K::And => {
                if ca == Some(0) || cb == Some(0) {
                    return self.cst(sa, 0);
                }
                if ca == Some(m) || a == b {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
            }
            K::Or => {
                if ca == Some(0) || a == b {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
            }
            K::Xor => {
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(sa, 0);
                }
            }
            K::Eq | K::Ule | K::Sle if a == b => return Self::TRUE,
            K::Ult | K::Slt if a == b => return Self::FALSE,
            K::Ult if cb == Some(0) => return Self::FALSE,
            K::Ult if ca == Some(m) => return Self::FALSE,
            K::Ule if ca == Some(0) => return Self::TRUE,
            K::Ule if cb == Some(m) => return Self::TRUE,
            K::FLt if a == b => return Self::FALSE,
            K::FEq | K::FLe if a == b && self.finite && self.t[a as usize].k != K::Var => return Self::TRUE,
            // finite mode: a computed value is not an infinity either
            K::FEq | K::FLe | K::FLt if self.finite && self.is_inf(a) && self.no_inf(b) => {
                let neg = self.is_neg(ca.unwrap(), sa);
                return if neg && k != K::FEq { Self::TRUE } else { Self::FALSE };
            }
            K::FEq | K::FLe | K::FLt if self.finite && self.is_inf(b) && self.no_inf(a) => {
                let neg = self.is_neg(cb.unwrap(), sa);
                return if !neg && k != K::FEq { Self::TRUE } else { Self::FALSE };
            }
            _ => {}
        }
        // zext(x) == const / compare with const that fits: compare in the narrow width
        if matches!(k, K::Eq | K::Ult | K::Ule) {
            let ta = self.t[a as usize].clone();
            let tb = self.t[b as usize].clone();
            if ta.k == K::ZExt && tb.k == K::ZExt && self.sort(ta.a[0]) == self.sort(tb.a[0]) {
                return self.bin(k, ta.a[0], tb.a[0]);
            }
            if ta.k == K::ZExt {
                if let Some(y) = cb {
                    let w = self.sort(ta.a[0]);
                    if y <= mask(w.bits()) {
                        let c = self.cst(w, y);
                        return self.bin(k, ta.a[0], c);
                    }
                    return if k == K::Eq { Self::FALSE } else { Self::TRUE };
                }
            }
            if tb.k == K::ZExt {
                if let Some(y) = ca {
                    let w = self.sort(tb.a[0]);
                    if y <= mask(w.bits()) {
                        let c = self.cst(w, y);
                        return self.bin(k, c, tb.a[0]);
                    }
                    return Self::FALSE;
                }
            }
        }
        // Commutative canonical order. IEEE addition and multiplication are commutative up to NaN payloads.
        let (a, b) = match k {
            K::Add | K::Mul | K::And | K::Or | K::Xor if ca.is_none() && cb.is_none() => (a.min(b), a.max(b)),
            K::Eq | K::FAdd | K::FMul | K::FEq => (a.min(b), a.max(b)),
            _ => (a, b),
        };
        self.intern(Term { k, s, a: [a, b, NOARG], imm: 0 })
    }

    fn is_inf(&self, a: u32) -> bool {
        match self.as_const(a) {
            Some(c) if self.sort(a).bits() == 32 => f32b(c).is_infinite(),
            Some(c) if self.sort(a).bits() == 64 => f64b(c).is_infinite(),
            _ => false,
        }
    }
    fn is_neg(&self, c: u128, s: S) -> bool {
        c >> (s.bits() - 1) & 1 == 1
    }
    /// computed from finite variables and constants by operations on floats only
    fn no_inf(&self, a: u32) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![a];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let t = &self.t[x as usize];
            match t.k {
                K::Const => {
                    let fin = if t.s.bits() == 32 { f32b(t.imm).is_finite() } else { f64b(t.imm).is_finite() };
                    if !fin {
                        return false;
                    }
                }
                K::Var => {
                    let v = &self.vars[t.imm as usize];
                    if v.any || v.junk {
                        return false;
                    }
                }
                K::SiToFp | K::UiToFp => (),
                K::Ite => st.extend_from_slice(&t.a[1..3]),
                K::FAdd | K::FSub | K::FMul | K::FDiv | K::FBin | K::FNeg | K::FAbs | K::FSqrt | K::FUn | K::PowI | K::FpExt | K::FpTrunc => {
                    st.extend_from_slice(t.args())
                }
                _ => return false,
            }
        }
        true
    }

    pub fn un(&mut self, k: K, s: S, imm: u128, a: u32) -> u32 {
        let sa = self.sort(a);
        if let Some(x) = self.as_const(a) {
            let r = fold(k, s, imm, sa, &[x]);
            return self.cst(s, r);
        }
        let ta = self.t[a as usize].clone();
        if let Some((c, x, y)) = self.ite_consts(a) {
            let t = fold(k, s, imm, sa, &[x]);
            let e = fold(k, s, imm, sa, &[y]);
            let (t, e) = (self.cst(s, t), self.cst(s, e));
            return self.ite(c, t, e);
        }
        match k {
            K::FNeg if ta.k == K::FNeg => return ta.a[0],
            K::FAbs if ta.k == K::FNeg => return self.un(K::FAbs, s, 0, ta.a[0]),
            K::FAbs if ta.k == K::FAbs => return a,
            K::FIsNan if self.finite && ta.k != K::Var => return Self::FALSE,
            K::FToBits if ta.k == K::BitsToF => return ta.a[0],
            K::BitsToF if ta.k == K::FToBits => return ta.a[0],
            K::ZExt | K::SExt if sa == s => return a,
            K::ZExt if ta.k == K::ZExt => return self.un(K::ZExt, s, 0, ta.a[0]),
            K::Extract => {
                let lo = imm as u32;
                let w = s.bits();
                if lo == 0 && s == sa {
                    return a;
                }
                match ta.k {
                    K::Extract => return self.un(K::Extract, s, imm + ta.imm, ta.a[0]),
                    K::Concat => {
                        let wl = self.sort(ta.a[1]).bits();
                        if lo >= wl {
                            return self.un(K::Extract, s, (lo - wl) as u128, ta.a[0]);
                        }
                        if lo + w <= wl {
                            return self.un(K::Extract, s, imm, ta.a[1]);
                        }
                    }
                    K::ZExt => {
                        let wi = self.sort(ta.a[0]).bits();
                        if lo >= wi {
                            return self.cst(s, 0);
                        }
                        if lo + w <= wi {
                            return self.un(K::Extract, s, imm, ta.a[0]);
                        }
                        if lo == 0 {
                            return self.un(K::ZExt, s, 0, ta.a[0]);
                        }
                    }
                    K::SExt => {
                        let wi = self.sort(ta.a[0]).bits();
                        if lo + w <= wi {
                            return self.un(K::Extract, s, imm, ta.a[0]);
                        }
                    }
                    K::And | K::Or | K::Xor => {
                        let x = self.un(K::Extract, s, imm, ta.a[0]);
                        let y = self.un(K::Extract, s, imm, ta.a[1]);
                        return self.bin(ta.k, x, y);
                    }
                    K::Shl => {
                        if let Some(sh) = self.as_const(ta.a[1]) {
                            if lo as u128 >= sh {
                                return self.un(K::Extract, s, lo as u128 - sh, ta.a[0]);
                            }
                            if (lo + w) as u128 <= sh {
                                return self.cst(s, 0);
                            }
                        }
                    }
                    K::LShr => {
                        if let Some(sh) = self.as_const(ta.a[1]) {
                            if lo as u128 + sh + w as u128 <= sa.bits() as u128 {
                                return self.un(K::Extract, s, lo as u128 + sh, ta.a[0]);
                            }
                        }
                    }
                    K::Add | K::Sub | K::Mul if lo == 0 => {
                        let x = self.un(K::Extract, s, 0, ta.a[0]);
                        let y = self.un(K::Extract, s, 0, ta.a[1]);
                        return self.bin(ta.k, x, y);
                    }
                    K::Ite => {
                        let x = self.un(K::Extract, s, imm, ta.a[1]);
                        let y = self.un(K::Extract, s, imm, ta.a[2]);
                        return self.ite(ta.a[0], x, y);
                    }
                    _ => {}
                }
            }
            K::PowI => {
                if imm == 1 {
                    return a;
                }
            }
            _ => {}
        }
        self.intern(Term { k, s, a: [a, NOARG, NOARG], imm })
    }

    pub fn concat(&mut self, hi: u32, lo: u32) -> u32 {
        let (wh, wl) = (self.sort(hi).bits(), self.sort(lo).bits());
        let s = S::BV(wh + wl);
        if let (Some(x), Some(y)) = (self.as_const(hi), self.as_const(lo)) {
            return self.cst(s, (x << wl) | y);
        }
        if self.as_const(hi) == Some(0) {
            return self.un(K::ZExt, s, 0, lo);
        }
        let (th, tl) = (self.t[hi as usize].clone(), self.t[lo as usize].clone());
        if th.k == K::Extract && tl.k == K::Extract && th.a[0] == tl.a[0] && th.imm == tl.imm + wl as u128 {
            return self.un(K::Extract, s, tl.imm, tl.a[0]);
        }
        self.intern(Term { k: K::Concat, s, a: [hi, lo, NOARG], imm: 0 })
    }

    pub fn fbin(&mut self, id: u128, a: u32, b: u32) -> u32 {
        let s = self.sort(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = fold(K::FBin, s, id, s, &[x, y]);
            return self.cst(s, r);
        }
        self.intern(Term { k: K::FBin, s, a: [a, b, NOARG], imm: id })
    }

    pub fn bool_to_bv(&mut self, b: u32, w: u32) -> u32 {
        let (o, z) = (self.cst(S::BV(w), 1), self.cst(S::BV(w), 0));
        self.ite(b, o, z)
    }

    /// Evaluate under an assignment (f32/f64 semantics of the machine).
    pub fn eval(&self, t: u32, m: &HashMap<u32, u128>, memo: &mut HashMap<u32, u128>) -> u128 {
        // iterative post-order
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if memo.contains_key(&x) {
                continue;
            }
            let tm = &self.t[x as usize];
            match tm.k {
                K::Const => {
                    memo.insert(x, tm.imm);
                }
                K::Var => {
                    memo.insert(x, m.get(&(tm.imm as u32)).copied().unwrap_or(self.vars[tm.imm as usize].def));
                }
                _ => {
                    if !done {
                        st.push((x, true));
                        for a in tm.args() {
                            if !memo.contains_key(a) {
                                st.push((*a, false));
                            }
                        }
                    } else {
                        let vs: Vec<u128> = tm.args().iter().map(|a| memo[a]).collect();
                        let r = if tm.k == K::Concat {
                            (vs[0] << self.sort(tm.a[1]).bits()) | vs[1]
                        } else {
                            fold(tm.k, tm.s, tm.imm, self.sort(tm.a[0]), &vs)
                        };
                        memo.insert(x, r);
                    }
                }
            }
        }
        memo[&t]
    }

    /// Evaluate a float term with double precision throughout (used as the replay oracle).
    pub fn eval_hp(&self, t: u32, m: &HashMap<u32, u128>, memo: &mut HashMap<u32, f64>, memob: &mut HashMap<u32, u128>) -> f64 {
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if memo.contains_key(&x) {
                continue;
            }
            let tm = &self.t[x as usize];
            if !tm.s.is_fp() {
                continue;
            }
            let leaf = |v: u128| if tm.s == S::F32 { f32b(v) as f64 } else { f64b(v) };
            match tm.k {
                K::Const => {
                    memo.insert(x, leaf(tm.imm));
                }
                K::Var => {
                    let v = m.get(&(tm.imm as u32)).copied().unwrap_or(self.vars[tm.imm as usize].def);
                    memo.insert(x, leaf(v));
                }
                K::Ite => {
                    let c = self.eval_cond_hp(tm.a[0], m, memo, memob);
                    let b = if c { tm.a[1] } else { tm.a[2] };
                    if let Some(v) = memo.get(&b).copied() {
                        memo.insert(x, v);
                    } else {
                        st.push((x, false));
                        st.push((b, false));
                    }
                }
                _ => {
                    let fpargs: Vec<u32> = tm.args().iter().copied().filter(|a| self.sort(*a).is_fp()).collect();
                    if !done && fpargs.iter().any(|a| !memo.contains_key(a)) {
                        st.push((x, true));
                        for a in fpargs {
                            st.push((a, false));
                        }
                        continue;
                    }
                    let g = |i: usize| memo[&tm.a[i]];
                    let r = match tm.k {
                        K::FAdd => g(0) + g(1),
                        K::FSub => g(0) - g(1),
                        K::FMul => g(0) * g(1),
                        K::FDiv => g(0) / g(1),
                        K::FNeg => -g(0),
                        K::FAbs => g(0).abs(),
                        K::FSqrt => g(0).sqrt(),
                        K::FUn => fun1_f64(tm.imm, g(0)),
                        K::FBin => fun2_f64(tm.imm, g(0), g(1)),
                        K::PowI => g(0).powi(tm.imm as u32 as i32),
                        K::FpExt | K::FpTrunc => g(0),
                        _ => {
                            let v = self.eval(x, m, memob);
                            leaf(v)
                        }
                    };
                    memo.insert(x, r);
                }
            }
        }
        memo[&t]
    }
    fn eval_cond_hp(&self, c: u32, m: &HashMap<u32, u128>, memo: &mut HashMap<u32, f64>, memob: &mut HashMap<u32, u128>) -> bool {
        let tm = self.t[c as usize].clone();
        match tm.k {
            K::Not => !self.eval_cond_hp(tm.a[0], m, memo, memob),
            K::BAnd => self.eval_cond_hp(tm.a[0], m, memo, memob) && self.eval_cond_hp(tm.a[1], m, memo, memob),
            K::BOr => self.eval_cond_hp(tm.a[0], m, memo, memob) || self.eval_cond_hp(tm.a[1], m, memo, memob),
            K::FLt => self.eval_hp(tm.a[0], m, memo, memob) < self.eval_hp(tm.a[1], m, memo, memob),
            K::FLe => self.eval_hp(tm.a[0], m, memo, memob) <= self.eval_hp(tm.a[1], m, memo, memob),
            K::FEq => self.eval_hp(tm.a[0], m, memo, memob) == self.eval_hp(tm.a[1], m, memo, memob),
            _ => self.eval(c, m, memob) != 0,
        }
    }

    /// All variables occurring in a set of terms.
    pub fn vars_of(&self, ts: &[u32]) -> Vec<u32> {
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut st: Vec<u32> = ts.to_vec();
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let tm = &self.t[x as usize];
            if tm.k == K::Var {
                out.push(tm.imm as u32);
            }
            st.extend_from_slice(tm.args());
        }
        out.sort();
        out
    }

    pub fn show(&self, t: u32, depth: u32) -> String {
        let tm = &self.t[t as usize];
        match tm.k {
            K::Const => match tm.s {
                S::F32 => format!("{:?}", f32b(tm.imm)),
                S::F64 => format!("{:?}", f64b(tm.imm)),
                S::Bool => format!("{}", tm.imm != 0),
                _ => format!("{}", tm.imm),
            },
            K::Var => self.vars[tm.imm as usize].name.clone(),
            _ if depth == 0 => format!("t{}", t),
            K::FUn => format!("{}({})", FN_NAMES[tm.imm as usize], self.show(tm.a[0], depth - 1)),
            K::FBin => format!("{}({}, {})", FB_NAMES[tm.imm as usize], self.show(tm.a[0], depth - 1), self.show(tm.a[1], depth - 1)),
            _ => {
                let op = match tm.k {
                    K::FAdd => "+",
                    K::FSub => "-",
                    K::FMul => "*",
                    K::FDiv => "/",
                    _ => "",
                };
                let a: Vec<String> = tm.args().iter().map(|x| self.show(*x, depth - 1)).collect();
                if op != "" {
                    format!("({} {} {})", a[0], op, a[1])
                } else if tm.k == K::PowI {
                    format!("PowI({}, {})", a[0], tm.imm as u32 as i32)
                } else {
                    format!("{:?}({})", tm.k, a.join(", "))
                }
            }
        }
    }
}
