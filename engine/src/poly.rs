//! Equality of float terms read over the reals.
//!
//! A term is encoded as a rational function over atoms (variables, exp/ln/sqrt/sin/... applications)
//! with the exact algebraic laws of those functions built into the encoding; the question whether two
//! terms can differ is then a nonlinear real query that is handed to the SMT solver.
//! Conditionals are split into cases, each checked for feasibility by the solver first.
use crate::solver::{Sat, Solver};
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Verdict {
    Equal,
    /// equal except for the rounding of constants folded in single precision
    EqualTol,
    Different,
    Unknown,
}

type Mono = Vec<(u32, i32)>;
type Coef = (f64, f64);
type Poly = BTreeMap<Mono, Coef>;
type PR = Rc<Poly>;
const TOL: f64 = 2e-6;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Atom {
    Leaf(u32),
    Inv(u32),
    Sqrt(u32),
    /// exp(c * monomial)
    Exp(Mono, u64),
    LnA(u32),
    LnP(u32),
    Sin(u32),
    Cos(u32),
    Fun(u32, u32),
    Fun2(u32, u32, u32),
}

#[derive(Default)]
pub struct Ctx {
    atoms: Vec<Atom>,
    amap: HashMap<Atom, u32>,
    polys: Vec<PR>,
    pmap: HashMap<Vec<(Mono, u64)>, u32>,
    memo: HashMap<u32, PR>,
    pub tol: bool,
    work: u64,
    declared: u64,
    pub splits: u64,
}

type Q<T> = Result<T, ()>;
const MAX_TERMS: usize = 6000;
const MAX_WORK: u64 = 3_000_000;

fn round_key(c: f64) -> u64 {
    // 40 bits of mantissa
    let b = c.to_bits();
    (b.wrapping_add(1 << 11)) >> 12
}

fn konst(c: f64) -> Poly {
    let mut p = Poly::new();
    if c != 0.0 {
        p.insert(vec![], (c, c.abs()));
    }
    p
}
fn is_const(p: &Poly) -> Option<f64> {
    if p.is_empty() {
        return Some(0.0);
    }
    if p.len() == 1 {
        let (m, c) = p.iter().next().unwrap();
        if m.is_empty() {
            return Some(c.0);
        }
    }
    None
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx::default()
    }
    fn atom(&mut self, a: Atom) -> u32 {
        if let Some(i) = self.amap.get(&a) {
            return *i;
        }
        let i = self.atoms.len() as u32;
        self.atoms.push(a.clone());
        self.amap.insert(a, i);
        i
    }
    fn apoly(&mut self, a: Atom) -> Poly {
        let i = self.atom(a);
        let mut p = Poly::new();
        p.insert(vec![(i, 1)], (1.0, 1.0));
        p
    }
    fn pid(&mut self, p: &Poly) -> u32 {
        let key: Vec<(Mono, u64)> = p.iter().map(|(m, c)| (m.clone(), round_key(c.0))).collect();
        if let Some(i) = self.pmap.get(&key) {
            return *i;
        }
        let i = self.polys.len() as u32;
        self.polys.push(Rc::new(p.clone()));
        self.pmap.insert(key, i);
        i
    }
    fn add_to(&mut self, p: &mut Poly, m: Mono, c: Coef) {
        self.work += 1;
        match p.get_mut(&m) {
            Some(o) => {
                o.0 += c.0;
                o.1 += c.1;
                if o.0 == 0.0 {
                    p.remove(&m);
                } else if o.0.abs() <= TOL * o.1 {
                    self.tol = true;
                    p.remove(&m);
                }
            }
            None => {
                if c.0 != 0.0 {
                    p.insert(m, c);
                }
            }
        }
    }
    fn add(&mut self, a: &Poly, b: &Poly) -> Q<Poly> {
        let mut r = a.clone();
        for (m, c) in b {
            self.add_to(&mut r, m.clone(), *c);
        }
        if r.len() > MAX_TERMS {
            return Err(());
        }
        Ok(r)
    }
    fn scale(&mut self, a: &Poly, k: f64) -> Poly {
        if k == 0.0 {
            return Poly::new();
        }
        a.iter().map(|(m, c)| (m.clone(), (c.0 * k, c.1 * k.abs()))).collect()
    }
    fn sub(&mut self, a: &Poly, b: &Poly) -> Q<Poly> {
        let nb = self.scale(b, -1.0);
        self.add(a, &nb)
    }
    fn mmul(a: &Mono, b: &Mono) -> Mono {
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
                r.push(a[i]);
                i += 1;
            } else if i >= a.len() || b[j].0 < a[i].0 {
                r.push(b[j]);
                j += 1;
            } else {
                let e = a[i].1 + b[j].1;
                if e != 0 {
                    r.push((a[i].0, e));
                }
                i += 1;
                j += 1;
            }
        }
        r
    }
    /// Apply the algebraic laws of the atoms to a monomial; None when it is already reduced.
    fn reduce(&mut self, m: &Mono) -> Q<Option<Poly>> {
        for (ix, (a, e)) in m.iter().enumerate() {
            let (q, r, base) = match &self.atoms[*a as usize] {
                Atom::Sqrt(p) if *e < 0 || *e > 1 => (e.div_euclid(2), e.rem_euclid(2), self.polys[*p as usize].clone()),
                Atom::Sin(p) if *e >= 2 => {
                    let p = *p;
                    let c = self.apoly(Atom::Cos(p));
                    let c2 = self.mul(&c, &c)?;
                    let one = konst(1.0);
                    let b = self.sub(&one, &c2)?;
                    (e / 2, e % 2, Rc::new(b))
                }
                Atom::Inv(p) if *e < 0 => (-*e, 0, self.polys[*p as usize].clone()),
                _ => continue,
            };
            let mut rest = m.clone();
            if r == 0 {
                rest.remove(ix);
            } else {
                rest[ix].1 = r;
            }
            let f = self.powi(&base, q)?;
            let mut p = Poly::new();
            p.insert(rest, (1.0, 1.0));
            let p = match self.reduce(&p.keys().next().unwrap().clone())? {
                Some(x) => x,
                None => p,
            };
            return Ok(Some(self.mul(&p, &f)?));
        }
        Ok(None)
    }
    fn mul(&mut self, a: &Poly, b: &Poly) -> Q<Poly> {
        self.work += (a.len() * b.len()) as u64;
        if self.work > MAX_WORK || a.len() * b.len() > 400_000 {
            return Err(());
        }
        let mut r = Poly::new();
        for (ma, ca) in a {
            for (mb, cb) in b {
                let m = Self::mmul(ma, mb);
                let c = (ca.0 * cb.0, ca.1 * cb.1);
                match self.reduce(&m)? {
                    None => self.add_to(&mut r, m, c),
                    Some(p) => {
                        for (m2, c2) in p {
                            self.add_to(&mut r, m2, (c.0 * c2.0, c.1 * c2.1));
                        }
                    }
                }
            }
            if r.len() > MAX_TERMS {
                return Err(());
            }
        }
        Ok(r)
    }
    fn powi(&mut self, a: &Poly, n: i32) -> Q<Poly> {
        if n == 0 {
            return Ok(konst(1.0));
        }
        if a.len() == 1 {
            let (m, c) = a.iter().next().unwrap();
            let c2 = c.0.powi(n);
            if !c2.is_finite() || c2 == 0.0 {
                return Err(());
            }
            let mut m2 = m.clone();
            for x in m2.iter_mut() {
                x.1 = x.1.checked_mul(n).ok_or(())?;
            }
            return Ok(match self.reduce(&m2)? {
                None => {
                    let mut p = Poly::new();
                    p.insert(m2, (c2, c2.abs()));
                    p
                }
                Some(p) => self.scale(&p, c2),
            });
        }
        if n < 0 {
            let i = self.inv(a)?;
            return self.powi(&i, n.checked_neg().ok_or(())?);
        }
        if n > 12 {
            return Err(());
        }
        let mut r = a.clone();
        for _ in 1..n {
            r = self.mul(&r, a)?;
        }
        Ok(r)
    }
    /// Multiply out every inverse: p = N / prod D_i^k_i.
    fn clear(&mut self, p: &Poly) -> Q<(Poly, Vec<(u32, i32)>)> {
        let mut cur = p.clone();
        let mut dens: Vec<(u32, i32)> = vec![];
        for _ in 0..20 {
            let mut mx: BTreeMap<u32, i32> = BTreeMap::new();
            for m in cur.keys() {
                for (a, e) in m {
                    if let Atom::Inv(_) = self.atoms[*a as usize] {
                        let x = mx.entry(*a).or_insert(0);
                        *x = (*x).max(*e);
                    }
                }
            }
            if mx.is_empty() {
                return Ok((cur, dens));
            }
            // group the monomials by their inverse part
            let mut groups: BTreeMap<Mono, Poly> = BTreeMap::new();
            for (m, c) in &cur {
                let (i, r): (Mono, Mono) = m.iter().partition(|(a, _)| mx.contains_key(a));
                groups.entry(i).or_default().insert(r, *c);
            }
            let mut acc = Poly::new();
            for (im, g) in groups {
                let mut t = g;
                for (a, k) in &mx {
                    let have = im.iter().find(|(x, _)| x == a).map(|x| x.1).unwrap_or(0);
                    let pid = match self.atoms[*a as usize] {
                        Atom::Inv(p) => p,
                        _ => unreachable!(),
                    };
                    let d = self.polys[pid as usize].clone();
                    for _ in 0..(k - have) {
                        t = self.mul(&t, &d)?;
                    }
                }
                acc = self.add(&acc, &t)?;
            }
            for (a, k) in mx {
                let pid = match self.atoms[a as usize] {
                    Atom::Inv(p) => p,
                    _ => unreachable!(),
                };
                dens.push((pid, k));
            }
            cur = acc;
        }
        Err(())
    }
    /// p = c * mono * rest, with rest canonical.
    fn content(&mut self, p: &Poly) -> (f64, Mono, Poly) {
        let mut mins: BTreeMap<u32, i32> = BTreeMap::new();
        let n = p.len();
        let mut cnt: BTreeMap<u32, usize> = BTreeMap::new();
        for m in p.keys() {
            for (a, e) in m {
                let x = mins.entry(*a).or_insert(*e);
                *x = (*x).min(*e);
                *cnt.entry(*a).or_insert(0) += 1;
            }
        }
        let mut mono = vec![];
        for (a, e) in mins {
            let e = if cnt[&a] < n { e.min(0) } else { e };
            // only freely invertible atoms
            if e != 0 && !matches!(self.atoms[a as usize], Atom::Sqrt(_) | Atom::Inv(_) | Atom::Sin(_)) {
                mono.push((a, e));
            }
        }
        let inv: Mono = mono.iter().map(|(a, e)| (*a, -*e)).collect();
        let shifted: Poly = p.iter().map(|(m, c)| (Self::mmul(m, &inv), *c)).collect();
        let lead = shifted.values().next().unwrap().0;
        let rest = shifted.into_iter().map(|(m, c)| (m, (c.0 / lead, c.1 / lead.abs()))).collect();
        (lead, mono, rest)
    }
    fn inv(&mut self, p: &Poly) -> Q<Poly> {
        if p.is_empty() {
            return Err(());
        }
        if p.len() == 1 {
            return self.powi(p, -1);
        }
        let (n, dens) = self.clear(p)?;
        if n.is_empty() {
            return Err(());
        }
        let mut r = if n.len() == 1 {
            self.powi(&n, -1)?
        } else {
            let (c, mono, rest) = self.content(&n);
            let id = self.pid(&rest);
            let a = self.apoly(Atom::Inv(id));
            let im: Mono = mono.iter().map(|(a, e)| (*a, -*e)).collect();
            let mut f = Poly::new();
            f.insert(im, (1.0 / c, 1.0 / c.abs()));
            self.mul(&a, &f)?
        };
        for (d, k) in dens {
            let dp = self.polys[d as usize].clone();
            for _ in 0..k {
                r = self.mul(&r, &dp)?;
            }
        }
        Ok(r)
    }
    fn sqrt(&mut self, p: &Poly) -> Q<Poly> {
        if p.is_empty() {
            return Ok(Poly::new());
        }
        let lead = p.values().next().unwrap().0.abs();
        if p.len() == 1 {
            let (m, c) = p.iter().next().unwrap();
            if c.0 < 0.0 {
                return Err(());
            }
            let mut out = vec![];
            let mut rest = vec![];
            for (a, e) in m {
                if matches!(self.atoms[*a as usize], Atom::Exp(..)) && e % 2 == 0 {
                    out.push((*a, e / 2));
                } else {
                    rest.push((*a, *e));
                }
            }
            let mut r = Poly::new();
            let s = lead.sqrt();
            r.insert(out, (s, s));
            if !rest.is_empty() {
                let mut q = Poly::new();
                q.insert(rest, (1.0, 1.0));
                let id = self.pid(&q);
                let a = self.apoly(Atom::Sqrt(id));
                r = self.mul(&r, &a)?;
            }
            return Ok(r);
        }
        let q = self.scale(p, 1.0 / lead);
        let id = self.pid(&q);
        let a = self.apoly(Atom::Sqrt(id));
        Ok(self.scale(&a, lead.sqrt()))
    }
    fn exp(&mut self, p: &Poly) -> Q<Poly> {
        let mut r = konst(1.0);
        for (m, c) in p.clone() {
            let c = c.0;
            let f: Poly = if m.is_empty() {
                konst(c.exp())
            } else {
                let single = if m.len() == 1 && m[0].1 == 1 { Some(self.atoms[m[0].0 as usize].clone()) } else { None };
                let ln_base: Option<Poly> = match single {
                    Some(Atom::LnA(a)) => {
                        let mut q = Poly::new();
                        q.insert(vec![(a, 1)], (1.0, 1.0));
                        Some(q)
                    }
                    Some(Atom::LnP(d)) => Some((*self.polys[d as usize]).clone()),
                    _ => None,
                };
                match ln_base {
                    Some(b) if c.fract() == 0.0 && c.abs() <= 12.0 => self.powi(&b, c as i32)?,
                    Some(b) if (2.0 * c).fract() == 0.0 && c.abs() <= 12.0 => {
                        let s = self.sqrt(&b)?;
                        self.powi(&s, (2.0 * c) as i32)?
                    }
                    _ => {
                        let (a, e) = if (2.0 * c).fract() == 0.0 && c.abs() <= 64.0 {
                            (Atom::Exp(m.clone(), 0.5f64.to_bits()), (2.0 * c) as i32)
                        } else {
                            (Atom::Exp(m.clone(), f64::from_bits(round_key(c.abs()) << 12).to_bits()), if c < 0.0 { -1 } else { 1 })
                        };
                        let i = self.atom(a);
                        let mut q = Poly::new();
                        q.insert(vec![(i, e)], (1.0, 1.0));
                        q
                    }
                }
            };
            r = self.mul(&r, &f)?;
        }
        Ok(r)
    }
    fn ln_atom(&mut self, a: u32) -> Q<Poly> {
        match self.atoms[a as usize].clone() {
            Atom::Exp(m, c) => {
                let c = f64::from_bits(c);
                let mut p = Poly::new();
                p.insert(m, (c, c.abs()));
                Ok(p)
            }
            Atom::Sqrt(pid) => {
                let b = self.polys[pid as usize].clone();
                let l = self.ln(&b)?;
                Ok(self.scale(&l, 0.5))
            }
            Atom::Inv(pid) => {
                let l = self.apoly(Atom::LnP(pid));
                Ok(self.scale(&l, -1.0))
            }
            _ => Ok(self.apoly(Atom::LnA(a))),
        }
    }
    fn ln(&mut self, p: &Poly) -> Q<Poly> {
        if p.is_empty() {
            return Err(());
        }
        let (c, mono, rest, dens);
        if p.len() == 1 {
            let (m, k) = p.iter().next().unwrap();
            c = k.0;
            mono = m.clone();
            rest = None;
            dens = vec![];
        } else {
            let (n, d) = self.clear(p)?;
            if n.is_empty() {
                return Err(());
            }
            dens = d;
            if n.len() == 1 {
                let (m, k) = n.iter().next().unwrap();
                c = k.0;
                mono = m.clone();
                rest = None;
            } else {
                let (cc, m, r) = self.content(&n);
                c = cc;
                mono = m;
                rest = Some(r);
            }
        }
        let mut out = konst(c.abs().ln());
        for (a, e) in mono {
            let l = self.ln_atom(a)?;
            let l = self.scale(&l, e as f64);
            out = self.add(&out, &l)?;
        }
        if let Some(r) = rest {
            let id = self.pid(&r);
            let l = self.apoly(Atom::LnP(id));
            out = self.add(&out, &l)?;
        }
        for (d, k) in dens {
            let l = self.apoly(Atom::LnP(d));
            let l = self.scale(&l, -(k as f64));
            out = self.add(&out, &l)?;
        }
        Ok(out)
    }
    fn div(&mut self, a: &Poly, b: &Poly) -> Q<Poly> {
        let i = self.inv(b)?;
        self.mul(a, &i)
    }
    fn odd(&mut self, p: &Poly) -> (f64, Poly) {
        match p.values().next() {
            Some(c) if c.0 < 0.0 => (-1.0, self.scale(p, -1.0)),
            _ => (1.0, p.clone()),
        }
    }

    /// Normal form of a term without conditionals.
    fn nf(&mut self, ar: &Arena, t: u32) -> Q<PR> {
        if let Some(p) = self.memo.get(&t) {
            return Ok(p.clone());
        }
        let tm = ar.t[t as usize].clone();
        let r: Poly = match tm.k {
            K::Const => {
                let v = if tm.s == S::F32 { f32b(tm.imm) as f64 } else { f64b(tm.imm) };
                if !v.is_finite() {
                    return Err(());
                }
                konst(v)
            }
            K::Var | K::SiToFp | K::UiToFp | K::BitsToF => self.apoly(Atom::Leaf(t)),
            K::Ite | K::FAbs => return Err(()),
            K::FBin if tm.imm != FB_POW => {
                let (a, b) = (self.nf(ar, tm.a[0])?, self.nf(ar, tm.a[1])?);
                let (x, y) = (self.pid(&a), self.pid(&b));
                self.apoly(Atom::Fun2(tm.imm as u32, x, y))
            }
            K::FBin => {
                let (a, b) = (self.nf(ar, tm.a[0])?, self.nf(ar, tm.a[1])?);
                match is_const(&b) {
                    Some(c) if c.fract() == 0.0 && c.abs() <= 12.0 => self.powi(&a, c as i32)?,
                    Some(c) if (2.0 * c).fract() == 0.0 && c.abs() <= 12.0 => {
                        let s = self.sqrt(&a)?;
                        self.powi(&s, (2.0 * c) as i32)?
                    }
                    _ => {
                        let l = self.ln(&a)?;
                        let e = self.mul(&l, &b)?;
                        self.exp(&e)?
                    }
                }
            }
            K::FAdd => {
                let (a, b) = (self.nf(ar, tm.a[0])?, self.nf(ar, tm.a[1])?);
                self.add(&a, &b)?
            }
            K::FSub => {
                let (a, b) = (self.nf(ar, tm.a[0])?, self.nf(ar, tm.a[1])?);
                self.sub(&a, &b)?
            }
            K::FMul => {
                let (a, b) = (self.nf(ar, tm.a[0])?, self.nf(ar, tm.a[1])?);
                self.mul(&a, &b)?
            }
            K::FDiv => {
                let (a, b) = (self.nf(ar, tm.a[0])?, self.nf(ar, tm.a[1])?);
                self.div(&a, &b)?
            }
            K::FNeg => {
                let a = self.nf(ar, tm.a[0])?;
                self.scale(&a, -1.0)
            }
            K::FpExt | K::FpTrunc => (*self.nf(ar, tm.a[0])?).clone(),
            K::FSqrt => {
                let a = self.nf(ar, tm.a[0])?;
                self.sqrt(&a)?
            }
            K::PowI => {
                let a = self.nf(ar, tm.a[0])?;
                self.powi(&a, tm.imm as u32 as i32)?
            }
            K::FUn => {
                let a = self.nf(ar, tm.a[0])?;
                let one = konst(1.0);
                match tm.imm {
                    FN_EXP => self.exp(&a)?,
                    FN_EXP2 => {
                        let b = self.scale(&a, std::f64::consts::LN_2);
                        self.exp(&b)?
                    }
                    FN_EXPM1 => {
                        let e = self.exp(&a)?;
                        self.sub(&e, &one)?
                    }
                    FN_LN => self.ln(&a)?,
                    FN_LN1P => {
                        let b = self.add(&a, &one)?;
                        self.ln(&b)?
                    }
                    FN_LOG2 => {
                        let l = self.ln(&a)?;
                        self.scale(&l, 1.0 / std::f64::consts::LN_2)
                    }
                    FN_LOG10 => {
                        let l = self.ln(&a)?;
                        self.scale(&l, 1.0 / std::f64::consts::LN_10)
                    }
                    FN_TANH | FN_SINH | FN_COSH => {
                        let e = self.exp(&a)?;
                        let na = self.scale(&a, -1.0);
                        let ne = self.exp(&na)?;
                        let s = self.sub(&e, &ne)?;
                        let c = self.add(&e, &ne)?;
                        match tm.imm {
                            FN_TANH => self.div(&s, &c)?,
                            FN_SINH => self.scale(&s, 0.5),
                            _ => self.scale(&c, 0.5),
                        }
                    }
                    FN_SIN | FN_COS | FN_TAN => {
                        if a.is_empty() {
                            if tm.imm == FN_COS {
                                konst(1.0)
                            } else {
                                Poly::new()
                            }
                        } else {
                            let (sg, b) = self.odd(&a);
                            let id = self.pid(&b);
                            let s = self.apoly(Atom::Sin(id));
                            let c = self.apoly(Atom::Cos(id));
                            match tm.imm {
                                FN_SIN => self.scale(&s, sg),
                                FN_COS => c,
                                _ => {
                                    let t = self.div(&s, &c)?;
                                    self.scale(&t, sg)
                                }
                            }
                        }
                    }
                    id => {
                        let p = self.pid(&a);
                        self.apoly(Atom::Fun(id as u32, p))
                    }
                }
            }
            _ => return Err(()),
        };
        if r.values().any(|c| !c.0.is_finite()) {
            return Err(());
        }
        let r = Rc::new(r);
        self.memo.insert(t, r.clone());
        Ok(r)
    }

    // ---- SMT text ----

    fn text(&self, p: &Poly, used: &mut Vec<u32>) -> String {
        if p.is_empty() {
            return "0.0".into();
        }
        let mut ts = vec![];
        for (m, c) in p {
            let mut f = vec![rat(c.0)];
            for (a, e) in m {
                used.push(*a);
                for _ in 0..e.unsigned_abs() {
                    f.push(if *e > 0 { format!("a{}", a) } else { format!("i{}", a) });
                }
            }
            ts.push(if f.len() == 1 { f.pop().unwrap() } else { format!("(* {})", f.join(" ")) });
        }
        if ts.len() == 1 {
            ts.pop().unwrap()
        } else {
            format!("(+ {})", ts.join(" "))
        }
    }

    /// "p can be non-zero" as an SMT query over the atoms, denominators multiplied out but not expanded.
    fn query(&mut self, sol: &mut Solver, p: &Poly, extra: &[(char, Poly)]) -> Q<Sat> {
        // every atom with a negative exponent is scaled away as well
        let mut mx: BTreeMap<u32, i32> = BTreeMap::new();
        let mut mn: BTreeMap<u32, i32> = BTreeMap::new();
        for m in p.keys() {
            for (a, e) in m {
                if let Atom::Inv(_) = self.atoms[*a as usize] {
                    let x = mx.entry(*a).or_insert(0);
                    *x = (*x).max(*e);
                } else if *e < 0 {
                    let x = mn.entry(*a).or_insert(0);
                    *x = (*x).min(*e);
                }
            }
        }
        let shift: Mono = mn.iter().map(|(a, e)| (*a, -*e)).collect();
        let mut groups: BTreeMap<Mono, Poly> = BTreeMap::new();
        for (m, c) in p {
            let (i, r): (Mono, Mono) = m.iter().partition(|(a, _)| mx.contains_key(a));
            groups.entry(i).or_default().insert(Self::mmul(&r, &shift), *c);
        }
        let mut used: Vec<u32> = vec![];
        let mut parts = vec![];
        let mut dens: Vec<Poly> = vec![];
        for (im, g) in groups {
            let mut fs = vec![self.text(&g, &mut used)];
            for (a, k) in &mx {
                let have = im.iter().find(|(x, _)| x == a).map(|x| x.1).unwrap_or(0);
                if let Atom::Inv(pid) = self.atoms[*a as usize] {
                    let d = self.polys[pid as usize].clone();
                    let t = self.text(&d, &mut used);
                    for _ in 0..(k - have) {
                        fs.push(t.clone());
                    }
                }
            }
            parts.push(if fs.len() == 1 { fs.pop().unwrap() } else { format!("(* {})", fs.join(" ")) });
        }
        for a in mx.keys() {
            if let Atom::Inv(pid) = self.atoms[*a as usize] {
                dens.push((*self.polys[pid as usize]).clone());
            }
        }
        let mut body = String::new();
        let lhs = match parts.len() {
            0 => "0.0".to_string(),
            1 => parts.pop().unwrap(),
            _ => format!("(+ {})", parts.join(" ")),
        };
        let _ = writeln!(body, "(assert (not (= {} 0.0)))", lhs);
        for (rel, q) in extra {
            let mut u2 = vec![];
            let t = self.text(q, &mut u2);
            used.extend(u2);
            let _ = match rel {
                '<' => writeln!(body, "(assert (< {} 0.0))", t),
                'l' => writeln!(body, "(assert (<= {} 0.0))", t),
                '=' => writeln!(body, "(assert (= {} 0.0))", t),
                _ => writeln!(body, "(assert (not (= {} 0.0)))", t),
            };
        }
        for d in dens {
            let t = self.text(&d, &mut used);
            let _ = writeln!(body, "(assert (not (= {} 0.0)))", t);
        }
        used.sort();
        used.dedup();
        let mut decl = vec![];
        for a in &used {
            decl.push(format!("a{}", a));
            decl.push(format!("i{}", a));
            match self.atoms[*a as usize] {
                Atom::Exp(..) | Atom::Inv(_) => {
                    let _ = writeln!(body, "(assert (not (= a{} 0.0)))", a);
                }
                _ => {}
            }
            if body.contains(&format!("i{}", a)) {
                let _ = writeln!(body, "(assert (= (* a{} i{}) 1.0))", a, a);
            }
        }
        self.declared += decl.len() as u64;
        Ok(sol.real_query(&decl, &body))
    }
}

/// Exact decimal text of a double.
fn rat(c: f64) -> String {
    let neg = c < 0.0;
    let v = c.abs();
    let s = if v.fract() == 0.0 && v < 1e15 {
        format!("{}.0", v as u64)
    } else {
        let b = v.to_bits();
        let mut e = ((b >> 52) & 0x7ff) as i32 - 1075;
        let mut m = (b & ((1 << 52) - 1)) | (1 << 52);
        while m & 1 == 0 {
            m >>= 1;
            e += 1;
        }
        if e >= 0 {
            format!("(* {}.0 {}.0)", m, pow2(e as u32))
        } else {
            format!("(/ {}.0 {}.0)", m, pow2((-e) as u32))
        }
    };
    if neg {
        format!("(- {})", s)
    } else {
        s
    }
}
fn pow2(k: u32) -> String {
    let mut d: Vec<u8> = vec![1];
    for _ in 0..k {
        let mut carry = 0;
        for x in d.iter_mut() {
            let v = *x * 2 + carry;
            *x = v % 10;
            carry = v / 10;
        }
        if carry > 0 {
            d.push(carry);
        }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}

/// Replace decided conditionals; Err(atom) names a condition that still has to be split on.
struct Resolver<'a> {
    assign: &'a HashMap<u32, bool>,
    memo: HashMap<u32, u32>,
}
impl<'a> Resolver<'a> {
    fn cond(&mut self, ar: &mut Arena, c: u32) -> Result<bool, u32> {
        if c == Arena::TRUE {
            return Ok(true);
        }
        if c == Arena::FALSE {
            return Ok(false);
        }
        if let Some(b) = self.assign.get(&c) {
            return Ok(*b);
        }
        let tm = ar.t[c as usize].clone();
        match tm.k {
            K::Not => return Ok(!self.cond(ar, tm.a[0])?),
            K::BAnd => {
                let x = self.cond(ar, tm.a[0]);
                if x == Ok(false) {
                    return Ok(false);
                }
                let y = self.cond(ar, tm.a[1]);
                if y == Ok(false) {
                    return Ok(false);
                }
                x?;
                y?;
                return Ok(true);
            }
            K::BOr => {
                let x = self.cond(ar, tm.a[0]);
                if x == Ok(true) {
                    return Ok(true);
                }
                let y = self.cond(ar, tm.a[1]);
                if y == Ok(true) {
                    return Ok(true);
                }
                x?;
                y?;
                return Ok(false);
            }
            K::Ite => {
                let x = self.cond(ar, tm.a[0])?;
                return self.cond(ar, if x { tm.a[1] } else { tm.a[2] });
            }
            K::FLt | K::FLe | K::FEq => {
                let a = self.term(ar, tm.a[0])?;
                let b = self.term(ar, tm.a[1])?;
                let r = ar.bin(tm.k, a, b);
                if r == Arena::TRUE {
                    return Ok(true);
                }
                if r == Arena::FALSE {
                    return Ok(false);
                }
                if let Some(b) = self.assign.get(&r) {
                    return Ok(*b);
                }
                let rt = ar.t[r as usize].clone();
                if rt.k == K::FLt || rt.k == K::FLe {
                    // trichotomy in finite mode
                    let other = if rt.k == K::FLt { K::FLe } else { K::FLt };
                    let n = ar.bin(other, rt.a[1], rt.a[0]);
                    if let Some(b) = self.assign.get(&n) {
                        if ar.finite {
                            return Ok(!*b);
                        }
                    }
                    if rt.k == K::FLt {
                        let n = ar.bin(K::FLt, rt.a[1], rt.a[0]);
                        if self.assign.get(&n) == Some(&true) {
                            return Ok(false);
                        }
                    }
                }
                return Err(r);
            }
            _ => {}
        }
        Err(c)
    }
    fn term(&mut self, ar: &mut Arena, t: u32) -> Result<u32, u32> {
        if let Some(r) = self.memo.get(&t) {
            return Ok(*r);
        }
        let tm = ar.t[t as usize].clone();
        let r = match tm.k {
            K::Const | K::Var | K::SiToFp | K::UiToFp | K::BitsToF => t,
            K::Ite => {
                let c = self.cond(ar, tm.a[0])?;
                self.term(ar, if c { tm.a[1] } else { tm.a[2] })?
            }
            K::FAbs => {
                let a = self.term(ar, tm.a[0])?;
                if ar.as_const(a).is_some() {
                    ar.un(K::FAbs, tm.s, 0, a)
                } else {
                    let z = crate::ad::num(ar, tm.s, 0.0);
                    let c = ar.bin(K::FLt, a, z);
                    if self.cond(ar, c)? {
                        ar.un(K::FNeg, tm.s, 0, a)
                    } else {
                        a
                    }
                }
            }
            _ => {
                let mut args = vec![];
                for a in tm.args() {
                    args.push(self.term(ar, *a)?);
                }
                if args[..] == *tm.args() {
                    t
                } else {
                    match tm.k {
                        K::FBin => ar.fbin(tm.imm, args[0], args[1]),
                        _ if args.len() == 2 => ar.bin(tm.k, args[0], args[1]),
                        _ => ar.un(tm.k, tm.s, tm.imm, args[0]),
                    }
                }
            }
        };
        self.memo.insert(t, r);
        Ok(r)
    }
}

fn assume(ar: &Arena, m: &mut HashMap<u32, bool>, c: u32, v: bool) {
    let tm = &ar.t[c as usize];
    match (tm.k, v) {
        (K::Not, _) => assume(ar, m, tm.a[0], !v),
        (K::BAnd, true) | (K::BOr, false) => {
            assume(ar, m, tm.a[0], v);
            assume(ar, m, tm.a[1], v);
            m.insert(c, v);
        }
        _ => {
            m.insert(c, v);
        }
    }
}

/// Decide whether a and b are equal, over the reals, under the path condition.
pub fn equal(cx: &mut Ctx, ar: &mut Arena, sol: &mut Solver, rsol: &mut Solver, a: u32, b: u32, pc: &[u32]) -> Verdict {
    let mut assign = HashMap::new();
    for c in pc {
        assume(ar, &mut assign, *c, true);
    }
    cx.work = 0;
    let mut tol = false;
    let mut stack = vec![(assign, pc.to_vec())];
    let mut cases = 0;
    while let Some((asg, conds)) = stack.pop() {
        cases += 1;
        if cases > 600 {
            return Verdict::Unknown;
        }
        let mut rs = Resolver { assign: &asg, memo: HashMap::new() };
        let ra = rs.term(ar, a);
        let rb = if ra.is_ok() { rs.term(ar, b) } else { ra };
        match (ra, rb) {
            (Ok(x), Ok(y)) => {
                if x == y {
                    continue;
                }
                cx.tol = false;
                let d = cx.nf(ar, x).and_then(|p| cx.nf(ar, y).and_then(|q| cx.sub(&p, &q)));
                let d = match d {
                    Ok(d) => d,
                    Err(()) => return Verdict::Unknown,
                };
                let expanded = cx.clear(&d).map(|x| x.0);
                match expanded {
                    Ok(e) if e.is_empty() => {
                        // the normal form says equal: the solver decides
                        match cx.query(rsol, &d, &[]) {
                            Ok(Sat::Unsat) => {
                                if cx.tol {
                                    tol = true;
                                }
                            }
                            _ => tol = true,
                        }
                    }
                    _ => {
                        // perhaps equal under the path condition
                        let mut ex = vec![];
                        for c in &conds {
                            let (c2, pos) = if ar.t[*c as usize].k == K::Not { (ar.t[*c as usize].a[0], false) } else { (*c, true) };
                            let tm = ar.t[c2 as usize].clone();
                            if !matches!(tm.k, K::FLt | K::FLe | K::FEq) {
                                continue;
                            }
                            let mut rs = Resolver { assign: &asg, memo: HashMap::new() };
                            let (l, r) = match (rs.term(ar, tm.a[0]), rs.term(ar, tm.a[1])) {
                                (Ok(l), Ok(r)) => (l, r),
                                _ => continue,
                            };
                            let dl = match cx.nf(ar, l).and_then(|p| cx.nf(ar, r).and_then(|q| cx.sub(&p, &q))) {
                                Ok(d) => d,
                                _ => continue,
                            };
                            if dl.keys().any(|m| m.iter().any(|(a, _)| matches!(cx.atoms[*a as usize], Atom::Inv(_)))) {
                                continue;
                            }
                            match (tm.k, pos) {
                                (K::FLt, true) => ex.push(('<', dl)),
                                (K::FLe, true) => ex.push(('l', dl)),
                                (K::FEq, true) => ex.push(('=', dl)),
                                (K::FEq, false) => ex.push(('#', dl)),
                                (K::FLt, false) => {
                                    let n = cx.scale(&dl, -1.0);
                                    ex.push(('l', n))
                                }
                                (K::FLe, false) => {
                                    let n = cx.scale(&dl, -1.0);
                                    ex.push(('<', n))
                                }
                                _ => {}
                            }
                        }
                        if ex.is_empty() {
                            return if cx.query(rsol, &d, &[]) == Ok(Sat::Sat) { Verdict::Different } else { Verdict::Unknown };
                        }
                        match cx.query(rsol, &d, &ex) {
                            Ok(Sat::Unsat) => {}
                            Ok(Sat::Sat) => return Verdict::Different,
                            _ => return Verdict::Unknown,
                        }
                    }
                }
            }
            (Err(c), _) | (_, Err(c)) => {
                cx.splits += 1;
                for v in [false, true] {
                    let lit = if v { c } else { ar.not(c) };
                    let mut cs = conds.clone();
                    cs.push(lit);
                    if sol.check(ar, &cs, false).0 == Sat::Unsat {
                        continue;
                    }
                    let mut a2 = asg.clone();
                    assume(ar, &mut a2, c, v);
                    stack.push((a2, cs));
                }
            }
        }
    }
    if tol {
        Verdict::EqualTol
    } else {
        Verdict::Equal
    }
}
