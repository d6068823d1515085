//! SMT back end: a persistent z3 process fed over a pipe.
//!
//! Feasibility / bit-level queries (mode A): every f32/f64 is a bit vector, comparisons are encoded
//! exactly on the bit patterns, floating-point arithmetic and transcendental functions are
//! uninterpreted functions of the bit patterns (sound over-approximation).
//! Exact queries (mode F): IEEE-754 theory of the solver.
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time: f64,
    pub max_time: f64,
}

struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

pub struct Solver {
    cmd: Vec<String>,
    p: Option<Proc>,
    defined: HashSet<u32>,
    declared_fn: HashSet<String>,
    pub stats: Stats,
    pub timeout_ms: u64,
    cache: HashMap<Vec<u32>, (Sat, Option<HashMap<u32, u128>>)>,
    queries_since_restart: u64,
    max_defs: usize,
    pub log: Option<std::fs::File>,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.sat += o.sat;
        self.unsat += o.unsat;
        self.unknown += o.unknown;
        self.cached += o.cached;
        self.time += o.time;
        if o.max_time > self.max_time {
            self.max_time = o.max_time;
        }
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        if let Some(mut p) = self.p.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
}

fn bv(n: u32, v: u128) -> String {
    if n % 4 == 0 {
        format!("#x{:0w$x}", v, w = (n / 4) as usize)
    } else {
        format!("#b{:0w$b}", v, w = n as usize)
    }
}
pub fn sort_a(s: S) -> String {
    match s {
        S::Bool => "Bool".into(),
        S::BV(n) => format!("(_ BitVec {})", n),
        S::F32 => "(_ BitVec 32)".into(),
        S::F64 => "(_ BitVec 64)".into(),
    }
}

impl Solver {
    pub fn new(cmd: &str, timeout_ms: u64) -> Solver {
        Solver {
            cmd: cmd.split_whitespace().map(|s| s.to_string()).collect(),
            p: None,
            defined: HashSet::new(),
            declared_fn: HashSet::new(),
            stats: Stats::default(),
            timeout_ms,
            cache: HashMap::new(),
            queries_since_restart: 0,
            max_defs: std::env::var("VX_MAXDEFS").ok().and_then(|x| x.parse().ok()).unwrap_or(200),
            log: None,
        }
    }
    fn start(&mut self) {
        let mut child = Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start the SMT solver");
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let r = BufReader::new(out);
            for l in r.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.p = Some(Proc { child, stdin, rx });
        self.defined.clear();
        self.declared_fn.clear();
        self.queries_since_restart = 0;
        let t = self.timeout_ms;
        self.send(&format!("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :timeout {})\n", t));
    }
    /// Forget everything, keeping the process.
    pub fn reset(&mut self) {
        self.cache.clear();
        self.defined.clear();
        self.declared_fn.clear();
        self.stats = Stats::default();
        if self.p.is_some() {
            let t = self.timeout_ms;
            self.send(&format!("(reset)\n(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :timeout {})\n", t));
        }
    }
    fn send(&mut self, s: &str) {
        if let Some(f) = &mut self.log {
            let _ = f.write_all(s.as_bytes());
        }
        if let Some(p) = &mut self.p {
            let _ = p.stdin.write_all(s.as_bytes());
        }
    }
    fn kill(&mut self) {
        if let Some(mut p) = self.p.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
    fn recv(&mut self, deadline: Instant) -> Option<String> {
        let p = self.p.as_mut().unwrap();
        let d = deadline.saturating_duration_since(Instant::now());
        match p.rx.recv_timeout(d) {
            Ok(l) => Some(l),
            Err(_) => None,
        }
    }

    fn define(&mut self, ar: &Arena, t: u32, out: &mut String) {
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if self.defined.contains(&x) {
                continue;
            }
            let tm = &ar.t[x as usize];
            if !done && tm.nargs() > 0 {
                st.push((x, true));
                for a in tm.args() {
                    st.push((*a, false));
                }
                continue;
            }
            self.defined.insert(x);
            match tm.k {
                K::Const => {}
                K::Var => {
                    let v = &ar.vars[tm.imm as usize];
                    let _ = writeln!(out, "(declare-const t{} {})", x, sort_a(tm.s));
                    if tm.s.is_fp() && !v.any && !v.junk {
                        match tm.s {
                            S::F32 => {
                                let _ = writeln!(out, "(assert (not (= ((_ extract 30 23) t{}) #xff)))", x);
                            }
                            _ => {
                                let _ = writeln!(out, "(assert (not (= ((_ extract 62 52) t{}) #b11111111111)))", x);
                            }
                        }
                    }
                }
                _ => {
                    let e = self.expr(ar, tm, out);
                    let _ = writeln!(out, "(define-fun t{} () {} {})", x, sort_a(tm.s), e);
                }
            }
        }
    }

    fn r(&self, ar: &Arena, t: u32) -> String {
        let tm = &ar.t[t as usize];
        if tm.k == K::Const {
            match tm.s {
                S::Bool => (if tm.imm != 0 { "true" } else { "false" }).to_string(),
                s => bv(s.bits(), tm.imm),
            }
        } else {
            format!("t{}", t)
        }
    }

    fn expr(&mut self, ar: &Arena, tm: &Term, out: &mut String) -> String {
        let a: Vec<String> = tm.args().iter().map(|x| self.r(ar, *x)).collect();
        let asort = ar.sort(tm.a[0]);
        let b2 = |op: &str| format!("({} {} {})", op, a[0], a[1]);
        match tm.k {
            K::Add => b2("bvadd"),
            K::Sub => b2("bvsub"),
            K::Mul => b2("bvmul"),
            K::UDiv => b2("bvudiv"),
            K::SDiv => b2("bvsdiv"),
            K::URem => b2("bvurem"),
            K::SRem => b2("bvsrem"),
            K::Shl => b2("bvshl"),
            K::LShr => b2("bvlshr"),
            K::AShr => b2("bvashr"),
            K::And => b2("bvand"),
            K::Or => b2("bvor"),
            K::Xor => b2("bvxor"),
            K::Concat => b2("concat"),
            K::Extract => format!("((_ extract {} {}) {})", tm.imm as u32 + tm.s.bits() - 1, tm.imm, a[0]),
            K::ZExt => format!("((_ zero_extend {}) {})", tm.s.bits() - asort.bits(), a[0]),
            K::SExt => format!("((_ sign_extend {}) {})", tm.s.bits() - asort.bits(), a[0]),
            K::Ite => format!("(ite {} {} {})", a[0], a[1], a[2]),
            K::Not => format!("(not {})", a[0]),
            K::BAnd => b2("and"),
            K::BOr => b2("or"),
            K::Eq => b2("="),
            K::Ult => b2("bvult"),
            K::Ule => b2("bvule"),
            K::Slt => b2("bvslt"),
            K::Sle => b2("bvsle"),
            K::FToBits | K::BitsToF => a[0].clone(),
            K::FNeg => format!("(bvxor {} {})", a[0], bv(tm.s.bits(), 1u128 << (tm.s.bits() - 1))),
            K::FAbs => format!("(bvand {} {})", a[0], bv(tm.s.bits(), (1u128 << (tm.s.bits() - 1)) - 1)),
            K::FLt | K::FLe | K::FEq | K::FIsNan => {
                let w = asort.bits();
                let f = match tm.k {
                    K::FLt => "flt",
                    K::FLe => "fle",
                    K::FEq => "feq",
                    _ => "fnan",
                };
                let nm = format!("{}{}", f, w);
                self.fp_prelude(w, out);
                format!("({} {})", nm, a.join(" "))
            }
            // uninterpreted
            _ => {
                let nm = match tm.k {
                    K::FUn => format!("u_{}_{}", FN_NAMES[tm.imm as usize], tm.s.bits()),
                    K::FBin => format!("u_{}_{}", FB_NAMES[tm.imm as usize], tm.s.bits()),
                    K::PowI => format!("u_powi{}_{}", tm.imm, tm.s.bits()),
                    k => format!("u_{:?}_{}_{}", k, asort.bits(), tm.s.bits()),
                };
                if self.declared_fn.insert(nm.clone()) {
                    let doms: Vec<String> = tm.args().iter().map(|x| sort_a(ar.sort(*x))).collect();
                    let _ = writeln!(out, "(declare-fun {} ({}) {})", nm, doms.join(" "), sort_a(tm.s));
                }
                format!("({} {})", nm, a.join(" "))
            }
        }
    }

    fn fp_prelude(&mut self, w: u32, out: &mut String) {
        if !self.declared_fn.insert(format!("prelude{}", w)) {
            return;
        }
        let srt = format!("(_ BitVec {})", w);
        let (eh, el) = if w == 32 { (30, 23) } else { (62, 52) };
        let ones = if w == 32 { "#xff".to_string() } else { "#b11111111111".to_string() };
        let z = bv(w, 0);
        let one = bv(w, 1);
        let top = bv(w, 1u128 << (w - 1));
        let _ = writeln!(out, "(define-fun fnan{w} ((x {s})) Bool (and (= ((_ extract {eh} {el}) x) {ones}) (not (= ((_ extract {l} 0) x) {zz}))))", w = w, s = srt, eh = eh, el = el, ones = ones, l = el - 1, zz = bv(el, 0));
        let _ = writeln!(out, "(define-fun fzz{w} ((x {s}) (y {s})) Bool (= (bvshl (bvor x y) {one}) {z}))", w = w, s = srt, one = one, z = z);
        let _ = writeln!(out, "(define-fun fkey{w} ((x {s})) {s} (ite (= ((_ extract {h} {h}) x) #b1) (bvnot x) (bvor x {top})))", w = w, s = srt, h = w - 1, top = top);
        let _ = writeln!(out, "(define-fun flt{w} ((x {s}) (y {s})) Bool (and (not (fnan{w} x)) (not (fnan{w} y)) (not (fzz{w} x y)) (bvult (fkey{w} x) (fkey{w} y))))", w = w, s = srt);
        let _ = writeln!(out, "(define-fun fle{w} ((x {s}) (y {s})) Bool (and (not (fnan{w} x)) (not (fnan{w} y)) (or (fzz{w} x y) (bvule (fkey{w} x) (fkey{w} y)))))", w = w, s = srt);
        let _ = writeln!(out, "(define-fun feq{w} ((x {s}) (y {s})) Bool (and (not (fnan{w} x)) (not (fnan{w} y)) (or (fzz{w} x y) (= x y))))", w = w, s = srt);
    }

    /// Decide the conjunction of the given Bool terms; on sat returns a model of the variables.
    pub fn check(&mut self, ar: &Arena, conds: &[u32], want_model: bool) -> (Sat, Option<HashMap<u32, u128>>) {
        let mut key: Vec<u32> = conds.to_vec();
        key.sort();
        key.dedup();
        if key.contains(&Arena::FALSE) {
            return (Sat::Unsat, None);
        }
        key.retain(|x| *x != Arena::TRUE);
        if let Some((s, m)) = self.cache.get(&key) {
            if *s != Sat::Sat || !want_model || m.is_some() {
                self.stats.cached += 1;
                return (*s, m.clone());
            }
        }
        if self.p.is_none() || self.queries_since_restart > 20000 {
            self.kill();
            self.start();
        }
        self.queries_since_restart += 1;
        if self.defined.len() > self.max_defs {
            // model construction in z3 is linear in the number of definitions
            self.defined.clear();
            self.declared_fn.clear();
            let t = self.timeout_ms;
            self.send(&format!("(reset)\n(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :timeout {})\n", t));
        }
        let mut out = String::new();
        for c in &key {
            self.define(ar, *c, &mut out);
        }
        // finite mode: computed floats that are compared are not NaN
        out.push_str("(push)\n");
        for c in &key {
            let _ = writeln!(out, "(assert {})", self.r(ar, *c));
        }
        if ar.finite {
            let mut seen = HashSet::new();
            let mut st: Vec<u32> = key.clone();
            while let Some(x) = st.pop() {
                if !seen.insert(x) {
                    continue;
                }
                let tm = &ar.t[x as usize];
                if matches!(tm.k, K::FLt | K::FLe | K::FEq) {
                    for a in tm.args() {
                        let ta = &ar.t[*a as usize];
                        if !matches!(ta.k, K::Const | K::Var) {
                            let w = ta.s.bits();
                            let mut pre = String::new();
                            self.fp_prelude(w, &mut pre);
                            out.push_str(&pre);
                            let _ = writeln!(out, "(assert (not (fnan{} {})))", w, self.r(ar, *a));
                        }
                    }
                }
                st.extend_from_slice(tm.args());
            }
        }
        out.push_str("(check-sat)\n");
        let t0 = Instant::now();
        self.send(&out);
        let deadline = t0 + Duration::from_millis(self.timeout_ms * 2 + 3000);
        let mut res = Sat::Unknown;
        loop {
            match self.recv(deadline) {
                Some(l) => match l.trim() {
                    "sat" => {
                        res = Sat::Sat;
                        break;
                    }
                    "unsat" => {
                        res = Sat::Unsat;
                        break;
                    }
                    "unknown" | "timeout" => break,
                    s if s.starts_with("(error") => {
                        eprintln!("solver error: {}", s);
                        self.kill();
                        break;
                    }
                    _ => {}
                },
                None => {
                    self.kill();
                    break;
                }
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        match res {
            Sat::Sat => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown => self.stats.unknown += 1,
        }
        let mut model = None;
        if res == Sat::Sat && want_model {
            let vars = ar.vars_of(&key);
            let mut m = HashMap::new();
            // variable id -> term id
            let mut names = String::from("(get-value (");
            let mut n = 0;
            let mut order = vec![];
            for v in &vars {
                // find term id of the variable
                let tid = ar.var_term(*v);
                let _ = write!(names, "t{} ", tid);
                order.push((*v, tid));
                n += 1;
            }
            names.push_str("))\n");
            if n > 0 {
                self.send(&names);
                // response may span several lines; parse by balancing parentheses
                let mut buf = String::new();
                let mut ok = true;
                loop {
                    match self.recv(Instant::now() + Duration::from_millis(10000)) {
                        Some(l) => {
                            buf.push_str(&l);
                            buf.push('\n');
                            let o = buf.matches('(').count();
                            let c = buf.matches(')').count();
                            if o > 0 && o == c {
                                break;
                            }
                        }
                        None => {
                            ok = false;
                            self.kill();
                            break;
                        }
                    }
                }
                if ok {
                    let toks: Vec<&str> = buf.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|s| !s.is_empty()).collect();
                    let mut i = 0;
                    let byname: HashMap<String, u32> = order.iter().map(|(v, t)| (format!("t{}", t), *v)).collect();
                    while i + 1 < toks.len() {
                        if let Some(v) = byname.get(toks[i]) {
                            let s = toks[i + 1];
                            let val = if let Some(h) = s.strip_prefix("#x") {
                                u128::from_str_radix(h, 16).ok()
                            } else if let Some(h) = s.strip_prefix("#b") {
                                u128::from_str_radix(h, 2).ok()
                            } else if s == "true" {
                                Some(1)
                            } else if s == "false" {
                                Some(0)
                            } else {
                                None
                            };
                            if let Some(x) = val {
                                m.insert(*v, x);
                            }
                            i += 2;
                        } else {
                            i += 1;
                        }
                    }
                }
            }
            model = Some(m);
        }
        self.send("(pop)\n");
        self.cache.insert(key, (res, model.clone()));
        (res, model)
    }

    /// Query over real variables, in its own scope.
    pub fn real_query(&mut self, decl: &[String], body: &str) -> Sat {
        if self.p.is_none() || self.queries_since_restart > 20000 {
            self.kill();
            self.start();
        }
        self.queries_since_restart += 1;
        let mut out = String::new();
        for d in decl {
            if self.declared_fn.insert(d.clone()) {
                let _ = writeln!(out, "(declare-const {} Real)", d);
            }
        }
        out.push_str("(push)\n");
        out.push_str(body);
        out.push_str("(check-sat)\n(pop)\n");
        let t0 = Instant::now();
        self.send(&out);
        let deadline = t0 + Duration::from_millis(self.timeout_ms * 2 + 3000);
        let mut res = Sat::Unknown;
        loop {
            match self.recv(deadline) {
                Some(l) => match l.trim() {
                    "sat" => {
                        res = Sat::Sat;
                        break;
                    }
                    "unsat" => {
                        res = Sat::Unsat;
                        break;
                    }
                    "unknown" | "timeout" => break,
                    s if s.starts_with("(error") => {
                        eprintln!("solver error: {}", s);
                        self.kill();
                        break;
                    }
                    _ => {}
                },
                None => {
                    self.kill();
                    break;
                }
            }
        }
        self.note(res, t0.elapsed().as_secs_f64());
        res
    }
    fn note(&mut self, res: Sat, dt: f64) {
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        match res {
            Sat::Sat => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown => self.stats.unknown += 1,
        }
    }

    /// One-shot script (used for real-arithmetic and exact floating-point queries).
    pub fn script(&mut self, text: &str, timeout_ms: u64) -> (Sat, Vec<String>) {
        let t0 = Instant::now();
        let mut child = match Command::new(&self.cmd[0]).args(&self.cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            Ok(c) => c,
            Err(_) => return (Sat::Unknown, vec![]),
        };
        let mut stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let r = BufReader::new(out);
            for l in r.lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        let _ = stdin.write_all(format!("(set-option :timeout {})\n", timeout_ms).as_bytes());
        let _ = stdin.write_all(text.as_bytes());
        let _ = stdin.write_all(b"\n(exit)\n");
        drop(stdin);
        let deadline = t0 + Duration::from_millis(timeout_ms + 3000);
        let mut res = Sat::Unknown;
        let mut lines = vec![];
        loop {
            match rx.recv_timeout(deadline.saturating_duration_since(Instant::now())) {
                Ok(l) => {
                    match l.trim() {
                        "sat" => res = Sat::Sat,
                        "unsat" => res = Sat::Unsat,
                        _ => {}
                    }
                    lines.push(l);
                }
                Err(_) => break,
            }
        }
        let _ = child.kill();
        let _ = child.wait();
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        match res {
            Sat::Sat => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown => self.stats.unknown += 1,
        }
        (res, lines)
    }
}
