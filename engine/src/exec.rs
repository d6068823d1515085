//! The symbolic executor: interprets LLVM IR over concrete and symbolic values, forking on every
//! branch whose two sides the solver (or a concrete witness) finds feasible.
use crate::ir::*;
use crate::poly::Verdict;
use crate::solver::{Sat, Solver};
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Instant;

pub enum Stop {
    Panic(String),
    Mem(String),
    Assume,
    Limit(String),
    Unsup(String),
    Done,
}
type R<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// 0 concrete, 1 symbolic, 2 never written
    pub st: Vec<u8>,
    pub sym: Vec<(u32, u8)>,
    pub nonconc: usize,
    pub heap: bool,
    pub ro: bool,
    pub freed: bool,
}
impl Obj {
    fn new(n: usize, heap: bool, init: bool) -> Obj {
        Obj {
            data: vec![0; n],
            st: vec![if init { 0 } else { 2 }; n],
            sym: vec![],
            nonconc: if init { 0 } else { n },
            heap,
            ro: false,
            freed: false,
        }
    }
    fn set_st(&mut self, i: usize, s: u8) {
        let o = self.st[i];
        if (o == 0) != (s == 0) {
            if s == 0 {
                self.nonconc -= 1;
            } else {
                self.nonconc += 1;
            }
        }
        self.st[i] = s;
    }
}

const CH: usize = 256;
const DYN_BASE: u64 = 0x1000;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Arc<Vec<Option<Arc<Obj>>>>>,
    next: u64,
    globals: HashMap<u32, Arc<Obj>>,
    pub live_heap: i64,
}

impl Mem {
    fn new() -> Mem {
        Mem { chunks: vec![], next: 0, globals: HashMap::new(), live_heap: 0 }
    }
    fn add(&mut self, o: Obj) -> u64 {
        let id = self.next;
        self.next += 1;
        let c = id as usize / CH;
        if c >= self.chunks.len() {
            self.chunks.push(Arc::new(vec![None; CH]));
        }
        Arc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(Arc::new(o));
        (id + DYN_BASE) << 32
    }
    fn get(&self, id: u64) -> Option<&Arc<Obj>> {
        let i = id.checked_sub(DYN_BASE)? as usize;
        self.chunks.get(i / CH)?[i % CH].as_ref()
    }
    fn get_mut(&mut self, id: u64) -> Option<&mut Arc<Obj>> {
        let i = id.checked_sub(DYN_BASE)? as usize;
        Arc::make_mut(self.chunks.get_mut(i / CH)?)[i % CH].as_mut()
    }
    fn remove(&mut self, id: u64) {
        let i = (id - DYN_BASE) as usize;
        Arc::make_mut(&mut self.chunks[i / CH])[i % CH] = None;
    }
}

#[derive(Clone)]
pub struct Frame {
    func: u32,
    body: &'static Body,
    regs: Vec<Val>,
    block: u32,
    ip: usize,
    dst: Option<u32>,
    normal: Option<u32>,
    allocas: Vec<u64>,
}

pub struct Model {
    pub vals: HashMap<u32, u128>,
    memo: RefCell<HashMap<u32, u128>>,
}
impl Model {
    fn new(vals: HashMap<u32, u128>) -> Model {
        Model { vals, memo: RefCell::new(HashMap::new()) }
    }
    fn eval(&self, ar: &Arena, t: u32) -> u128 {
        ar.eval(t, &self.vals, &mut self.memo.borrow_mut())
    }
}

/// One element of the input stream of a path, in the order the harness asked for it.
#[derive(Clone, Debug)]
pub enum Input {
    Var(u32, S),
    Choice(u32),
    /// expected values computed by the engine (terms)
    Oracle(Vec<u32>),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    /// the stacks of the threads that are not running (the running one's is empty)
    stacks: Vec<Vec<Frame>>,
    cur: usize,
    pub mem: Mem,
    pub pc: Vec<u32>,
    known: HashMap<u32, bool>,
    eqs: HashMap<u32, u128>,
    pub inputs: Vec<Input>,
    pub expect_panic: bool,
    pub may_panic: bool,
    pub model: Option<Rc<Model>>,
    pub steps: u64,
    pub obs: Vec<(Rc<str>, u32)>,
    /// callback to run when an expected panic ends the path
    on_panic: Option<(u32, u64)>,
    post: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CandKind {
    Check,
    Feq,
    Bits,
    Panic,
    NoPanic,
    Mem,
    Hang,
}

/// A candidate violation: to be confirmed by running the real code natively.
#[derive(Clone)]
pub struct Cand {
    pub label: String,
    pub kind: CandKind,
    pub detail: String,
    pub inputs: Vec<Input>,
    pub pc: Vec<u32>,
    pub models: Vec<HashMap<u32, u128>>,
    pub terms: Option<(u32, u32)>,
}

#[derive(Default, Clone)]
pub struct LabelStat {
    pub reached: u64,
    pub trivially: u64,
    pub by_smt: u64,
    pub by_real: u64,
    pub by_tol: u64,
    pub by_fp: u64,
    pub candidates: u64,
    pub inconclusive: u64,
}

pub struct Limits {
    pub steps_per_path: u64,
    pub paths: u64,
    pub deadline: Instant,
    pub tier: u32,
}

pub struct PathRec {
    pub inputs: Vec<Input>,
    pub pc: Vec<u32>,
    pub model: Option<Rc<Model>>,
    pub obs: Vec<(Rc<str>, u32)>,
    pub ended: &'static str,
}

pub struct Ex {
    pub m: &'static Module,
    pub ar: Arena,
    pub sol: Solver,
    intr: Vec<Option<Intr>>,
    work: Vec<State>,
    gcache: HashMap<u32, Arc<Obj>>,
    pub labels: BTreeMap<String, LabelStat>,
    pub cands: Vec<Cand>,
    pub paths_done: u64,
    pub paths_panic_ok: u64,
    pub paths_assume: u64,
    pub paths_limit: u64,
    pub unsup: Vec<String>,
    pub instrs: u64,
    pub branches: u64,
    pub forks: u64,
    pub lim: Limits,
    pub kept: Vec<PathRec>,
    pub keep_max: usize,
    pub funcs_seen: HashSet<u32>,
    pub rng: u64,
    pub strict_fp: bool,
    pub fp_secs: u64,
    pub reached_ok: bool,
    pub truncated: bool,
    nvar: u32,
    pub poly: crate::poly::Ctx,
    pub rsol: Solver,
    pub samples: Vec<String>,
    nonjob_choice: Option<u32>,
    pub retval: Option<u128>,
    pub fpstats: crate::solver::Stats,
    pub cand_from: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Intr {
    None,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    NopFn,
    HashKeys,
    Panic,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Lifetime(bool),
    Assume,
    Ovf(u8), // 0 uadd 1 usub 2 umul 3 sadd 4 ssub 5 smul
    Sat_(u8), // uadd usub sadd ssub
    MinMax(u8), // umin umax smin smax
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitReverse,
    Abs,
    Fsh(bool),
    FAbs,
    FSqrt,
    FUn(u8),
    FBin(u8),
    PowI,
    FMinMax(bool),
    CopySign,
    Fma,
    FpToIntSat(bool),
    Expect,
    ThreadLocal,
    IsConstant,
    FpClass,
    UCmp(bool),
    VReduce(u8), // 0 or 1 and 2 add
    // harness intrinsics
    SymU32,
    SymF32,
    SymF32Any,
    Choose,
    AssumeH,
    Check,
    CheckFeq,
    CheckBits,
    ExpectPanic,
    MayPanic,
    Reach,
    Vjp,
    LiveHeap,
    FillSym,
    StrictFp,
    Job,
    Tier,
    OnPanic,
    CheckFinite,
    GetRandom,
    Syscall0,
    IsLive,
    Spawn,
    Switch,
    Stack,
}

fn classify(name: &str, pretty: &str, has_body: bool) -> Intr {
    if name.starts_with("__vx_") {
        return match name {
            "__vx_sym_u32" => Intr::SymU32,
            "__vx_sym_f32" => Intr::SymF32,
            "__vx_sym_f32_any" => Intr::SymF32Any,
            "__vx_choose" => Intr::Choose,
            "__vx_assume" => Intr::AssumeH,
            "__vx_check" => Intr::Check,
            "__vx_check_feq" => Intr::CheckFeq,
            "__vx_check_bits" => Intr::CheckBits,
            "__vx_expect_panic" => Intr::ExpectPanic,
            "__vx_may_panic" => Intr::MayPanic,
            "__vx_reach" => Intr::Reach,
            "__vx_vjp" => Intr::Vjp,
            "__vx_live_heap" => Intr::LiveHeap,
            "__vx_fill_sym" => Intr::FillSym,
            "__vx_strict_fp" => Intr::StrictFp,
            "__vx_job" => Intr::Job,
            "__vx_tier" => Intr::Tier,
            "__vx_on_panic" => Intr::OnPanic,
            "__vx_check_finite" => Intr::CheckFinite,
            "__vx_is_live" => Intr::IsLive,
            "__vx_spawn" => Intr::Spawn,
            "__vx_switch" => Intr::Switch,
            "__vx_stack" => Intr::Stack,
            _ => Intr::None,
        };
    }
    if let Some(n) = name.strip_prefix("llvm.") {
        let p = |x: &str| n.starts_with(x);
        let f = |i: u128| Intr::FUn(i as u8);
        return if p("lifetime.start") {
            Intr::Lifetime(true)
        } else if p("lifetime.end") {
            Intr::Lifetime(false)
        } else if p("assume") {
            Intr::Assume
        } else if p("experimental.noalias") || p("dbg.") || p("prefetch") || p("x86.sse2.pause") || p("donothing") || p("x86.avx.vzeroupper") {
            Intr::NopFn
        } else if p("memcpy") || p("memmove") {
            Intr::Memcpy
        } else if p("memset") {
            Intr::Memset
        } else if p("uadd.with") {
            Intr::Ovf(0)
        } else if p("usub.with") {
            Intr::Ovf(1)
        } else if p("umul.with") {
            Intr::Ovf(2)
        } else if p("sadd.with") {
            Intr::Ovf(3)
        } else if p("ssub.with") {
            Intr::Ovf(4)
        } else if p("smul.with") {
            Intr::Ovf(5)
        } else if p("uadd.sat") {
            Intr::Sat_(0)
        } else if p("usub.sat") {
            Intr::Sat_(1)
        } else if p("sadd.sat") {
            Intr::Sat_(2)
        } else if p("ssub.sat") {
            Intr::Sat_(3)
        } else if p("umin") {
            Intr::MinMax(0)
        } else if p("umax") {
            Intr::MinMax(1)
        } else if p("smin") {
            Intr::MinMax(2)
        } else if p("smax") {
            Intr::MinMax(3)
        } else if p("ctlz") {
            Intr::Ctlz
        } else if p("cttz") {
            Intr::Cttz
        } else if p("ctpop") {
            Intr::Ctpop
        } else if p("bswap") {
            Intr::Bswap
        } else if p("bitreverse") {
            Intr::BitReverse
        } else if p("abs.") {
            Intr::Abs
        } else if p("fshl") {
            Intr::Fsh(true)
        } else if p("fshr") {
            Intr::Fsh(false)
        } else if p("fabs") {
            Intr::FAbs
        } else if p("sqrt") {
            Intr::FSqrt
        } else if p("exp2.") {
            f(FN_EXP2)
        } else if p("exp.") {
            f(FN_EXP)
        } else if p("log2.") {
            f(FN_LOG2)
        } else if p("log10.") {
            f(FN_LOG10)
        } else if p("log.") {
            f(FN_LN)
        } else if p("sin.") {
            f(FN_SIN)
        } else if p("cos.") {
            f(FN_COS)
        } else if p("tan.") {
            f(FN_TAN)
        } else if p("tanh.") {
            f(FN_TANH)
        } else if p("sinh.") {
            f(FN_SINH)
        } else if p("cosh.") {
            f(FN_COSH)
        } else if p("floor") {
            f(FN_FLOOR)
        } else if p("ceil") {
            f(FN_CEIL)
        } else if p("trunc.") {
            f(FN_TRUNC)
        } else if p("rint") || p("roundeven") || p("nearbyint") {
            f(FN_RINT)
        } else if p("round") {
            f(FN_ROUND)
        } else if p("powi") {
            Intr::PowI
        } else if p("pow.") {
            Intr::FBin(FB_POW as u8)
        } else if p("maxnum") || p("maximum") {
            Intr::FMinMax(true)
        } else if p("minnum") || p("minimum") {
            Intr::FMinMax(false)
        } else if p("copysign") {
            Intr::CopySign
        } else if p("fmuladd") || p("fma.") {
            Intr::Fma
        } else if p("fptosi.sat") {
            Intr::FpToIntSat(true)
        } else if p("fptoui.sat") {
            Intr::FpToIntSat(false)
        } else if p("expect") {
            Intr::Expect
        } else if p("threadlocal.address") {
            Intr::ThreadLocal
        } else if p("is.fpclass") {
            Intr::FpClass
        } else if p("is.constant") {
            Intr::IsConstant
        } else if p("ucmp") {
            Intr::UCmp(false)
        } else if p("scmp") {
            Intr::UCmp(true)
        } else if p("vector.reduce.or") {
            Intr::VReduce(0)
        } else if p("vector.reduce.and") {
            Intr::VReduce(1)
        } else if p("vector.reduce.add") {
            Intr::VReduce(2)
        } else if p("trap") || p("ubsantrap") {
            Intr::Panic
        } else {
            Intr::None
        };
    }
    if name.ends_with("12___rust_alloc") {
        return Intr::Alloc;
    }
    if name.ends_with("19___rust_alloc_zeroed") {
        return Intr::AllocZ;
    }
    if name.ends_with("14___rust_dealloc") {
        return Intr::Dealloc;
    }
    if name.ends_with("14___rust_realloc") {
        return Intr::Realloc;
    }
    if name.contains("___rust_no_alloc_shim") {
        return Intr::NopFn;
    }
    if name.contains("19hashmap_random_keys") {
        return Intr::HashKeys;
    }
    if name.contains("9getrandom9getrandom") {
        return Intr::GetRandom;
    }
    if has_body {
        let core_or_std = name.contains("4core") || name.contains("3std") || name.contains("5alloc") || name.contains("7___rustc");
        if core_or_std
            && (name.contains("9panicking") && !name.contains("11panic_count") && !name.contains("9panicking8panicking")
                || name.contains("13unwrap_failed")
                || name.contains("13expect_failed")
                || name.contains("slice_index_fail")
                || name.contains("slice_error_fail")
                || name.contains("7raw_vec12handle_error")
                || name.contains("17capacity_overflow")
                || name.contains("18handle_alloc_error")
                || name.contains("panic_already_borrowed")
                || name.contains("panic_already_mutably_borrowed")
                || name.contains("_13assert_failed")
                || name.contains("len_mismatch_fail")
                || name.contains("copy_from_slice_impl")
                || name.contains("rust_begin_unwind")
                || name.contains("begin_panic")
                || name.contains("13panic_display"))
            && !name.contains("drop_glue")
            && !name.contains("copy_from_slice_impl")
        {
            let _ = pretty;
            return Intr::Panic;
        }
        return Intr::None;
    }
    match name {
        "memcmp" => Intr::Memcmp,
        "bcmp" => Intr::Bcmp,
        "strlen" => Intr::Strlen,
        "memcpy" | "memmove" => Intr::Memcpy,
        "abort" => Intr::Panic,
        "expf" | "exp" => Intr::FUn(FN_EXP as u8),
        "logf" | "log" => Intr::FUn(FN_LN as u8),
        "log1pf" | "log1p" => Intr::FUn(FN_LN1P as u8),
        "expm1f" | "expm1" => Intr::FUn(FN_EXPM1 as u8),
        "tanf" | "tan" => Intr::FUn(FN_TAN as u8),
        "tanhf" | "tanh" => Intr::FUn(FN_TANH as u8),
        "sinf" | "sin" => Intr::FUn(FN_SIN as u8),
        "cosf" | "cos" => Intr::FUn(FN_COS as u8),
        "sinhf" | "sinh" => Intr::FUn(FN_SINH as u8),
        "coshf" | "cosh" => Intr::FUn(FN_COSH as u8),
        "asinf" | "asin" => Intr::FUn(FN_ASIN as u8),
        "acosf" | "acos" => Intr::FUn(FN_ACOS as u8),
        "atanf" | "atan" => Intr::FUn(FN_ATAN as u8),
        "cbrtf" | "cbrt" => Intr::FUn(FN_CBRT as u8),
        "exp2f" | "exp2" => Intr::FUn(FN_EXP2 as u8),
        "log2f" | "log2" => Intr::FUn(FN_LOG2 as u8),
        "log10f" | "log10" => Intr::FUn(FN_LOG10 as u8),
        "powf" | "pow" => Intr::FBin(FB_POW as u8),
        "fmodf" | "fmod" => Intr::FBin(FB_FMOD as u8),
        "atan2f" | "atan2" => Intr::FBin(FB_ATAN2 as u8),
        "hypotf" | "hypot" => Intr::FBin(FB_HYPOT as u8),
        "sqrtf" | "sqrt" => Intr::FSqrt,
        "__cxa_thread_atexit_impl" | "pthread_atfork" | "pthread_key_create" | "pthread_setspecific" | "gettid" => Intr::Syscall0,
        _ => Intr::None,
    }
}

fn vsort(t: &Ty) -> S {
    match t {
        Ty::Int(1) => S::Bool,
        Ty::Int(n) => S::BV(*n),
        Ty::Ptr => S::BV(64),
        Ty::F32 => S::F32,
        Ty::F64 => S::F64,
        _ => panic!("vsort {:?}", t),
    }
}

fn fcmp_conc(p: FCmp, a: f64, b: f64) -> bool {
    let un = a.is_nan() || b.is_nan();
    match p {
        FCmp::False => false,
        FCmp::True => true,
        FCmp::Oeq => a == b,
        FCmp::Ogt => a > b,
        FCmp::Oge => a >= b,
        FCmp::Olt => a < b,
        FCmp::Ole => a <= b,
        FCmp::One => !un && a != b,
        FCmp::Ord => !un,
        FCmp::Uno => un,
        FCmp::Ueq => un || a == b,
        FCmp::Ugt => un || a > b,
        FCmp::Uge => un || a >= b,
        FCmp::Ult => un || a < b,
        FCmp::Ule => un || a <= b,
        FCmp::Une => un || a != b,
    }
}

enum Flow {
    Next,
    Stay, // control already set (jump/call/ret)
}

impl Ex {
    pub fn new(m: &'static Module, z3: &str, lim: Limits, seed: u64) -> Ex {
        Ex {
            m,
            ar: Arena::new(),
            sol: Solver::new(z3, 10000),
            intr: vec![None; m.funcs.len()],
            work: vec![],
            gcache: HashMap::new(),
            labels: BTreeMap::new(),
            cands: vec![],
            paths_done: 0,
            paths_panic_ok: 0,
            paths_assume: 0,
            paths_limit: 0,
            unsup: vec![],
            instrs: 0,
            branches: 0,
            forks: 0,
            lim,
            kept: vec![],
            keep_max: 2,
            funcs_seen: HashSet::new(),
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567,
            strict_fp: false,
            fp_secs: 40,
            reached_ok: false,
            truncated: false,
            nvar: 0,
            poly: crate::poly::Ctx::new(),
            rsol: Solver::new(z3, 8000),
            samples: vec![],
            nonjob_choice: None,
            retval: None,
            fpstats: Default::default(),
            cand_from: 0,
        }
    }

    pub fn into_solvers(self) -> (Solver, Solver) {
        (self.sol, self.rsol)
    }

    pub fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    pub fn run(&mut self, entry: &str, job: u32) {
        self.nonjob_choice = Some(job);
        let f = *self.m.fidx.get(entry).unwrap_or_else(|| panic!("no harness {}", entry));
        let body = self.m.body(f);
        let fr = Frame { func: f, body, regs: vec![Val::U; body.nregs as usize], block: 0, ip: 0, dst: None, normal: None, allocas: vec![] };
        let st = State {
            frames: vec![fr],
            stacks: vec![vec![]],
            cur: 0,
            mem: Mem::new(),
            pc: vec![],
            known: HashMap::new(),
            eqs: HashMap::new(),
            inputs: vec![],
            expect_panic: false,
            may_panic: false,
            model: Some(Rc::new(Model::new(HashMap::new()))),
            steps: 0,
            obs: vec![],
            on_panic: None,
            post: false,
        };
        self.work.push(st);
    }

    /// Explores until every path has ended (true), or candidates have waited long enough (false).
    pub fn explore(&mut self, stop: &std::sync::atomic::AtomicBool) -> bool {
        let mut since: Option<Instant> = None;
        loop {
            if stop.load(std::sync::atomic::Ordering::Relaxed) {
                return true;
            }
            if !self.cands.is_empty() {
                let s = *since.get_or_insert_with(Instant::now);
                if s.elapsed().as_millis() > 700 || self.cands.len() > 12 {
                    return self.work.is_empty();
                }
            }
            let st = match self.work.pop() {
                Some(s) => s,
                None => return true,
            };
            if self.paths_done + self.paths_panic_ok + self.paths_limit >= self.lim.paths || Instant::now() > self.lim.deadline {
                self.truncated = true;
                self.work.clear();
                return true;
            }
            self.run_state(st);
        }
    }

    fn run_state(&mut self, mut st: State) {
        let stop;
        loop {
            match self.step(&mut st) {
                Ok(()) => {
                    if st.frames.is_empty() {
                        stop = Stop::Done;
                        break;
                    }
                }
                Err(Stop::Panic(_)) if (st.expect_panic || st.may_panic) && st.on_panic.is_some() => {
                    // the request was refused: run the harness callback on the state it left behind
                    let (fid, ctx) = st.on_panic.take().unwrap();
                    let body = self.m.body(fid);
                    let mut regs = vec![Val::U; body.nregs as usize];
                    if let Some(p) = body.params.first() {
                        regs[*p as usize] = Val::C(ctx as u128);
                    }
                    st.frames = vec![Frame { func: fid, body, regs, block: 0, ip: 0, dst: None, normal: None, allocas: vec![] }];
                    st.expect_panic = false;
                    st.may_panic = false;
                    st.post = true;
                }
                Err(e) => {
                    stop = e;
                    break;
                }
            }
        }
        let ended;
        match stop {
            Stop::Done if st.post => {
                self.paths_panic_ok += 1;
                let l = self.labels.entry("refused".into()).or_default();
                l.reached += 1;
                ended = "panic(expected)";
            }
            Stop::Done => {
                self.paths_done += 1;
                ended = "done";
            }
            Stop::Panic(msg) => {
                if st.expect_panic || st.may_panic {
                    self.paths_panic_ok += 1;
                    let l = self.labels.entry("refused".into()).or_default();
                    l.reached += 1;
                    ended = "panic(expected)";
                } else {
                    self.paths_done += 1;
                    self.cand(&st, "panic".into(), CandKind::Panic, msg, vec![]);
                    ended = "panic";
                }
            }
            Stop::Mem(msg) => {
                self.paths_done += 1;
                self.cand(&st, "memory".into(), CandKind::Mem, msg, vec![]);
                ended = "memory";
            }
            Stop::Assume => {
                self.paths_assume += 1;
                return;
            }
            Stop::Limit(msg) => {
                self.paths_limit += 1;
                self.cand(&st, "termination".into(), CandKind::Hang, msg, vec![]);
                ended = "limit";
            }
            Stop::Unsup(s) => {
                let w = self.where_(&st);
                if self.unsup.len() < 20 {
                    self.unsup.push(format!("{} in {}", s, w));
                }
                self.paths_limit += 1;
                return;
            }
        }
        if ended == "done" || ended == "panic(expected)" {
            // keep a few paths (reservoir) for validation against the real code
            let n = self.paths_done + self.paths_panic_ok;
            let keep = if self.kept.len() < self.keep_max {
                Some(self.kept.len())
            } else {
                let r = self.rand() % n;
                if (r as usize) < self.keep_max {
                    Some(r as usize)
                } else {
                    None
                }
            };
            if let Some(i) = keep {
                let rec = PathRec { inputs: st.inputs.clone(), pc: st.pc.clone(), model: st.model.clone(), obs: st.obs.clone(), ended };
                if i < self.kept.len() {
                    self.kept[i] = rec;
                } else {
                    self.kept.push(rec);
                }
            }
        }
    }

    fn where_(&self, st: &State) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev().take(6) {
            let fu = &self.m.funcs[f.func as usize];
            v.push(if fu.pretty.is_empty() { fu.name.clone() } else { fu.pretty.clone() });
        }
        v.join(" < ")
    }

    fn cand(&mut self, st: &State, label: String, kind: CandKind, detail: String, models: Vec<HashMap<u32, u128>>) {
        let w = self.where_(st);
        let e = self.labels.entry(label.clone()).or_default();
        e.candidates += 1;
        if e.candidates > 6 {
            return;
        }
        let mut models = models;
        if kind != CandKind::Check && kind != CandKind::Feq && kind != CandKind::Bits {
            if let Some(m) = &st.model {
                models.push(m.vals.clone());
            }
            let pc = st.pc.clone();
            let (s, m) = self.sol.check(&self.ar, &pc, true);
            if s == Sat::Unsat {
                return;
            }
            if let Some(m) = m {
                models.push(m);
            }
        }
        self.cands.push(Cand {
            label,
            kind,
            detail: format!("{} [{}]", detail, w),
            inputs: st.inputs.clone(),
            pc: st.pc.clone(),
            models,
            terms: None,
        });
    }

    // ---- values ----

    fn term(&mut self, v: &Val, s: S) -> u32 {
        match v {
            Val::C(c) => self.ar.cst(s, *c),
            Val::T(t) => {
                let ts = self.ar.sort(*t);
                if ts == s {
                    *t
                } else if s == S::F32 || s == S::F64 {
                    self.ar.un(K::BitsToF, s, 0, *t)
                } else if ts.is_fp() {
                    self.ar.un(K::FToBits, s, 0, *t)
                } else if s == S::Bool {
                    let o = self.ar.cst(ts, 1);
                    let one = self.ar.bin(K::And, *t, o);
                    self.ar.eq(one, o)
                } else if ts == S::Bool {
                    self.ar.bool_to_bv(*t, s.bits())
                } else {
                    panic!("term sort mismatch {:?} {:?}", ts, s)
                }
            }
            Val::U => self.ar.cst(s, 0),
            Val::V(_) => panic!("aggregate used as scalar"),
        }
    }
    fn wrap(&self, t: u32) -> Val {
        match self.ar.as_const(t) {
            Some(c) => Val::C(c),
            None => Val::T(t),
        }
    }

    #[inline]
    fn op(&self, st: &State, o: &Op) -> Val {
        match o {
            Op::R(r) => st.frames[st.frames.len() - 1].regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        if d != u32::MAX {
            let n = st.frames.len() - 1;
            st.frames[n].regs[d as usize] = v;
        }
    }

    // ---- path condition ----

    fn lookup(&mut self, st: &State, c: u32) -> Option<bool> {
        if c == Arena::TRUE {
            return Some(true);
        }
        if c == Arena::FALSE {
            return Some(false);
        }
        if let Some(b) = st.known.get(&c) {
            return Some(*b);
        }
        let tm = &self.ar.t[c as usize];
        if tm.k == K::Not {
            if let Some(b) = st.known.get(&tm.a[0]) {
                return Some(!*b);
            }
        }
        if !st.eqs.is_empty() {
            if let Some(v) = self.subst_eval(st, c) {
                return Some(v != 0);
            }
        }
        None
    }

    /// Value of a term all of whose variables are pinned by the path condition.
    fn subst_eval(&mut self, st: &State, t: u32) -> Option<u128> {
        if let Some(v) = st.eqs.get(&t) {
            return Some(*v);
        }
        // cheap structural check with a small budget
        let mut stack = vec![t];
        let mut n = 0;
        let mut m = HashMap::new();
        while let Some(x) = stack.pop() {
            n += 1;
            if n > 60 {
                return None;
            }
            let tm = &self.ar.t[x as usize];
            if tm.k == K::Var {
                match st.eqs.get(&x) {
                    Some(v) => {
                        m.insert(tm.imm as u32, *v);
                    }
                    None => return None,
                }
            }
            stack.extend_from_slice(tm.args());
        }
        let mut memo = HashMap::new();
        Some(self.ar.eval(t, &m, &mut memo))
    }

    fn add_pc(&mut self, st: &mut State, c: u32) {
        if c == Arena::TRUE {
            return;
        }
        let tm = self.ar.t[c as usize].clone();
        if tm.k == K::BAnd {
            self.add_pc(st, tm.a[0]);
            self.add_pc(st, tm.a[1]);
            st.known.insert(c, true);
            return;
        }
        st.known.insert(c, true);
        if tm.k == K::Not {
            st.known.insert(tm.a[0], false);
        }
        if tm.k == K::Eq {
            if let Some(v) = self.ar.as_const(tm.a[1]) {
                st.eqs.insert(tm.a[0], v);
            } else if let Some(v) = self.ar.as_const(tm.a[0]) {
                st.eqs.insert(tm.a[1], v);
            }
        }
        st.pc.push(c);
    }

    /// The part of the path condition that shares variables (transitively) with `c`.
    fn slice_pc(&self, st: &State, c: u32) -> Vec<u32> {
        let mut vars: HashSet<u32> = self.ar.vars_of(&[c]).into_iter().collect();
        let items: Vec<(u32, Vec<u32>)> = st.pc.iter().map(|p| (*p, self.ar.vars_of(&[*p]))).collect();
        let mut used = vec![false; items.len()];
        loop {
            let mut ch = false;
            for (i, (_, vs)) in items.iter().enumerate() {
                if !used[i] && vs.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    vars.extend(vs.iter().copied());
                }
            }
            if !ch {
                break;
            }
        }
        items.iter().zip(used).filter(|(_, u)| *u).map(|((p, _), _)| *p).collect()
    }

    fn merged_model(&self, st: &State, m: HashMap<u32, u128>, extra: u32) -> Option<Rc<Model>> {
        let mut vals = match &st.model {
            Some(x) => x.vals.clone(),
            None => HashMap::new(),
        };
        vals.extend(m);
        let md = Model::new(vals);
        if md.eval(&self.ar, extra) == 0 {
            return None;
        }
        for c in &st.pc {
            if md.eval(&self.ar, *c) == 0 {
                return None;
            }
        }
        Some(Rc::new(md))
    }

    /// Is pc /\ c satisfiable?  Returns a verified model when there is one.
    fn feasible(&mut self, st: &State, c: u32) -> (Sat, Option<Rc<Model>>) {
        let mut q = self.slice_pc(st, c);
        q.push(c);
        let (s, m) = self.sol.check(&self.ar, &q, true);
        match s {
            Sat::Sat => {
                let mm = m.and_then(|m| self.merged_model(st, m, c));
                (s, mm)
            }
            _ => (s, None),
        }
    }

    /// Decide a branch.  The other feasible side is queued as a new state that re-executes the
    /// current instruction.
    fn branch(&mut self, st: &mut State, c: u32) -> R<bool> {
        if let Some(b) = self.lookup(st, c) {
            return Ok(b);
        }
        self.branches += 1;
        let nc = self.ar.not(c);
        let mv = st.model.as_ref().map(|m| m.eval(&self.ar, c) != 0);
        match mv {
            Some(v) => {
                let other = if v { nc } else { c };
                let (s, m) = self.feasible(st, other);
                let mine = if v { c } else { nc };
                if s == Sat::Unsat {
                    st.known.insert(c, v);
                    return Ok(v);
                }
                let mut alt = st.clone();
                alt.model = m;
                self.add_pc(&mut alt, other);
                self.forks += 1;
                self.work.push(alt);
                self.add_pc(st, mine);
                Ok(v)
            }
            None => {
                let (s1, m1) = self.feasible(st, c);
                let (s2, m2) = self.feasible(st, nc);
                match (s1, s2) {
                    (Sat::Unsat, Sat::Unsat) => Err(Stop::Assume),
                    (Sat::Unsat, _) => {
                        st.known.insert(c, false);
                        if m2.is_some() {
                            st.model = m2;
                        }
                        Ok(false)
                    }
                    (_, Sat::Unsat) => {
                        st.known.insert(c, true);
                        if m1.is_some() {
                            st.model = m1;
                        }
                        Ok(true)
                    }
                    _ => {
                        let mut alt = st.clone();
                        alt.model = m2;
                        self.add_pc(&mut alt, nc);
                        self.forks += 1;
                        self.work.push(alt);
                        st.model = m1;
                        self.add_pc(st, c);
                        Ok(true)
                    }
                }
            }
        }
    }

    /// Make a value concrete; all other feasible values are explored in forked states.
    fn conc(&mut self, st: &mut State, v: &Val, s: S) -> R<u128> {
        for _ in 0..1024 {
            if let Some(k) = self.conc1(st, v, s)? {
                return Ok(k);
            }
        }
        Err(Stop::Unsup("too many values to enumerate".into()))
    }

    /// One feasible value, or nothing when this path excludes the value tried.
    fn conc1(&mut self, st: &mut State, v: &Val, s: S) -> R<Option<u128>> {
        match v {
            Val::C(c) => Ok(Some(*c)),
            Val::U => Ok(Some(0)),
            Val::T(_) => {
                let t = self.term(v, s);
                if let Some(c) = self.ar.as_const(t) {
                    return Ok(Some(c));
                }
                if let Some(c) = self.subst_eval(st, t) {
                    return Ok(Some(c));
                }
                if s == S::Bool {
                    return Ok(Some(self.branch(st, t)? as u128));
                }
                let val = match &st.model {
                    Some(m) => m.eval(&self.ar, t),
                    None => {
                        let (sx, m) = self.feasible(st, Arena::TRUE);
                        let _ = sx;
                        match m {
                            Some(m) => {
                                st.model = Some(m.clone());
                                m.eval(&self.ar, t)
                            }
                            None => {
                                // no witness consistent with the concrete semantics: ask for the term itself
                                let (sx, m) = self.sol.check(&self.ar, &st.pc.clone(), true);
                                if sx == Sat::Unsat {
                                    return Err(Stop::Assume);
                                }
                                let mut memo = HashMap::new();
                                self.ar.eval(t, &m.unwrap_or_default(), &mut memo)
                            }
                        }
                    }
                };
                let k = self.ar.cst(s, val);
                let c = self.ar.eq(t, k);
                if self.branch(st, c)? {
                    st.eqs.insert(t, val);
                    Ok(Some(val))
                } else {
                    Ok(None)
                }
            }
            Val::V(_) => Err(Stop::Unsup("concretize aggregate".into())),
        }
    }

    // ---- memory ----

    fn ginit(&mut self, g: u32) -> R<Arc<Obj>> {
        if let Some(o) = self.gcache.get(&g) {
            return Ok(o.clone());
        }
        let (ty, v) = self.m.global_init(g).ok_or_else(|| Stop::Unsup(format!("external global {}", self.m.globals[g as usize].name)))?;
        let n = ty.size() as usize;
        let mut o = Obj::new(n, false, true);
        fn fill(o: &mut Obj, off: usize, t: &Ty, v: &Val) {
            match (t, v) {
                (_, Val::U) => {}
                (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), Val::V(vs)) => {
                    for (i, x) in vs.iter().enumerate() {
                        let fo = t.field_off(i) as usize;
                        fill(o, off + fo, &t.field_ty(i), x);
                    }
                }
                (t, Val::C(c)) => {
                    let n = t.size() as usize;
                    o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                }
                _ => panic!("global init"),
            }
        }
        fill(&mut o, 0, &ty, &v);
        o.ro = self.m.globals[g as usize].constant;
        let a = Arc::new(o);
        self.gcache.insert(g, a.clone());
        Ok(a)
    }

    fn obj(&mut self, st: &State, addr: u64, n: u64, what: &str) -> R<Arc<Obj>> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        let o = if id >= GLOB_BASE && id < GLOB_BASE + self.m.globals.len() as u64 {
            let g = (id - GLOB_BASE) as u32;
            match st.mem.globals.get(&g) {
                Some(o) => o.clone(),
                None => self.ginit(g)?,
            }
        } else {
            match st.mem.get(id) {
                Some(o) => o.clone(),
                None => return Err(Stop::Mem(format!("{} of {} bytes through invalid pointer {:#x}", what, n, addr))),
            }
        };
        if o.freed {
            return Err(Stop::Mem(format!("{} after free", what)));
        }
        if off + n > o.data.len() as u64 {
            return Err(Stop::Mem(format!("{} out of bounds: offset {} + {} of an allocation of {} bytes", what, off, n, o.data.len())));
        }
        Ok(o)
    }

    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64, what: &str) -> R<&'a mut Obj> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        let slot: &mut Arc<Obj>;
        if id >= GLOB_BASE && id < GLOB_BASE + self.m.globals.len() as u64 {
            let g = (id - GLOB_BASE) as u32;
            if !st.mem.globals.contains_key(&g) {
                let o = self.ginit(g)?;
                st.mem.globals.insert(g, o);
            }
            slot = st.mem.globals.get_mut(&g).unwrap();
        } else {
            match st.mem.get_mut(id) {
                Some(s) => slot = s,
                None => return Err(Stop::Mem(format!("{} of {} bytes through invalid pointer {:#x}", what, n, addr))),
            }
        }
        if slot.freed {
            return Err(Stop::Mem(format!("{} after free", what)));
        }
        if slot.ro {
            return Err(Stop::Mem(format!("{} to constant memory", what)));
        }
        if off + n > slot.data.len() as u64 {
            return Err(Stop::Mem(format!("{} out of bounds: offset {} + {} of an allocation of {} bytes", what, off, n, slot.data.len())));
        }
        Ok(Arc::make_mut(slot))
    }

    fn load_scalar(&mut self, st: &mut State, addr: u64, t: &Ty) -> R<Val> {
        let n = t.size() as usize;
        // fast path
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as usize;
        if let Some(o) = st.mem.get(id) {
            if o.nonconc == 0 && !o.freed && off + n <= o.data.len() {
                let mut b = [0u8; 16];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                let v = u128::from_le_bytes(b);
                return Ok(Val::C(if let Ty::Int(k) = t { v & mask(*k) } else { v }));
            }
        }
        let o = self.obj(st, addr, n as u64, "read")?;
        let s = &o.st[off..off + n];
        if s.iter().all(|x| *x == 0) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let v = u128::from_le_bytes(b);
            return Ok(Val::C(if let Ty::Int(k) = t { v & mask(*k) } else { v }));
        }
        let full = S::BV(n as u32 * 8);
        if s.iter().all(|x| *x == 1) {
            let (t0, i0) = o.sym[off];
            if i0 == 0 && self.ar.sort(t0).bits() == n as u32 * 8 && (1..n).all(|k| o.sym[off + k] == (t0, k as u8)) {
                return self.cast_loaded(t0, t);
            }
        }
        if s.iter().all(|x| *x == 2) {
            // never written: an arbitrary value, fixed from now on
            let so = match t {
                Ty::F32 => S::F32,
                Ty::F64 => S::F64,
                _ => full,
            };
            let v = self.fresh("junk", so, true, true);
            self.store_term(st, addr, v, n)?;
            return self.cast_loaded(v, t);
        }
        // byte-wise assembly
        let mut acc: Option<u32> = None;
        for k in 0..n {
            let b = match o.st[off + k] {
                0 => self.ar.cst(S::BV(8), o.data[off + k] as u128),
                1 => {
                    let (tt, i) = o.sym[off + k];
                    self.byte_of(tt, i)
                }
                _ => {
                    let v = self.fresh("junk", S::BV(8), true, true);
                    self.store_term(st, addr + k as u64, v, 1)?;
                    v
                }
            };
            acc = Some(match acc {
                None => b,
                Some(a) => self.ar.concat(b, a),
            });
        }
        self.cast_loaded(acc.unwrap(), t)
    }
    fn byte_of(&mut self, t: u32, i: u8) -> u32 {
        let s = self.ar.sort(t);
        let b = if s.is_fp() { self.ar.un(K::FToBits, S::BV(s.bits()), 0, t) } else { t };
        if s == S::BV(8) {
            return b;
        }
        self.ar.un(K::Extract, S::BV(8), i as u128 * 8, b)
    }
    fn cast_loaded(&mut self, v: u32, t: &Ty) -> R<Val> {
        let s = self.ar.sort(v);
        let r = match t {
            Ty::F32 | Ty::F64 => self.term(&Val::T(v), vsort(t)),
            Ty::Int(1) => self.term(&Val::T(v), S::Bool),
            Ty::Int(k) => {
                let b = if s.is_fp() { self.ar.un(K::FToBits, S::BV(s.bits()), 0, v) } else { v };
                if *k < s.bits() {
                    self.ar.un(K::Extract, S::BV(*k), 0, b)
                } else {
                    b
                }
            }
            Ty::Ptr => {
                if s.is_fp() {
                    self.ar.un(K::FToBits, S::BV(s.bits()), 0, v)
                } else {
                    v
                }
            }
            _ => return Err(Stop::Unsup("load cast".into())),
        };
        Ok(self.wrap(r))
    }

    fn store_term(&mut self, st: &mut State, addr: u64, t: u32, n: usize) -> R<()> {
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.obj_mut(st, addr, n as u64, "write")?;
        if o.sym.is_empty() {
            o.sym = vec![(0, 0); o.data.len()];
        }
        for k in 0..n {
            o.set_st(off + k, 1);
            o.sym[off + k] = (t, k as u8);
        }
        Ok(())
    }

    fn store_scalar(&mut self, st: &mut State, addr: u64, t: &Ty, v: &Val) -> R<()> {
        let n = t.size() as usize;
        let off = (addr & 0xffff_ffff) as usize;
        match v {
            Val::C(c) => {
                let o = self.obj_mut(st, addr, n as u64, "write")?;
                o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if o.nonconc > 0 {
                    for k in 0..n {
                        o.set_st(off + k, 0);
                    }
                }
                Ok(())
            }
            Val::T(x) => {
                let mut t2 = *x;
                if let Ty::Int(k) = t {
                    if *k as usize != n * 8 {
                        let b = self.term(v, vsort(t));
                        t2 = if *k == 1 { self.ar.bool_to_bv(b, 8) } else { self.ar.un(K::ZExt, S::BV(n as u32 * 8), 0, b) };
                    }
                }
                if self.ar.sort(t2) == S::Bool {
                    t2 = self.ar.bool_to_bv(t2, n as u32 * 8);
                }
                self.store_term(st, addr, t2, n)
            }
            Val::U => {
                let o = self.obj_mut(st, addr, n as u64, "write")?;
                for k in 0..n {
                    o.set_st(off + k, 2);
                }
                Ok(())
            }
            Val::V(_) => Err(Stop::Unsup("store agg".into())),
        }
    }

    fn load(&mut self, st: &mut State, addr: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let Ty::Vec(n, e) = t {
                    if **e == Ty::Int(1) {
                        let v = self.load_scalar(st, addr, &Ty::Int((*n + 7) / 8 * 8))?;
                        let c = self.conc(st, &v, S::BV((*n + 7) / 8 * 8))?;
                        return Ok(Val::V(Arc::new((0..*n).map(|i| Val::C((c >> i) & 1)).collect())));
                    }
                }
                let n = t.nfields();
                let mut vs = Vec::with_capacity(n);
                for i in 0..n {
                    vs.push(self.load(st, addr + t.field_off(i), &t.field_ty(i))?);
                }
                Ok(Val::V(Arc::new(vs)))
            }
            _ => self.load_scalar(st, addr, t),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, t: &Ty, v: &Val) -> R<()> {
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let (Ty::Vec(n, e), Val::V(vs)) = (t, v) {
                    if **e == Ty::Int(1) {
                        // packed, one bit per element
                        let mut k = 0u128;
                        for (i, x) in vs.iter().enumerate() {
                            k |= (self.conc(st, x, S::Bool)? & 1) << i;
                        }
                        return self.store_scalar(st, addr, &Ty::Int((*n + 7) / 8 * 8), &Val::C(k));
                    }
                }
                match v {
                    Val::V(vs) => {
                        for (i, x) in vs.iter().enumerate() {
                            self.store(st, addr + t.field_off(i), &t.field_ty(i), x)?;
                        }
                    }
                    _ => {
                        let n = t.size();
                        let o = self.obj_mut(st, addr, n, "write")?;
                        let off = (addr & 0xffff_ffff) as usize;
                        for k in 0..n as usize {
                            o.set_st(off + k, 2);
                        }
                    }
                }
                Ok(())
            }
            _ => self.store_scalar(st, addr, t, v),
        }
    }

    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let so = self.obj(st, src, n, "read")?;
        let s0 = (src & 0xffff_ffff) as usize;
        let d0 = (dst & 0xffff_ffff) as usize;
        let o = self.obj_mut(st, dst, n, "write")?;
        let n = n as usize;
        if so.nonconc == 0 && o.nonconc == 0 {
            o.data[d0..d0 + n].copy_from_slice(&so.data[s0..s0 + n]);
            return Ok(());
        }
        if o.sym.is_empty() && !so.sym.is_empty() {
            o.sym = vec![(0, 0); o.data.len()];
        }
        for k in 0..n {
            let s = so.st[s0 + k];
            o.set_st(d0 + k, s);
            match s {
                0 => o.data[d0 + k] = so.data[s0 + k],
                1 => o.sym[d0 + k] = so.sym[s0 + k],
                _ => {}
            }
        }
        Ok(())
    }

    fn alloc(&mut self, st: &mut State, n: u64, zero: bool) -> R<u64> {
        if n > (1 << 26) {
            // an allocation this large fails in the model: the allocator returns null
            return Ok(0);
        }
        st.mem.live_heap += 1;
        Ok(st.mem.add(Obj::new(n as usize, true, zero)))
    }
    fn dealloc(&mut self, st: &mut State, a: u64) -> R<()> {
        if a & 0xffff_ffff != 0 {
            return Err(Stop::Mem("free of an interior pointer".into()));
        }
        match st.mem.get_mut(a >> 32) {
            Some(o) if o.heap => {
                if o.freed {
                    return Err(Stop::Mem("double free".into()));
                }
                let n = 0;
                *o = Arc::new(Obj { data: vec![0; n], st: vec![], sym: vec![], nonconc: 0, heap: true, ro: false, freed: true });
                st.mem.live_heap -= 1;
                Ok(())
            }
            _ => Err(Stop::Mem(format!("free of a pointer that is not an allocation: {:#x}", a))),
        }
    }

    pub fn fresh(&mut self, base: &str, s: S, junk: bool, any: bool) -> u32 {
        let n = self.nvar;
        self.nvar += 1;
        let r = self.rand();
        let def = match s {
            S::F32 => {
                // generic small value, away from special points
                let u = (r % 1900) as f32 / 1000.0 + 0.1;
                let f = if r & (1 << 40) != 0 { -u } else { u };
                b32(f)
            }
            S::F64 => b64((r % 1900) as f64 / 1000.0 + 0.1),
            S::Bool => 0,
            S::BV(_) => 0,
        };
        self.ar.new_var(format!("{}{}", base, n), s, junk, any, def)
    }

    // ---- stepping ----

    fn jump(&mut self, st: &mut State, b: u32) {
        let fi = st.frames.len() - 1;
        let from = st.frames[fi].block;
        let body = st.frames[fi].body;
        let blk = &body.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
            for (d, ins) in &blk.phis {
                let o = &ins.iter().find(|x| x.0 == from).expect("phi edge").1;
                vals.push((*d, self.op(st, o)));
            }
            for (d, v) in vals {
                st.frames[fi].regs[d as usize] = v;
            }
        }
        st.frames[fi].block = b;
        st.frames[fi].ip = 0;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fi = st.frames.len() - 1;
        let body = st.frames[fi].body;
        let (b, ip) = (st.frames[fi].block, st.frames[fi].ip);
        let ins = &body.blocks[b as usize].code[ip];
        self.instrs += 1;
        st.steps += 1;
        if st.steps > self.lim.steps_per_path {
            return Err(Stop::Limit(format!("more than {} steps", self.lim.steps_per_path)));
        }
        if self.instrs & 0xfff == 0 && Instant::now() > self.lim.deadline {
            self.truncated = true;
            return Err(Stop::Assume);
        }
        match self.exec(st, ins)? {
            Flow::Next => {
                let fi = st.frames.len() - 1;
                st.frames[fi].ip += 1;
            }
            Flow::Stay => {}
        }
        Ok(())
    }

    fn bin(&mut self, st: &mut State, o: BinOp, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(n, e) = t {
            let (x, y) = (self.vecof(a, *n as usize), self.vecof(b, *n as usize));
            let mut r = Vec::with_capacity(*n as usize);
            for i in 0..*n as usize {
                r.push(self.bin(st, o, e, &x[i], &y[i])?);
            }
            return Ok(Val::V(Arc::new(r)));
        }
        let k = match o {
            BinOp::Add => K::Add,
            BinOp::Sub => K::Sub,
            BinOp::Mul => K::Mul,
            BinOp::UDiv => K::UDiv,
            BinOp::SDiv => K::SDiv,
            BinOp::URem => K::URem,
            BinOp::SRem => K::SRem,
            BinOp::Shl => K::Shl,
            BinOp::LShr => K::LShr,
            BinOp::AShr => K::AShr,
            BinOp::And => K::And,
            BinOp::Or => K::Or,
            BinOp::Xor => K::Xor,
            BinOp::FAdd => K::FAdd,
            BinOp::FSub => K::FSub,
            BinOp::FMul => K::FMul,
            BinOp::FDiv => K::FDiv,
            BinOp::FRem => K::FBin,
        };
        let s = vsort(t);
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if matches!(o, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && *y == 0 {
                return Err(Stop::Mem("division by zero".into()));
            }
            let imm = if o == BinOp::FRem { FB_FMOD } else { 0 };
            let k2 = if s == S::Bool {
                match k {
                    K::Add | K::Sub => K::Xor,
                    K::Mul => K::And,
                    k => k,
                }
            } else {
                k
            };
            return Ok(Val::C(fold(k2, s, imm, s, &[*x, *y])));
        }
        let (x, y) = (self.term(a, s), self.term(b, s));
        if s == S::Bool {
            let r = match o {
                BinOp::And | BinOp::Mul => self.ar.and(x, y),
                BinOp::Or => self.ar.or(x, y),
                BinOp::Xor | BinOp::Add | BinOp::Sub => {
                    let e = self.ar.eq(x, y);
                    self.ar.not(e)
                }
                _ => return Err(Stop::Unsup("i1 op".into())),
            };
            return Ok(self.wrap(r));
        }
        if matches!(o, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
            let z = self.ar.cst(s, 0);
            let c = self.ar.eq(y, z);
            if self.branch(st, c)? {
                return Err(Stop::Mem("division by zero".into()));
            }
        }
        let r = if o == BinOp::FRem { self.ar.fbin(FB_FMOD, x, y) } else { self.ar.bin(k, x, y) };
        Ok(self.wrap(r))
    }

    fn vecof(&self, v: &Val, n: usize) -> Vec<Val> {
        match v {
            Val::V(x) => x.to_vec(),
            _ => vec![v.clone(); n],
        }
    }

    fn icmp(&mut self, p: ICmp, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(n, e) = t {
            let (x, y) = (self.vecof(a, *n as usize), self.vecof(b, *n as usize));
            let mut r = vec![];
            for i in 0..*n as usize {
                r.push(self.icmp(p, e, &x[i], &y[i])?);
            }
            return Ok(Val::V(Arc::new(r)));
        }
        let s = vsort(t);
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let w = s.bits();
            let (sx, sy) = (sext(*x, w), sext(*y, w));
            let r = match p {
                ICmp::Eq => x == y,
                ICmp::Ne => x != y,
                ICmp::Ugt => x > y,
                ICmp::Uge => x >= y,
                ICmp::Ult => x < y,
                ICmp::Ule => x <= y,
                ICmp::Sgt => sx > sy,
                ICmp::Sge => sx >= sy,
                ICmp::Slt => sx < sy,
                ICmp::Sle => sx <= sy,
            };
            return Ok(Val::C(r as u128));
        }
        let (mut x, mut y) = (self.term(a, s), self.term(b, s));
        if s == S::Bool && !matches!(p, ICmp::Eq | ICmp::Ne) {
            x = self.ar.bool_to_bv(x, 1);
            y = self.ar.bool_to_bv(y, 1);
        }
        let r = match p {
            ICmp::Eq => self.ar.eq(x, y),
            ICmp::Ne => {
                let e = self.ar.eq(x, y);
                self.ar.not(e)
            }
            ICmp::Ugt => self.ar.bin(K::Ult, y, x),
            ICmp::Uge => self.ar.bin(K::Ule, y, x),
            ICmp::Ult => self.ar.bin(K::Ult, x, y),
            ICmp::Ule => self.ar.bin(K::Ule, x, y),
            ICmp::Sgt => self.ar.bin(K::Slt, y, x),
            ICmp::Sge => self.ar.bin(K::Sle, y, x),
            ICmp::Slt => self.ar.bin(K::Slt, x, y),
            ICmp::Sle => self.ar.bin(K::Sle, x, y),
        };
        Ok(self.wrap(r))
    }

    fn fcmp(&mut self, p: FCmp, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(n, e) = t {
            let (x, y) = (self.vecof(a, *n as usize), self.vecof(b, *n as usize));
            let mut r = vec![];
            for i in 0..*n as usize {
                r.push(self.fcmp(p, e, &x[i], &y[i])?);
            }
            return Ok(Val::V(Arc::new(r)));
        }
        let s = vsort(t);
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = if s == S::F32 { (f32b(*x) as f64, f32b(*y) as f64) } else { (f64b(*x), f64b(*y)) };
            return Ok(Val::C(fcmp_conc(p, x, y) as u128));
        }
        let (x, y) = (self.term(a, s), self.term(b, s));
        let ar = &mut self.ar;
        let r = match p {
            FCmp::False => Arena::FALSE,
            FCmp::True => Arena::TRUE,
            FCmp::Oeq => ar.bin(K::FEq, x, y),
            FCmp::Ogt => ar.bin(K::FLt, y, x),
            FCmp::Oge => ar.bin(K::FLe, y, x),
            FCmp::Olt => ar.bin(K::FLt, x, y),
            FCmp::Ole => ar.bin(K::FLe, x, y),
            FCmp::One => {
                let l = ar.bin(K::FLt, x, y);
                let g = ar.bin(K::FLt, y, x);
                ar.or(l, g)
            }
            FCmp::Ueq => {
                let l = ar.bin(K::FLt, x, y);
                let g = ar.bin(K::FLt, y, x);
                let o = ar.or(l, g);
                ar.not(o)
            }
            FCmp::Ugt => {
                let c = ar.bin(K::FLe, x, y);
                ar.not(c)
            }
            FCmp::Uge => {
                let c = ar.bin(K::FLt, x, y);
                ar.not(c)
            }
            FCmp::Ult => {
                let c = ar.bin(K::FLe, y, x);
                ar.not(c)
            }
            FCmp::Ule => {
                let c = ar.bin(K::FLt, y, x);
                ar.not(c)
            }
            FCmp::Une => {
                let c = ar.bin(K::FEq, x, y);
                ar.not(c)
            }
            FCmp::Ord | FCmp::Uno => {
                let nx = ar.un(K::FIsNan, S::Bool, 0, x);
                let ny = ar.un(K::FIsNan, S::Bool, 0, y);
                let u = ar.or(nx, ny);
                if p == FCmp::Uno {
                    u
                } else {
                    ar.not(u)
                }
            }
        };
        Ok(self.wrap(r))
    }

    fn cast(&mut self, st: &mut State, c: Cast, ft: &Ty, tt: &Ty, v: &Val) -> R<Val> {
        if c == Cast::Bitcast {
            return self.bitcast(st, ft, tt, v);
        }
        if let Ty::Vec(n, e) = ft {
            let x = self.vecof(v, *n as usize);
            let te = tt.field_ty(0);
            let mut r = vec![];
            for i in 0..*n as usize {
                r.push(self.cast(st, c, e, &te, &x[i])?);
            }
            return Ok(Val::V(Arc::new(r)));
        }
        let (fs, ts) = (vsort(ft), vsort(tt));
        if let Val::U = v {
            return Ok(Val::C(0));
        }
        if let Val::C(x) = v {
            let w = fs.bits();
            let m = mask(ts.bits());
            let r = match c {
                Cast::Trunc | Cast::ZExt | Cast::PtrToInt | Cast::IntToPtr => x & m,
                Cast::SExt => (sext(*x, w) as u128) & m,
                Cast::FpTrunc => b32(f64b(*x) as f32),
                Cast::FpExt => b64(f32b(*x) as f64),
                Cast::FpToUi => fold(K::FpToUi, ts, 0, fs, &[*x]),
                Cast::FpToSi => fold(K::FpToSi, ts, 0, fs, &[*x]),
                Cast::UiToFp => fold(K::UiToFp, ts, 0, fs, &[*x]),
                Cast::SiToFp => fold(K::SiToFp, ts, 0, fs, &[*x]),
                Cast::Bitcast => *x,
            };
            return Ok(Val::C(r));
        }
        let x = self.term(v, fs);
        let r = match c {
            Cast::Trunc => {
                if ts == S::Bool {
                    self.trunc_bool(x)
                } else {
                    self.ar.un(K::Extract, ts, 0, x)
                }
            }
            Cast::ZExt | Cast::PtrToInt | Cast::IntToPtr => {
                if fs == S::Bool {
                    self.ar.bool_to_bv(x, ts.bits())
                } else if ts.bits() < fs.bits() {
                    self.ar.un(K::Extract, ts, 0, x)
                } else {
                    self.ar.un(K::ZExt, ts, 0, x)
                }
            }
            Cast::SExt => {
                if fs == S::Bool {
                    let o = self.ar.cst(ts, mask(ts.bits()));
                    let z = self.ar.cst(ts, 0);
                    self.ar.ite(x, o, z)
                } else {
                    self.ar.un(K::SExt, ts, 0, x)
                }
            }
            Cast::FpTrunc => self.ar.un(K::FpTrunc, ts, 0, x),
            Cast::FpExt => self.ar.un(K::FpExt, ts, 0, x),
            Cast::UiToFp | Cast::SiToFp => {
                if fs == S::Bool {
                    let k = self.branch(st, x)? as u128;
                    let cv = fold(if c == Cast::UiToFp { K::UiToFp } else { K::SiToFp }, ts, 0, fs, &[k]);
                    self.ar.cst(ts, cv)
                } else if self.ar.t[x as usize].k == K::Ite {
                    let k = if c == Cast::UiToFp { K::UiToFp } else { K::SiToFp };
                    self.lift_un(k, ts, x)
                } else {
                    let k = self.conc(st, v, fs)?;
                    let cv = fold(if c == Cast::UiToFp { K::UiToFp } else { K::SiToFp }, ts, 0, fs, &[k]);
                    self.ar.cst(ts, cv)
                }
            }
            Cast::FpToUi => self.ar.un(K::FpToUi, ts, 0, x),
            Cast::FpToSi => self.ar.un(K::FpToSi, ts, 0, x),
            Cast::Bitcast => unreachable!(),
        };
        Ok(self.wrap(r))
    }
    fn lift_un(&mut self, k: K, s: S, x: u32) -> u32 {
        let t = self.ar.t[x as usize].clone();
        if t.k == K::Ite {
            let a = self.lift_un(k, s, t.a[1]);
            let b = self.lift_un(k, s, t.a[2]);
            return self.ar.ite(t.a[0], a, b);
        }
        self.ar.un(k, s, 0, x)
    }
    fn trunc_bool(&mut self, x: u32) -> u32 {
        let s = self.ar.sort(x);
        if s == S::Bool {
            return x;
        }
        let b = self.ar.un(K::Extract, S::BV(1), 0, x);
        let o = self.ar.cst(S::BV(1), 1);
        self.ar.eq(b, o)
    }

    fn bitcast(&mut self, st: &mut State, ft: &Ty, tt: &Ty, v: &Val) -> R<Val> {
        match (ft, tt) {
            (Ty::Vec(n, e), _) if !matches!(tt, Ty::Vec(..)) => {
                let x = self.vecof(v, *n as usize);
                let ew = e.bits();
                if x.iter().all(|v| !matches!(v, Val::T(_))) {
                    let mut r: u128 = 0;
                    for i in (0..x.len()).rev() {
                        let k = match &x[i] {
                            Val::C(c) => *c,
                            _ => 0,
                        };
                        r = (r << ew) | k;
                    }
                    return Ok(Val::C(r));
                }
                // symbolic lanes
                let es = vsort(e);
                let mut acc: Option<u32> = None;
                for lane in &x {
                    let mut t = self.term(lane, es);
                    if es == S::Bool {
                        t = self.ar.bool_to_bv(t, 1);
                    } else if es.is_fp() {
                        t = self.ar.un(K::FToBits, S::BV(ew), 0, t);
                    }
                    acc = Some(match acc {
                        None => t,
                        Some(a) => self.ar.concat(t, a),
                    });
                }
                let r = acc.unwrap();
                let r = self.term(&Val::T(r), vsort(tt));
                Ok(self.wrap(r))
            }
            (_, Ty::Vec(n, e)) => {
                // go through a flat integer
                let flat = match ft {
                    Ty::Vec(fnn, fe) => {
                        let w = fnn * fe.bits();
                        if w > 128 {
                            return self.bitcast_mem(st, ft, tt, v);
                        }
                        self.bitcast(st, ft, &Ty::Int(w), v)?
                    }
                    _ => v.clone(),
                };
                let w = n * e.bits();
                let c = self.conc(st, &flat, S::BV(w))?;
                let ew = e.bits();
                Ok(Val::V(Arc::new((0..*n).map(|i| Val::C((c >> (i * ew)) & mask(ew))).collect())))
            }
            _ => match v {
                Val::T(_) => {
                    let x = self.term(v, vsort(ft));
                    let (fs, ts) = (vsort(ft), vsort(tt));
                    let r = if fs == ts {
                        x
                    } else if ts.is_fp() {
                        self.ar.un(K::BitsToF, ts, 0, x)
                    } else if fs.is_fp() {
                        self.ar.un(K::FToBits, ts, 0, x)
                    } else {
                        x
                    };
                    Ok(self.wrap(r))
                }
                o => Ok(o.clone()),
            },
        }
    }
    fn bitcast_mem(&mut self, st: &mut State, ft: &Ty, tt: &Ty, v: &Val) -> R<Val> {
        let a = st.mem.add(Obj::new(ft.size() as usize, false, false));
        self.store(st, a, ft, v)?;
        let r = self.load(st, a, tt)?;
        st.mem.remove(a >> 32);
        Ok(r)
    }

    fn select(&mut self, t: &Ty, c: u32, a: &Val, b: &Val) -> R<Val> {
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = t.nfields();
                let (x, y) = (self.vecof(a, n), self.vecof(b, n));
                let mut r = vec![];
                for i in 0..n {
                    r.push(self.select(&t.field_ty(i), c, &x[i], &y[i])?);
                }
                Ok(Val::V(Arc::new(r)))
            }
            _ => {
                let s = vsort(t);
                if let Val::U = a {
                    return Ok(b.clone());
                }
                if let Val::U = b {
                    return Ok(a.clone());
                }
                let (x, y) = (self.term(a, s), self.term(b, s));
                let r = self.ar.ite(c, x, y);
                Ok(self.wrap(r))
            }
        }
    }

    fn exec(&mut self, st: &mut State, ins: &'static I) -> R<Flow> {
        match ins {
            I::Bin(o, t, a, b, d) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                // concrete integer fast path
                if let (Val::C(p), Val::C(q), Ty::Int(w)) = (&x, &y, &**t) {
                    let r = match o {
                        BinOp::Add => Some(p.wrapping_add(*q)),
                        BinOp::Sub => Some(p.wrapping_sub(*q)),
                        BinOp::And => Some(p & q),
                        BinOp::Or => Some(p | q),
                        BinOp::Xor => Some(p ^ q),
                        _ => None,
                    };
                    if let Some(r) = r {
                        self.set(st, *d, Val::C(r & mask(*w)));
                        return Ok(Flow::Next);
                    }
                }
                let r = self.bin(st, *o, t, &x, &y)?;
                self.set(st, *d, r);
            }
            I::FNeg(t, a, d) => {
                let x = self.op(st, a);
                let r = match &**t {
                    Ty::Vec(n, e) => {
                        let v = self.vecof(&x, *n as usize);
                        let s = vsort(e);
                        let mut o = vec![];
                        for i in v {
                            let tt = self.term(&i, s);
                            let u = self.ar.un(K::FNeg, s, 0, tt);
                            o.push(self.wrap(u));
                        }
                        Val::V(Arc::new(o))
                    }
                    _ => {
                        let s = vsort(t);
                        let tt = self.term(&x, s);
                        let u = self.ar.un(K::FNeg, s, 0, tt);
                        self.wrap(u)
                    }
                };
                self.set(st, *d, r);
            }
            I::ICmp(p, t, a, b, d) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = self.icmp(*p, t, &x, &y)?;
                self.set(st, *d, r);
            }
            I::FCmp(p, t, a, b, d) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = self.fcmp(*p, t, &x, &y)?;
                self.set(st, *d, r);
            }
            I::Cast(c, ft, tt, a, d) => {
                let x = self.op(st, a);
                let r = self.cast(st, *c, ft, tt, &x)?;
                self.set(st, *d, r);
            }
            I::Select(ct, c, t, a, b, d) => {
                let cv = self.op(st, c);
                let (x, y) = (self.op(st, a), self.op(st, b));
                if let Ty::Vec(n, _) = &**ct {
                    let cs = self.vecof(&cv, *n as usize);
                    let (xs, ys) = (self.vecof(&x, *n as usize), self.vecof(&y, *n as usize));
                    let mut r = vec![];
                    for i in 0..*n as usize {
                        let cc = self.term(&cs[i], S::Bool);
                        r.push(self.select(&t.field_ty(0), cc, &xs[i], &ys[i])?);
                    }
                    self.set(st, *d, Val::V(Arc::new(r)));
                    return Ok(Flow::Next);
                }
                let r = match cv {
                    Val::C(k) => {
                        if k != 0 {
                            x
                        } else {
                            y
                        }
                    }
                    Val::U => y,
                    _ => {
                        let cc = self.term(&cv, S::Bool);
                        match self.lookup(st, cc) {
                            Some(true) => x,
                            Some(false) => y,
                            None => self.select(t, cc, &x, &y)?,
                        }
                    }
                };
                self.set(st, *d, r);
            }
            I::Load(t, p, d) => {
                let pv = self.op(st, p);
                let a = self.conc(st, &pv, S::BV(64))? as u64;
                let r = self.load(st, a, t)?;
                self.set(st, *d, r);
            }
            I::Store(t, v, p) => {
                let pv = self.op(st, p);
                let a = self.conc(st, &pv, S::BV(64))? as u64;
                let x = self.op(st, v);
                self.store(st, a, t, &x)?;
            }
            I::Alloca(n, d) => {
                let a = st.mem.add(Obj::new(*n as usize, false, false));
                let fi = st.frames.len() - 1;
                st.frames[fi].allocas.push(a >> 32);
                self.set(st, *d, Val::C(a as u128));
            }
            I::Gep(b, off, idx, d) => {
                let bv = self.op(st, b);
                let mut acc = bv;
                let s = S::BV(64);
                if let Val::V(_) = acc {
                    return Err(Stop::Unsup("vector gep".into()));
                }
                if let Val::C(c) = acc {
                    acc = Val::C((c as u64).wrapping_add(*off as u64) as u128);
                } else if *off != 0 {
                    let (x, y) = (self.term(&acc, s), self.ar.cst(s, *off as u64 as u128));
                    let r = self.ar.bin(K::Add, x, y);
                    acc = self.wrap(r);
                }
                for (o, bits, scale) in idx {
                    let iv = self.op(st, o);
                    match (&acc, &iv) {
                        (Val::C(c), Val::C(i)) => {
                            let i = sext(*i, *bits) as i64;
                            acc = Val::C((*c as u64).wrapping_add(i.wrapping_mul(*scale) as u64) as u128);
                        }
                        _ => {
                            let it = self.term(&iv, S::BV(*bits));
                            let i64t = if *bits < 64 { self.ar.un(K::SExt, s, 0, it) } else { it };
                            let k = self.ar.cst(s, *scale as u64 as u128);
                            let mm = self.ar.bin(K::Mul, i64t, k);
                            let x = self.term(&acc, s);
                            let r = self.ar.bin(K::Add, x, mm);
                            acc = self.wrap(r);
                        }
                    }
                }
                self.set(st, *d, acc);
            }
            I::Call(callee, args, rt, dst, normal) => {
                let fid = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let v = self.op(st, o);
                        let a = self.conc(st, &v, S::BV(64))? as u64;
                        let id = a >> 32;
                        if id < FUNC_BASE || id - FUNC_BASE >= self.m.funcs.len() as u64 {
                            return Err(Stop::Mem(format!("call through invalid function pointer {:#x}", a)));
                        }
                        (id - FUNC_BASE) as u32
                    }
                };
                return self.call(st, fid, args, rt, *dst, *normal);
            }
            I::Br(b) => {
                self.jump(st, *b);
                return Ok(Flow::Stay);
            }
            I::CondBr(c, a, b) => {
                let cv = self.op(st, c);
                let k = match cv {
                    Val::C(k) => k != 0,
                    Val::U => false,
                    _ => {
                        let t = self.term(&cv, S::Bool);
                        self.branch(st, t)?
                    }
                };
                self.jump(st, if k { *a } else { *b });
                return Ok(Flow::Stay);
            }
            I::Switch(t, v, d, cs) => {
                let x = self.op(st, v);
                let s = vsort(t);
                let mut target = *d;
                match x {
                    Val::C(k) => {
                        if let Some(e) = cs.iter().find(|e| e.0 == k) {
                            target = e.1;
                        }
                    }
                    Val::U => {}
                    _ => {
                        let tx = self.term(&x, s);
                        for (k, l) in cs {
                            let kt = self.ar.cst(s, *k);
                            let c = self.ar.eq(tx, kt);
                            if self.branch(st, c)? {
                                target = *l;
                                break;
                            }
                        }
                    }
                }
                self.jump(st, target);
                return Ok(Flow::Stay);
            }
            I::Ret(_, v) => {
                let r = v.as_ref().map(|o| self.op(st, o));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.remove(*a);
                }
                if st.frames.is_empty() && st.cur != 0 {
                    // a thread has ended: thread 0 goes on
                    st.cur = 0;
                    st.frames = std::mem::take(&mut st.stacks[0]);
                    return Ok(Flow::Stay);
                }
                if st.frames.is_empty() {
                    if let Some(Val::C(c)) = r {
                        self.retval = Some(c);
                    }
                    return Ok(Flow::Stay);
                }
                if let (Some(d), Some(v)) = (fr.dst, r) {
                    self.set(st, d, v);
                }
                match fr.normal {
                    Some(b) => self.jump(st, b),
                    None => {
                        let fi = st.frames.len() - 1;
                        st.frames[fi].ip += 1;
                    }
                }
                return Ok(Flow::Stay);
            }
            I::Unreachable => return Err(Stop::Panic("reached unreachable code".into())),
            I::ExtractValue(_, v, ix, d) => {
                let mut x = self.op(st, v);
                for i in ix {
                    x = match &x {
                        Val::V(vs) => vs[*i].clone(),
                        _ => Val::U,
                    };
                }
                self.set(st, *d, x);
            }
            I::InsertValue(t, v, e, ix, d) => {
                let x = self.op(st, v);
                let y = self.op(st, e);
                fn ins(t: &Ty, x: &Val, y: &Val, ix: &[usize]) -> Val {
                    if ix.is_empty() {
                        return y.clone();
                    }
                    let mut vs = match x {
                        Val::V(v) => v.to_vec(),
                        _ => match undef_of(t) {
                            Val::V(v) => v.to_vec(),
                            _ => panic!(),
                        },
                    };
                    vs[ix[0]] = ins(&t.field_ty(ix[0]), &vs[ix[0]], y, &ix[1..]);
                    Val::V(Arc::new(vs))
                }
                let r = ins(t, &x, &y, ix);
                self.set(st, *d, r);
            }
            I::ExtractElement(v, i, d) => {
                let x = self.op(st, v);
                let iv = self.op(st, i);
                let k = self.conc(st, &iv, S::BV(64))? as usize;
                let r = match &x {
                    Val::V(vs) => vs.get(k).cloned().unwrap_or(Val::U),
                    _ => Val::U,
                };
                self.set(st, *d, r);
            }
            I::InsertElement(v, e, i, n, d) => {
                let x = self.op(st, v);
                let y = self.op(st, e);
                let iv = self.op(st, i);
                let k = self.conc(st, &iv, S::BV(64))? as usize;
                let mut vs = self.vecof(&x, *n as usize);
                if k < vs.len() {
                    vs[k] = y;
                }
                self.set(st, *d, Val::V(Arc::new(vs)));
            }
            I::Shuffle(n, a, b, m, d) => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                let xs = self.vecof(&x, *n as usize);
                let ys = self.vecof(&y, *n as usize);
                let r = m
                    .iter()
                    .map(|k| {
                        if *k < 0 {
                            Val::U
                        } else if (*k as usize) < xs.len() {
                            xs[*k as usize].clone()
                        } else {
                            ys[*k as usize - xs.len()].clone()
                        }
                    })
                    .collect();
                self.set(st, *d, Val::V(Arc::new(r)));
            }
            I::Freeze(t, v, d) => {
                let x = match self.op(st, v) {
                    Val::U => zero_of(t),
                    o => o,
                };
                self.set(st, *d, x);
            }
            I::AtomicRmw(o, t, p, v, d) => {
                let pv = self.op(st, p);
                let a = self.conc(st, &pv, S::BV(64))? as u64;
                let y = self.op(st, v);
                let old = self.load(st, a, t)?;
                let new = match o.as_str() {
                    "xchg" => y,
                    "add" => self.bin(st, BinOp::Add, t, &old, &y)?,
                    "sub" => self.bin(st, BinOp::Sub, t, &old, &y)?,
                    "and" => self.bin(st, BinOp::And, t, &old, &y)?,
                    "or" => self.bin(st, BinOp::Or, t, &old, &y)?,
                    "xor" => self.bin(st, BinOp::Xor, t, &old, &y)?,
                    o => return Err(Stop::Unsup(format!("atomicrmw {}", o))),
                };
                self.store(st, a, t, &new)?;
                self.set(st, *d, old);
            }
            I::CmpXchg(t, p, c, n, d) => {
                let pv = self.op(st, p);
                let a = self.conc(st, &pv, S::BV(64))? as u64;
                let cv = self.op(st, c);
                let nv = self.op(st, n);
                let old = self.load(st, a, t)?;
                let e = self.icmp(ICmp::Eq, t, &old, &cv)?;
                let eq = self.conc(st, &e, S::Bool)?;
                if eq != 0 {
                    self.store(st, a, t, &nv)?;
                }
                self.set(st, *d, Val::V(Arc::new(vec![old, Val::C(eq)])));
            }
            I::Nop => {}
            I::Unsupported(s) => return Err(Stop::Unsup(s.clone())),
        }
        Ok(Flow::Next)
    }

    fn call(&mut self, st: &mut State, fid: u32, args: &'static [(T, Op)], rt: &T, dst: Option<u32>, normal: Option<u32>) -> R<Flow> {
        let intr = match self.intr[fid as usize] {
            Some(i) => i,
            None => {
                let f = &self.m.funcs[fid as usize];
                let i = classify(&f.name, &f.pretty, f.text.is_some());
                self.intr[fid as usize] = Some(i);
                i
            }
        };
        let mut vals: Vec<Val> = Vec::with_capacity(args.len());
        for (_, o) in args {
            vals.push(self.op(st, o));
        }
        if intr == Intr::None {
            let f = &self.m.funcs[fid as usize];
            if f.text.is_none() {
                // futex wait: nobody else can wake the only thread
                if f.name == "syscall" && self.where_(st).contains("futex") {
                    return Err(Stop::Limit("waits for a lock that is never released".into()));
                }
                return Err(Stop::Unsup(format!("call of external function {}", f.name)));
            }
            self.funcs_seen.insert(fid);
            if st.frames.len() > 3000 {
                return Err(Stop::Limit("call depth".into()));
            }
            let body = self.m.body(fid);
            let mut regs = vec![Val::U; body.nregs as usize];
            for (i, p) in body.params.iter().enumerate() {
                if i < vals.len() {
                    regs[*p as usize] = vals[i].clone();
                }
            }
            st.frames.push(Frame { func: fid, body, regs, block: 0, ip: 0, dst, normal, allocas: vec![] });
            return Ok(Flow::Stay);
        }
        if intr == Intr::Switch {
            let t = self.conc(st, &vals[0], S::BV(32))? as usize;
            match normal {
                Some(b) => self.jump(st, b),
                None => {
                    let fi = st.frames.len() - 1;
                    st.frames[fi].ip += 1;
                }
            }
            if t >= st.stacks.len() || (t != st.cur && st.stacks[t].is_empty()) {
                return Err(Stop::Unsup("switch to a thread that does not exist".into()));
            }
            if t != st.cur {
                let c = st.cur;
                st.stacks[c] = std::mem::take(&mut st.frames);
                st.frames = std::mem::take(&mut st.stacks[t]);
                st.cur = t;
            }
            return Ok(Flow::Stay);
        }
        let r = self.intrinsic(st, fid, intr, args, &vals, rt)?;
        if let Some(d) = dst {
            self.set(st, d, r);
        }
        if let Some(b) = normal {
            self.jump(st, b);
            return Ok(Flow::Stay);
        }
        Ok(Flow::Next)
    }

    fn vmap(&mut self, st: &mut State, t: &Ty, v: &[Val], f: &mut dyn FnMut(&mut Ex, &mut State, S, &[Val]) -> R<Val>) -> R<Val> {
        if let Ty::Vec(n, e) = t {
            let s = vsort(e);
            let cols: Vec<Vec<Val>> = v.iter().map(|x| self.vecof(x, *n as usize)).collect();
            let mut r = vec![];
            for i in 0..*n as usize {
                let a: Vec<Val> = cols.iter().map(|c| c[i].clone()).collect();
                r.push(f(self, st, s, &a)?);
            }
            return Ok(Val::V(Arc::new(r)));
        }
        f(self, st, vsort(t), v)
    }

    fn read_str(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let a = self.conc(st, p, S::BV(64))? as u64;
        let n = self.conc(st, n, S::BV(64))? as u64;
        let mut s = String::new();
        for i in 0..n {
            match self.load_scalar(st, a + i, &Ty::Int(8))? {
                Val::C(c) => s.push(c as u8 as char),
                _ => s.push('?'),
            }
        }
        Ok(s)
    }

    fn intrinsic(&mut self, st: &mut State, fid: u32, i: Intr, args: &'static [(T, Op)], v: &[Val], rt: &T) -> R<Val> {
        let p64 = S::BV(64);
        match i {
            Intr::None => unreachable!(),
            Intr::Alloc | Intr::AllocZ => {
                let n = self.conc(st, &v[0], p64)? as u64;
                let a = self.alloc(st, n, i == Intr::AllocZ)?;
                Ok(Val::C(a as u128))
            }
            Intr::Dealloc => {
                let a = self.conc(st, &v[0], p64)? as u64;
                self.dealloc(st, a)?;
                Ok(Val::U)
            }
            Intr::Realloc => {
                let a = self.conc(st, &v[0], p64)? as u64;
                let old = self.conc(st, &v[1], p64)? as u64;
                let n = self.conc(st, &v[3], p64)? as u64;
                let b = self.alloc(st, n, false)?;
                if b != 0 {
                    self.copy(st, b, a, old.min(n))?;
                    self.dealloc(st, a)?;
                }
                Ok(Val::C(b as u128))
            }
            Intr::NopFn => Ok(Val::U),
            Intr::Syscall0 => Ok(Val::C(0)),
            Intr::HashKeys => match &**rt {
                Ty::Void => {
                    let a = self.conc(st, &v[0], p64)? as u64;
                    self.store_scalar(st, a, &Ty::Int(64), &Val::C(0x1234567))?;
                    self.store_scalar(st, a + 8, &Ty::Int(64), &Val::C(0x89abcde))?;
                    Ok(Val::U)
                }
                _ => Ok(Val::V(Arc::new(vec![Val::C(0x1234567), Val::C(0x89abcde)]))),
            },
            Intr::GetRandom => {
                let a = self.conc(st, &v[0], p64)? as u64;
                let n = self.conc(st, &v[1], p64)? as u64;
                for k in 0..n {
                    self.store_scalar(st, a + k, &Ty::Int(8), &Val::C(((k * 37 + 11) & 0xff) as u128))?;
                }
                Ok(Val::C(0))
            }
            Intr::Panic => {
                let f = &self.m.funcs[fid as usize];
                let mut msg = if f.pretty.is_empty() { f.name.clone() } else { f.pretty.clone() };
                // core::panicking::panic(&str, ..): first two arguments are the message
                if f.name.ends_with("9panicking5panic") || f.name.ends_with("13expect_failed") {
                    if let Ok(s) = self.read_str(st, &v[0].clone(), &v[1].clone()) {
                        msg = format!("{}: {}", msg, s);
                    }
                }
                Err(Stop::Panic(msg))
            }
            Intr::Memcpy => {
                let n = self.conc(st, &v[2], p64)? as u64;
                let d = self.conc(st, &v[0], p64)? as u64;
                let s = self.conc(st, &v[1], p64)? as u64;
                self.copy(st, d, s, n)?;
                Ok(v[0].clone())
            }
            Intr::Memset => {
                let n = self.conc(st, &v[2], p64)? as u64;
                let d = self.conc(st, &v[0], p64)? as u64;
                if n == 0 {
                    return Ok(Val::U);
                }
                match &v[1] {
                    Val::C(c) => {
                        let off = (d & 0xffff_ffff) as usize;
                        let o = self.obj_mut(st, d, n, "write")?;
                        for k in 0..n as usize {
                            o.data[off + k] = *c as u8;
                            o.set_st(off + k, 0);
                        }
                    }
                    x => {
                        for k in 0..n {
                            self.store_scalar(st, d + k, &Ty::Int(8), x)?;
                        }
                    }
                }
                Ok(Val::U)
            }
            Intr::Memcmp | Intr::Bcmp => {
                let n = self.conc(st, &v[2], p64)? as u64;
                let a = self.conc(st, &v[0], p64)? as u64;
                let b = self.conc(st, &v[1], p64)? as u64;
                for k in 0..n {
                    let x = self.load_scalar(st, a + k, &Ty::Int(8))?;
                    let y = self.load_scalar(st, b + k, &Ty::Int(8))?;
                    let e = self.icmp(ICmp::Eq, &Ty::Int(8), &x, &y)?;
                    let eq = self.conc(st, &e, S::Bool)?;
                    if eq == 0 {
                        let l = self.icmp(ICmp::Ult, &Ty::Int(8), &x, &y)?;
                        let lt = if i == Intr::Bcmp { 0 } else { self.conc(st, &l, S::Bool)? };
                        return Ok(Val::C(if lt != 0 { 0xffff_ffff } else { 1 }));
                    }
                }
                Ok(Val::C(0))
            }
            Intr::Strlen => {
                let a = self.conc(st, &v[0], p64)? as u64;
                let mut k = 0;
                loop {
                    let x = self.load_scalar(st, a + k, &Ty::Int(8))?;
                    if self.conc(st, &x, S::BV(8))? == 0 {
                        return Ok(Val::C(k as u128));
                    }
                    k += 1;
                }
            }
            Intr::Lifetime(_start) => Ok(Val::U),
            Intr::Assume => Ok(Val::U),
            Intr::Expect | Intr::ThreadLocal => Ok(v[0].clone()),
            Intr::IsConstant => Ok(Val::C(0)),
            Intr::Ovf(k) => {
                let t = args[0].0.clone();
                let s = vsort(&t);
                let w = s.bits();
                if let (Val::C(x), Val::C(y)) = (&v[0], &v[1]) {
                    let (sx, sy) = (sext(*x, w), sext(*y, w));
                    let (r, o): (u128, bool) = match k {
                        0 => (x.wrapping_add(*y) & mask(w), x + y > mask(w)),
                        1 => (x.wrapping_sub(*y) & mask(w), x < y),
                        2 => {
                            let (f, of) = x.overflowing_mul(*y);
                            (f & mask(w), of || f > mask(w))
                        }
                        _ => {
                            let f = match k {
                                3 => sx + sy,
                                4 => sx - sy,
                                _ => sx.wrapping_mul(sy),
                            };
                            let r = (f as u128) & mask(w);
                            (r, sext(r, w) != f)
                        }
                    };
                    return Ok(Val::V(Arc::new(vec![Val::C(r), Val::C(o as u128)])));
                }
                let (x, y) = (self.term(&v[0], s), self.term(&v[1], s));
                let w2 = S::BV(w * 2);
                let signed = k >= 3;
                let e = if signed { K::SExt } else { K::ZExt };
                let (xe, ye) = (self.ar.un(e, w2, 0, x), self.ar.un(e, w2, 0, y));
                let o = match k % 3 {
                    0 => K::Add,
                    1 => K::Sub,
                    _ => K::Mul,
                };
                let r = self.ar.bin(o, x, y);
                let f = self.ar.bin(o, xe, ye);
                let re = self.ar.un(e, w2, 0, r);
                let eq = self.ar.eq(f, re);
                let of = self.ar.not(eq);
                Ok(Val::V(Arc::new(vec![self.wrap(r), self.wrap(of)])))
            }
            Intr::Sat_(k) => self.vmap(st, rt, &v[..2], &mut |e, _st, s, a| {
                let w = s.bits();
                let (x, y) = (e.term(&a[0], s), e.term(&a[1], s));
                let r = match k {
                    0 => {
                        let z = e.ar.bin(K::Add, x, y);
                        let c = e.ar.bin(K::Ult, z, x);
                        let m = e.ar.cst(s, mask(w));
                        e.ar.ite(c, m, z)
                    }
                    1 => {
                        let z = e.ar.bin(K::Sub, x, y);
                        let c = e.ar.bin(K::Ult, x, y);
                        let m = e.ar.cst(s, 0);
                        e.ar.ite(c, m, z)
                    }
                    _ => return Err(Stop::Unsup("signed sat".into())),
                };
                Ok(e.wrap(r))
            }),
            Intr::MinMax(k) => self.vmap(st, rt, &v[..2], &mut |e, _st, s, a| {
                let (x, y) = (e.term(&a[0], s), e.term(&a[1], s));
                let c = match k {
                    0 => e.ar.bin(K::Ult, x, y),
                    1 => e.ar.bin(K::Ult, y, x),
                    2 => e.ar.bin(K::Slt, x, y),
                    _ => e.ar.bin(K::Slt, y, x),
                };
                let r = e.ar.ite(c, x, y);
                Ok(e.wrap(r))
            }),
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Bswap | Intr::BitReverse => self.vmap(st, rt, &v[..1], &mut |e, st, s, a| {
                let w = s.bits();
                if let (Val::T(_), Intr::Ctlz) = (&a[0], i) {
                    // symbolic: chain of ites
                    let x = e.term(&a[0], s);
                    let mut r = e.ar.cst(s, w as u128);
                    for b in 0..w {
                        let bit = e.ar.un(K::Extract, S::BV(1), b as u128, x);
                        let one = e.ar.cst(S::BV(1), 1);
                        let c = e.ar.eq(bit, one);
                        let k = e.ar.cst(s, (w - 1 - b) as u128);
                        r = e.ar.ite(c, k, r);
                    }
                    return Ok(e.wrap(r));
                }
                let x = e.conc(st, &a[0], s)?;
                Ok(Val::C(match i {
                    Intr::Ctlz => (x.leading_zeros() - (128 - w)) as u128,
                    Intr::Cttz => {
                        if x == 0 {
                            w as u128
                        } else {
                            x.trailing_zeros() as u128
                        }
                    }
                    Intr::Ctpop => x.count_ones() as u128,
                    Intr::Bswap => x.swap_bytes() >> (128 - w),
                    _ => x.reverse_bits() >> (128 - w),
                }))
            }),
            Intr::Abs => self.vmap(st, rt, &v[..1], &mut |e, _st, s, a| {
                let x = e.term(&a[0], s);
                let z = e.ar.cst(s, 0);
                let c = e.ar.bin(K::Slt, x, z);
                let n = e.ar.bin(K::Sub, z, x);
                let r = e.ar.ite(c, n, x);
                Ok(e.wrap(r))
            }),
            Intr::Fsh(left) => self.vmap(st, rt, &v[..3], &mut |e, st, s, a| {
                let w = s.bits();
                let (x, y) = (e.conc(st, &a[0], s)?, e.conc(st, &a[1], s)?);
                let k = (e.conc(st, &a[2], s)? % w as u128) as u32;
                let r = if k == 0 {
                    if left {
                        x
                    } else {
                        y
                    }
                } else if left {
                    (x << k) | (y >> (w - k))
                } else {
                    (x << (w - k)) | (y >> k)
                };
                Ok(Val::C(r & mask(w)))
            }),
            Intr::UCmp(signed) => {
                let t = args[0].0.clone();
                let s = vsort(&t);
                let (x, y) = (self.term(&v[0], s), self.term(&v[1], s));
                let k = if signed { K::Slt } else { K::Ult };
                let lt = self.ar.bin(k, x, y);
                let gt = self.ar.bin(k, y, x);
                let rs = vsort(rt);
                let (m1, z, o) = (self.ar.cst(rs, mask(rs.bits())), self.ar.cst(rs, 0), self.ar.cst(rs, 1));
                let r = self.ar.ite(gt, o, z);
                let r = self.ar.ite(lt, m1, r);
                Ok(self.wrap(r))
            }
            Intr::VReduce(k) => {
                let t = args[0].0.clone();
                let (n, e) = match &*t {
                    Ty::Vec(n, e) => (*n as usize, e.clone()),
                    _ => return Err(Stop::Unsup("vreduce".into())),
                };
                let xs = self.vecof(&v[0], n);
                let mut acc = xs[0].clone();
                for x in &xs[1..] {
                    let o = match k {
                        0 => BinOp::Or,
                        1 => BinOp::And,
                        _ => BinOp::Add,
                    };
                    acc = self.bin(st, o, &e, &acc, x)?;
                }
                Ok(acc)
            }
            Intr::FpClass => {
                let s = vsort(&args[0].0);
                let mask = self.conc(st, &v[1], S::BV(32))?;
                let x = self.term(&v[0], s);
                let bs = S::BV(s.bits());
                let b = self.ar.un(K::FToBits, bs, 0, x);
                let (w, mant) = if s == S::F32 { (32u32, 23u32) } else { (64, 52) };
                let sign = self.ar.un(K::Extract, S::BV(1), (w - 1) as u128, b);
                let neg = {
                    let one = self.ar.cst(S::BV(1), 1);
                    self.ar.eq(sign, one)
                };
                let pos = self.ar.not(neg);
                let ew = w - 1 - mant;
                let ex = self.ar.un(K::Extract, S::BV(ew), mant as u128, b);
                let ma = self.ar.un(K::Extract, S::BV(mant), 0, b);
                let ez = { let z = self.ar.cst(S::BV(ew), 0); self.ar.eq(ex, z) };
                let eo = { let z = self.ar.cst(S::BV(ew), (1u128 << ew) - 1); self.ar.eq(ex, z) };
                let mz = { let z = self.ar.cst(S::BV(mant), 0); self.ar.eq(ma, z) };
                let mnz = self.ar.not(mz);
                let quiet = { let q = self.ar.un(K::Extract, S::BV(1), mant as u128 - 1, b); let z = self.ar.cst(S::BV(1), 1); self.ar.eq(q, z) };
                let nan = self.ar.and(eo, mnz);
                let nquiet = self.ar.not(quiet);
                let snan = self.ar.and(nan, nquiet);
                let qnan = self.ar.and(nan, quiet);
                let inf = self.ar.and(eo, mz);
                let zero = self.ar.and(ez, mz);
                let sub = self.ar.and(ez, mnz);
                let ne = self.ar.or(ez, eo);
                let norm = self.ar.not(ne);
                let cls = [(snan, None), (qnan, None), (inf, Some(true)), (norm, Some(true)), (sub, Some(true)), (zero, Some(true)), (zero, Some(false)), (sub, Some(false)), (norm, Some(false)), (inf, Some(false))];
                let mut r = Arena::FALSE;
                for (i, (c, sg)) in cls.iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        let t = match sg {
                            None => *c,
                            Some(true) => self.ar.and(*c, neg),
                            Some(false) => self.ar.and(*c, pos),
                        };
                        r = self.ar.or(r, t);
                    }
                }
                Ok(self.wrap(r))
            }
            Intr::FAbs => self.fun1(st, rt, v, K::FAbs, 0),
            Intr::FSqrt => self.fun1(st, rt, v, K::FSqrt, 0),
            Intr::FUn(id) => self.fun1(st, rt, v, K::FUn, id as u128),
            Intr::FBin(id) => self.vmap(st, rt, &v[..2], &mut |e, _st, s, a| {
                let (x, y) = (e.term(&a[0], s), e.term(&a[1], s));
                let r = e.ar.fbin(id as u128, x, y);
                Ok(e.wrap(r))
            }),
            Intr::PowI => {
                let s = vsort(rt);
                let n = self.conc(st, &v[1], S::BV(32))?;
                let x = self.term(&v[0], s);
                let r = self.ar.un(K::PowI, s, n, x);
                Ok(self.wrap(r))
            }
            Intr::FMinMax(mx) => self.vmap(st, rt, &v[..2], &mut |e, _st, s, a| {
                let (x, y) = (e.term(&a[0], s), e.term(&a[1], s));
                let c = if mx { e.ar.bin(K::FLt, y, x) } else { e.ar.bin(K::FLt, x, y) };
                let mut r = e.ar.ite(c, x, y);
                let ny = e.ar.un(K::FIsNan, S::Bool, 0, y);
                r = e.ar.ite(ny, x, r);
                Ok(e.wrap(r))
            }),
            Intr::CopySign => self.vmap(st, rt, &v[..2], &mut |e, _st, s, a| {
                let (x, y) = (e.term(&a[0], s), e.term(&a[1], s));
                let z = e.ar.cst(s, 0);
                let c = e.ar.bin(K::FLt, y, z);
                let ax = e.ar.un(K::FAbs, s, 0, x);
                let nx = e.ar.un(K::FNeg, s, 0, ax);
                let r = e.ar.ite(c, nx, ax);
                Ok(e.wrap(r))
            }),
            Intr::Fma => self.vmap(st, rt, &v[..3], &mut |e, _st, s, a| {
                let (x, y, z) = (e.term(&a[0], s), e.term(&a[1], s), e.term(&a[2], s));
                let m = e.ar.bin(K::FMul, x, y);
                let r = e.ar.bin(K::FAdd, m, z);
                Ok(e.wrap(r))
            }),
            Intr::FpToIntSat(signed) => {
                let fs = vsort(&args[0].0.clone());
                let x = self.term(&v[0], fs);
                let ts = vsort(rt);
                let r = self.ar.un(if signed { K::FpToSi } else { K::FpToUi }, ts, 0, x);
                Ok(self.wrap(r))
            }
            // ---------------- harness intrinsics ----------------
            Intr::Job => Ok(Val::C(self.nonjob_choice.unwrap_or(0) as u128)),
            Intr::Tier => Ok(Val::C(self.lim.tier as u128)),
            Intr::OnPanic => {
                let f = self.conc(st, &v[0], p64)? as u64;
                let ctx = self.conc(st, &v[1], p64)? as u64;
                st.on_panic = match self.m.func_at(f) {
                    Some(id) => Some((id, ctx)),
                    None => return Err(Stop::Unsup("on_panic: not a function".into())),
                };
                Ok(Val::U)
            }
            Intr::Spawn => {
                let f = self.conc(st, &v[0], p64)? as u64;
                let ctx = self.conc(st, &v[1], p64)? as u64;
                let fid = match self.m.func_at(f) {
                    Some(id) => id,
                    None => return Err(Stop::Unsup("spawn: not a function".into())),
                };
                self.funcs_seen.insert(fid);
                let body = self.m.body(fid);
                let mut regs = vec![Val::U; body.nregs as usize];
                if let Some(p) = body.params.first() {
                    regs[*p as usize] = Val::C(ctx as u128);
                }
                st.stacks.push(vec![Frame { func: fid, body, regs, block: 0, ip: 0, dst: None, normal: None, allocas: vec![] }]);
                Ok(Val::C(st.stacks.len() as u128 - 1))
            }
            Intr::Switch => Ok(Val::U),
            Intr::Stack => Ok(Val::C(st.frames.len() as u128 * 128)),
            Intr::CheckFinite => {
                let l = self.read_str(st, &v[1], &v[2])?;
                let a = self.term(&v[0], S::F32);
                self.do_finite(st, &l, a)?;
                Ok(Val::U)
            }
            Intr::SymU32 => {
                let lo = self.conc(st, &v[0], S::BV(32))?;
                let hi = self.conc(st, &v[1], S::BV(32))?;
                let t = self.fresh("n", S::BV(32), false, false);
                let vid = self.ar.t[t as usize].imm as u32;
                self.ar.vars[vid as usize].def = lo;
                st.inputs.push(Input::Var(vid, S::BV(32)));
                if lo == hi {
                    let k = self.ar.cst(S::BV(32), lo);
                    let e = self.ar.eq(t, k);
                    self.add_pc(st, e);
                    return Ok(Val::C(lo));
                }
                let (l, h) = (self.ar.cst(S::BV(32), lo), self.ar.cst(S::BV(32), hi));
                let a = self.ar.bin(K::Ule, l, t);
                let b = self.ar.bin(K::Ule, t, h);
                self.add_pc(st, a);
                self.add_pc(st, b);
                Ok(Val::T(t))
            }
            Intr::SymF32 | Intr::SymF32Any => {
                let t = self.fresh("x", S::F32, false, i == Intr::SymF32Any);
                let vid = self.ar.t[t as usize].imm as u32;
                st.inputs.push(Input::Var(vid, S::F32));
                Ok(Val::T(t))
            }
            Intr::FillSym => {
                let a = self.conc(st, &v[0], p64)? as u64;
                let n = self.conc(st, &v[1], p64)? as u64;
                for k in 0..n {
                    let t = self.fresh("x", S::F32, false, false);
                    let vid = self.ar.t[t as usize].imm as u32;
                    st.inputs.push(Input::Var(vid, S::F32));
                    self.store_term(st, a + 4 * k, t, 4)?;
                }
                Ok(Val::U)
            }
            Intr::Choose => {
                let n = self.conc(st, &v[0], S::BV(32))? as u32;
                for k in (1..n).rev() {
                    let mut alt = st.clone();
                    alt.inputs.push(Input::Choice(k));
                    // continue after the call
                    self.finish_choose(&mut alt, k);
                    self.work.push(alt);
                    self.forks += 1;
                }
                if n == 0 {
                    return Err(Stop::Assume);
                }
                st.inputs.push(Input::Choice(0));
                Ok(Val::C(0))
            }
            Intr::AssumeH => {
                let c = self.term(&v[0], S::Bool);
                match self.lookup(st, c) {
                    Some(true) => return Ok(Val::U),
                    Some(false) => return Err(Stop::Assume),
                    None => {}
                }
                let good = st.model.as_ref().map(|m| m.eval(&self.ar, c) != 0).unwrap_or(false);
                if !good {
                    let (s, m) = self.feasible(st, c);
                    if s == Sat::Unsat {
                        return Err(Stop::Assume);
                    }
                    let mut m = m;
                    if m.is_none() {
                        // look for a concrete witness
                        let mut pc = st.pc.clone();
                        pc.push(c);
                        m = self.search_witness(st, &pc).map(|h| Rc::new(Model::new(h)));
                    }
                    st.model = m;
                }
                self.add_pc(st, c);
                Ok(Val::U)
            }
            Intr::ExpectPanic => {
                let c = self.conc(st, &v[0], S::Bool)?;
                st.expect_panic = c != 0;
                Ok(Val::U)
            }
            Intr::MayPanic => {
                let c = self.conc(st, &v[0], S::Bool)?;
                st.may_panic = c != 0;
                Ok(Val::U)
            }
            Intr::StrictFp => {
                let c = self.conc(st, &v[0], S::Bool)?;
                self.strict_fp = c != 0;
                self.ar.finite = c == 0;
                Ok(Val::U)
            }
            Intr::LiveHeap => Ok(Val::C(st.mem.live_heap as u128 & mask(64))),
            Intr::IsLive => {
                let a = self.conc(st, &v[0], p64)? as u64;
                let ok = match st.mem.get(a >> 32) {
                    Some(o) => !o.freed,
                    None => false,
                };
                Ok(Val::C(ok as u128))
            }
            Intr::Reach => {
                let l = self.read_str(st, &v[0], &v[1])?;
                self.labels.entry(l).or_default().reached += 1;
                Ok(Val::U)
            }
            Intr::Check => {
                let l = self.read_str(st, &v[1], &v[2])?;
                let c = self.term(&v[0], S::Bool);
                self.do_check(st, &l, c)?;
                Ok(Val::U)
            }
            Intr::CheckFeq | Intr::CheckBits => {
                let l = self.read_str(st, &v[2], &v[3])?;
                let a = self.term(&v[0], S::F32);
                let b = self.term(&v[1], S::F32);
                self.do_feq(st, &l, a, b, i == Intr::CheckBits)?;
                Ok(Val::U)
            }
            Intr::Vjp => {
                // (ys, gys, ny, xs, out, nx)
                let ys = self.conc(st, &v[0], p64)? as u64;
                let gys = self.conc(st, &v[1], p64)? as u64;
                let ny = self.conc(st, &v[2], p64)? as u64;
                let xs = self.conc(st, &v[3], p64)? as u64;
                let out = self.conc(st, &v[4], p64)? as u64;
                let nx = self.conc(st, &v[5], p64)? as u64;
                let mut yt = vec![];
                let mut gt = vec![];
                for k in 0..ny {
                    let a = self.load_scalar(st, ys + 4 * k, &Ty::F32)?;
                    yt.push(self.term(&a, S::F32));
                    let g = self.load_scalar(st, gys + 4 * k, &Ty::F32)?;
                    gt.push(self.term(&g, S::F32));
                }
                let mut xt = vec![];
                for k in 0..nx {
                    let a = self.load_scalar(st, xs + 4 * k, &Ty::F32)?;
                    xt.push(self.term(&a, S::F32));
                }
                let res = crate::ad::vjp(&mut self.ar, &yt, &gt, &xt).map_err(Stop::Unsup)?;
                st.inputs.push(Input::Oracle(res.clone()));
                for (k, r) in res.iter().enumerate() {
                    let val = self.wrap(*r);
                    self.store_scalar(st, out + 4 * k as u64, &Ty::F32, &val)?;
                }
                Ok(Val::U)
            }
        }
    }

    fn finish_choose(&mut self, st: &mut State, k: u32) {
        let fi = st.frames.len() - 1;
        let (b, ip) = (st.frames[fi].block, st.frames[fi].ip);
        let body = st.frames[fi].body;
        if let I::Call(_, _, _, dst, normal) = &body.blocks[b as usize].code[ip] {
            if let Some(d) = dst {
                self.set(st, *d, Val::C(k as u128));
            }
            match normal {
                Some(nb) => self.jump(st, *nb),
                None => st.frames[fi].ip += 1,
            }
        }
    }

    fn fun1(&mut self, st: &mut State, rt: &T, v: &[Val], k: K, id: u128) -> R<Val> {
        self.vmap(st, rt, &v[..1], &mut |e, _st, s, a| {
            let x = e.term(&a[0], s);
            let r = e.ar.un(k, s, id, x);
            Ok(e.wrap(r))
        })
    }

    /// Try random assignments of the float variables until the path condition holds concretely.
    pub fn search_witness(&mut self, st: &State, pc: &[u32]) -> Option<HashMap<u32, u128>> {
        let base = st.model.as_ref().map(|m| m.vals.clone()).unwrap_or_default();
        let vars = self.ar.vars_of(pc);
        for tries in 0..200 {
            let mut m = base.clone();
            for v in &vars {
                if self.ar.vars[*v as usize].sort == S::F32 {
                    let r = self.rand();
                    let sc = if tries < 100 { 1.0 } else { 3.0 };
                    let u = ((r % 20000) as f32 / 10000.0 - 1.0) * sc;
                    m.insert(*v, b32(u));
                }
            }
            let md = Model::new(m);
            if pc.iter().all(|c| md.eval(&self.ar, *c) != 0) {
                return Some(md.vals);
            }
        }
        None
    }

    fn do_check(&mut self, st: &mut State, label: &str, c: u32) -> R<()> {
        self.reached_ok = true;
        {
            let e = self.labels.entry(label.to_string()).or_default();
            e.reached += 1;
        }
        if c == Arena::TRUE {
            self.labels.get_mut(label).unwrap().trivially += 1;
            return Ok(());
        }
        if self.lookup(st, c) == Some(true) {
            self.labels.get_mut(label).unwrap().trivially += 1;
            return Ok(());
        }
        if self.strict_fp {
            return self.check_fp(st, label, c);
        }
        let nc = self.ar.not(c);
        let mut models = vec![];
        // the model kept with the path may already be a counterexample
        if let Some(m) = &st.model {
            if m.eval(&self.ar, c) == 0 {
                models.push(m.vals.clone());
            }
        }
        let (s, m) = {
            let mut q = self.slice_pc(st, nc);
            q.push(nc);
            self.sol.check(&self.ar, &q, true)
        };
        if s == Sat::Unsat {
            let e = self.labels.get_mut(label).unwrap();
            e.by_smt += 1;
            if self.samples.len() < 3 {
                let txt = self.ar.show(c, 4);
                self.samples.push(format!("{}: unsat(pc[{} conds] and not {})", label, st.pc.len(), trim(&txt, 160)));
            }
            st.known.insert(c, true);
            return Ok(());
        }
        if s == Sat::Unknown && models.is_empty() {
            let e = self.labels.get_mut(label).unwrap();
            e.inconclusive += 1;
        }
        if let Some(m) = m {
            let mut full = st.model.as_ref().map(|x| x.vals.clone()).unwrap_or_default();
            full.extend(m.clone());
            models.push(full);
            models.push(m);
        }
        // random witnesses
        let mut pc = st.pc.clone();
        pc.push(nc);
        if let Some(w) = self.search_witness(st, &pc) {
            models.push(w);
        }
        let e = self.labels.get_mut(label).unwrap();
        e.candidates += 1;
        if e.candidates <= 6 {
            let w = self.where_(st);
            let txt = self.ar.show(c, 5);
            self.cands.push(Cand {
                label: label.to_string(),
                kind: CandKind::Check,
                detail: format!("assertion can fail: {} [{}]", trim(&txt, 300), w),
                inputs: st.inputs.clone(),
                pc: st.pc.clone(),
                models,
                terms: None,
            });
        }
        // continue on the side where it holds
        match self.lookup(st, c) {
            Some(false) => return Err(Stop::Assume),
            _ => {}
        }
        let (s, m) = self.feasible(st, c);
        if s == Sat::Unsat {
            return Err(Stop::Assume);
        }
        st.model = m;
        self.add_pc(st, c);
        Ok(())
    }

    /// The value is finite for every input of the path (exact IEEE-754 theory of the solver).
    fn do_finite(&mut self, st: &mut State, label: &str, a: u32) -> R<()> {
        st.obs.push((Rc::from(label), a));
        self.labels.entry(label.to_string()).or_default().reached += 1;
        if let Some(c) = self.ar.as_const(a) {
            if f32b(c).is_finite() {
                self.labels.get_mut(label).unwrap().trivially += 1;
                return Ok(());
            }
        }
        self.reached_ok = true;
        let s = S::BV(32);
        let bits = self.ar.un(K::FToBits, s, 0, a);
        let mask = self.ar.cst(s, 0x7f80_0000);
        let ex = self.ar.bin(K::And, bits, mask);
        let bad = self.ar.eq(ex, mask);
        let c = self.ar.not(bad);
        self.check_fp(st, label, c)
    }

    /// The condition holds for every input of the path, floats taken exactly (SMT FloatingPoint).
    fn check_fp(&mut self, st: &mut State, label: &str, c: u32) -> R<()> {
        let nc = self.ar.not(c);
        if nc == Arena::FALSE {
            self.labels.get_mut(label).unwrap().trivially += 1;
            return Ok(());
        }
        let mut models = vec![];
        if let Some(m) = &st.model {
            if m.eval(&self.ar, c) == 0 {
                models.push(m.vals.clone());
            }
        }
        let mut pc = st.pc.clone();
        pc.push(nc);
        let (mut r, mut m) = (Sat::Unknown, None);
        if models.is_empty() {
            if let Some(w) = self.search_fp(&pc) {
                models.push(w);
            }
        }
        if models.is_empty() {
            let q = if st.pc.is_empty() { vec![nc] } else { pc.clone() };
            (r, m) = crate::fpq::decide(&self.ar, &mut self.sol.stats, &q, self.fp_secs);
        }
        if r == Sat::Unsat {
            let e = self.labels.get_mut(label).unwrap();
            e.by_fp += 1;
            if self.samples.len() < 6 {
                let txt = self.ar.show(c, 5);
                self.samples.push(format!("{}: unsat in exact IEEE-754: pc[{}] and not {}", label, st.pc.len(), trim(&txt, 200)));
            }
            return Ok(());
        }
        if r == Sat::Unknown && models.is_empty() {
            let e = self.labels.get_mut(label).unwrap();
            e.inconclusive += 1;
            return Ok(());
        }
        if let Some(m) = m {
            let mut full = st.model.as_ref().map(|x| x.vals.clone()).unwrap_or_default();
            full.extend(m);
            models.push(full);
        }
        let e = self.labels.get_mut(label).unwrap();
        e.candidates += 1;
        if e.candidates <= 6 {
            let w = self.where_(st);
            let txt = self.ar.show(c, 5);
            self.cands.push(Cand {
                label: label.to_string(),
                kind: CandKind::Check,
                detail: format!("assertion can fail: {} [{}]", trim(&txt, 300), w),
                inputs: st.inputs.clone(),
                pc: st.pc.clone(),
                models,
                terms: None,
            });
        }
        Ok(())
    }

    /// Try extreme and random assignments of the float variables until the conditions hold.
    fn search_fp(&mut self, pc: &[u32]) -> Option<HashMap<u32, u128>> {
        let vars = self.ar.vars_of(pc);
        for tries in 0..400 {
            let mut m = HashMap::new();
            for v in &vars {
                let srt = self.ar.vars[*v as usize].sort;
                let r = self.rand();
                let x = match srt {
                    S::F32 => {
                        let any = self.ar.vars[*v as usize].any;
                        if tries % 5 == 4 {
                            let t = [0x8000_0000u128, 0, 1, 0x8000_0001, 0x3f80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000];
                            m.insert(*v, t[(r >> 8) as usize % if any { 8 } else { 5 }]);
                            continue;
                        }
                        let e = match tries % 4 {
                            0 => (r >> 8) % 256,
                            1 => 127 - 4 + (r >> 8) % 16,
                            2 => [0u64, 254, 127, 133, 134, 120][((r >> 8) % 6) as usize],
                            _ => 240 + (r >> 8) % 15,
                        };
                        let man = if (r >> 20) & 3 == 0 { 0x7fffff } else { (r >> 24) & 0x7fffff };
                        let e = if e == 255 { 254 } else { e };
                        ((r & 1) << 31 | e << 23 | man) as u128
                    }
                    s => (r as u128) & ((1u128 << s.bits().min(64)) - 1),
                };
                m.insert(*v, x);
            }
            let md = Model::new(m);
            if pc.iter().all(|c| md.eval(&self.ar, *c) != 0) {
                return Some(md.vals);
            }
        }
        None
    }

    fn do_feq(&mut self, st: &mut State, label: &str, a: u32, b: u32, bits: bool) -> R<()> {
        self.reached_ok = true;
        st.obs.push((Rc::from(label), a));
        {
            let e = self.labels.entry(label.to_string()).or_default();
            e.reached += 1;
        }
        if a == b {
            self.labels.get_mut(label).unwrap().trivially += 1;
            return Ok(());
        }
        if self.labels[label].candidates >= 6 {
            // enough counterexamples of this kind wait to be confirmed
            self.labels.get_mut(label).unwrap().candidates += 1;
            return Ok(());
        }
        let s = S::BV(32);
        let ba = self.ar.un(K::FToBits, s, 0, a);
        let bb = self.ar.un(K::FToBits, s, 0, b);
        let eqb = self.ar.eq(ba, bb);
        let ne = self.ar.not(eqb);
        let mut models = vec![];
        let mut q = self.slice_pc(st, ne);
        if !bits {
            let v = crate::poly::equal(&mut self.poly, &mut self.ar, &mut self.sol, &mut self.rsol, a, b, &q);
            match v {
                Verdict::Equal | Verdict::EqualTol => {
                    let e = self.labels.get_mut(label).unwrap();
                    e.by_real += 1;
                    if v == Verdict::EqualTol {
                        e.by_tol += 1;
                    }
                    if self.samples.len() < 6 {
                        let txt = format!("{} = {}", self.ar.show(a, 4), self.ar.show(b, 4));
                        self.samples.push(format!("{}: unsat over the reals: not {}", label, trim(&txt, 240)));
                    }
                    return Ok(());
                }
                _ => {}
            }
        }
        q.push(ne);
        let (r, m) = self.sol.check(&self.ar, &q, true);
        if r == Sat::Unsat {
            self.labels.get_mut(label).unwrap().by_smt += 1;
            if self.samples.len() < 3 {
                let txt = format!("{} = {}", self.ar.show(a, 3), self.ar.show(b, 3));
                self.samples.push(format!("{}: bit-exact, unsat over uninterpreted float arithmetic: {}", label, trim(&txt, 200)));
            }
            return Ok(());
        }
        if let Some(m) = m {
            let mut full = st.model.as_ref().map(|x| x.vals.clone()).unwrap_or_default();
            full.extend(m);
            models.push(full);
        }
        if bits {
            // an input on which the bits differ, floats taken exactly
            let mut pc = st.pc.clone();
            pc.push(ne);
            if let Some(w) = self.search_fp(&pc) {
                models.insert(0, w);
            } else {
                let (r, m) = crate::fpq::decide(&self.ar, &mut self.sol.stats, &pc, self.fp_secs / 4);
                if r == Sat::Unsat {
                    self.labels.get_mut(label).unwrap().by_fp += 1;
                    return Ok(());
                }
                if let Some(w) = m {
                    models.insert(0, w);
                }
            }
        }
        let e = self.labels.get_mut(label).unwrap();
        e.candidates += 1;
        if e.candidates <= 6 {
            let w = self.where_(st);
            let txt = format!("{}  vs  {}", trim(&self.ar.show(a, 6), 300), trim(&self.ar.show(b, 6), 300));
            if !bits {
                models.clear();
            }
            if let Some(m) = &st.model {
                models.insert(0, m.vals.clone());
            }
            for _ in 0..3 {
                let pc = st.pc.clone();
                if let Some(mut w) = self.search_witness(st, &pc) {
                    // also re-draw the variables that are not constrained
                    for v in self.ar.vars_of(&[a, b]) {
                        if self.ar.vars[v as usize].sort == S::F32 && !w.contains_key(&v) {
                            let r = self.rand();
                            w.insert(v, b32((r % 20000) as f32 / 10000.0 - 1.0));
                        }
                    }
                    models.push(w);
                }
            }
            self.cands.push(Cand {
                label: label.to_string(),
                kind: if bits { CandKind::Bits } else { CandKind::Feq },
                detail: format!("values differ: {} [{}]", txt, w),
                inputs: st.inputs.clone(),
                pc: st.pc.clone(),
                models,
                terms: Some((a, b)),
            });
        }
        Ok(())
    }
}

pub fn trim(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        format!("{}...", &s[..s.char_indices().take_while(|(i, _)| *i < n).last().map(|(i, _)| i).unwrap_or(0)])
    }
}
