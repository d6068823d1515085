//! vx: solver-based checker for Rust code lowered to LLVM IR.
//!
//! vx check --prop C02 --ir FILE --native BIN --tier quick|thorough --evidence FILE --replays DIR
//!          --known FILE --seed N [--only SUBSTR] [--job N]
mod ad;
mod exec;
mod fpq;
mod ir;
mod poly;
mod report;
mod solver;
mod term;
use exec::*;
use report::{ASSUMPTIONS};
use report::Obj as JObj;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::io::Write as _;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

struct Cfg {
    m: &'static ir::Module,
    native: String,
    tier: u32,
    seed: u64,
    replays: String,
    deadline: Instant,
    prop: String,
    verbose: bool,
    z3: String,
    /// harness and label of the listed findings
    known: Vec<(String, String, String)>,
    /// set once a violation that is not listed has been confirmed on the real code
    stop: AtomicBool,
}

fn known_findings(txt: &str, prop: &str) -> Vec<(String, String, String)> {
    txt.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            // known: property=C01 harness=h label="..." what
            let p = l.split("property=").nth(1)?.split_whitespace().next()?.to_string();
            let h = l.split("harness=").nth(1)?.split_whitespace().next()?.to_string();
            let rest = l.split("label=\"").nth(1)?;
            let q = rest.find('"')?;
            if p != prop {
                return None;
            }
            Some((h, rest[..q].to_string(), rest[q + 1..].trim().to_string()))
        })
        .collect()
}

#[derive(Default)]
struct Total {
    jobs: u64,
    paths: u64,
    refused: u64,
    assume: u64,
    limit: u64,
    truncated: Vec<String>,
    instrs: u64,
    branches: u64,
    forks: u64,
    labels: BTreeMap<String, LabelStat>,
    per_harness: BTreeMap<String, (u64, u64, f64)>,
    unsup: BTreeSet<String>,
    qa: solver::Stats,
    qr: solver::Stats,
    funcs: BTreeSet<u32>,
    samples: Vec<String>,
    validated: u64,
    val_values: u64,
    mismatches: Vec<String>,
    confirmed: Vec<(String, String, String, String)>, // harness, label, detail, replay path
    unconfirmed: Vec<String>,
    tried: HashMap<String, u32>,
    oom: u64,
}

pub enum Native {
    Code(i32),
    Signal,
    Timeout,
}
fn native(bin: &str, file: &str, mode: &str, quiet: bool, secs: u64) -> (Native, String) {
    let mut c = Command::new(bin);
    c.arg(file).arg(mode);
    if quiet {
        c.arg("quiet");
    }
    let mut ch = match c.stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => return (Native::Code(99), format!("cannot run: {}", e)),
    };
    let mut out = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        use std::io::Read;
        let mut s = Vec::new();
        let _ = out.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {
                if t0.elapsed() > Duration::from_secs(secs) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
                let e = t0.elapsed().as_millis() as u64;
                std::thread::sleep(Duration::from_micros(if e < 20 { 300 } else { 5000 }));
            }
            Err(_) => break None,
        }
    };
    let text = rd.join().unwrap_or_default();
    match st {
        None => (Native::Timeout, text),
        Some(s) => match s.code() {
            Some(c) => (Native::Code(c), text),
            None => (Native::Signal, text),
        },
    }
}

/// Renders one path with concrete values as a replay file.
fn render(ex: &Ex, harness: &str, job: u32, tier: u32, inputs: &[Input], vals: &HashMap<u32, u128>) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    let _ = writeln!(s, "harness {}\njob {}\ntier {}", harness, job, tier);
    let mut memo = HashMap::new();
    for i in inputs {
        match i {
            Input::Var(v, so) => {
                let x = vals.get(v).copied().unwrap_or(ex.ar.vars[*v as usize].def);
                if so.is_fp() {
                    let _ = writeln!(s, "f {:08x}", x as u32);
                } else {
                    let _ = writeln!(s, "u {}", x as u32);
                }
            }
            Input::Choice(k) => {
                let _ = writeln!(s, "c {}", k);
            }
            Input::Oracle(ts) => {
                let mut l = String::from("o");
                for t in ts {
                    let _ = write!(l, " {:08x}", ex.ar.eval(*t, vals, &mut memo) as u32);
                }
                let _ = writeln!(s, "{}", l);
            }
        }
    }
    s
}

/// Concrete assignments that satisfy the path and may exhibit the violation, best first.
fn witnesses(ex: &mut Ex, c: &Cand) -> Vec<HashMap<u32, u128>> {
    let mut out: Vec<(f64, HashMap<u32, u128>)> = vec![];
    let base = c.models.first().cloned().unwrap_or_default();
    let mut fvars: Vec<u32> = vec![];
    for i in &c.inputs {
        if let Input::Var(v, s) = i {
            if s.is_fp() {
                fvars.push(*v);
            }
        }
    }
    let holds = |ex: &Ex, m: &HashMap<u32, u128>| {
        let mut memo = HashMap::new();
        c.pc.iter().all(|p| ex.ar.eval(*p, m, &mut memo) != 0)
    };
    if let (CandKind::Feq, Some((a, b))) = (c.kind, c.terms) {
        let score = |ex: &Ex, m: &HashMap<u32, u128>| -> f64 {
            let mut m1 = HashMap::new();
            let mut m2 = HashMap::new();
            let x = ex.ar.eval_hp(a, m, &mut m1, &mut m2);
            let y = ex.ar.eval_hp(b, m, &mut m1, &mut m2);
            if !x.is_finite() || !y.is_finite() || x.abs() > 1e30 || y.abs() > 1e30 {
                return 0.;
            }
            let d = (x - y).abs();
            if d < 3e-5 {
                return 0.;
            }
            d / x.abs().max(y.abs()).max(1e-3)
        };
        let scales = [1.0f32, 0.1, 10.0, 2.0, 1e-3, 30.0, 100.0];
        let mut tries = 0;
        while tries < 400 && out.len() < 12 {
            let sc = scales[tries % scales.len()];
            tries += 1;
            let mut m = base.clone();
            for v in &fvars {
                let r = ex.rand();
                let s2 = if tries % 3 == 0 { scales[(r >> 40) as usize % scales.len()] } else { sc };
                let mut u = ((r % 2000001) as f32 / 1000000.0 - 1.0) * s2;
                if tries % 4 == 1 {
                    u = u.abs();
                }
                m.insert(*v, term::b32(u));
            }
            if !holds(ex, &m) {
                continue;
            }
            let s = score(ex, &m);
            if s > 2e-3 {
                out.push((s, m));
            }
        }
        for m in &c.models {
            if holds(ex, m) {
                let s = score(ex, m);
                if s > 2e-3 {
                    out.push((s, m.clone()));
                }
            }
        }
        out.sort_by(|x, y| y.0.partial_cmp(&x.0).unwrap());
    } else {
        for m in &c.models {
            out.push((1.0, m.clone()));
        }
        // moderate values for the unconstrained floats
        if let Some(m0) = c.models.last().cloned() {
            for t in 0..40 {
                let mut m = m0.clone();
                for v in &fvars {
                    let r = ex.rand();
                    m.insert(*v, term::b32(((r % 20001) as f32 / 10000.0 - 1.0) * if t % 2 == 0 { 1.0 } else { 5.0 }));
                }
                if holds(ex, &m) {
                    out.push((0.5, m));
                    if out.len() > 6 {
                        break;
                    }
                }
            }
        }
    }
    out.into_iter().map(|x| x.1).take(6).collect()
}

fn run_job(cfg: &Cfg, tot: &Mutex<Total>, harness: &str, job: u32, sols: Option<(solver::Solver, solver::Solver)>) -> (solver::Solver, solver::Solver) {
    let now = Instant::now();
    let cap = Duration::from_secs(if cfg.tier == 0 { 200 } else { 1500 });
    let lim = Limits {
        steps_per_path: if cfg.tier == 0 { 25_000_000 } else { 40_000_000 },
        paths: 2_000_000,
        deadline: cfg.deadline.min(now + cap),
        tier: cfg.tier,
    };
    let mut ex = Ex::new(cfg.m, &cfg.z3, lim, cfg.seed.wrapping_add(job as u64 * 7919 + harness.len() as u64));
    if let Some((a, b)) = sols {
        ex.sol = a;
        ex.rsol = b;
        ex.sol.reset();
        ex.rsol.reset();
    }
    ex.run(harness, job);
    let mut pending_samples = vec![];
    let mut all = false;
    let mut ncands = 0;
    while !all {
    all = ex.explore(&cfg.stop);
    // ---- confirm candidates on the real code ----
    let cands = std::mem::take(&mut ex.cands);
    ncands += cands.len();
    for c in &cands {
        if cfg.stop.load(Ordering::Relaxed) {
            break;
        }
        let key = format!("{}|{}|{:?}", harness, c.label, c.kind);
        {
            let mut t = tot.lock().unwrap();
            if t.confirmed.iter().any(|x| x.0 == harness && x.1 == c.label) {
                continue;
            }
            let n = t.tried.entry(key.clone()).or_default();
            *n += 1;
            if *n > 60 {
                continue;
            }
        }
        let ws = witnesses(&mut ex, c);
        let mut ok = None;
        let mut last = String::from("no concrete input found on which the values differ");
        for (k, w) in ws.iter().enumerate() {
            let txt = render(&ex, harness, job, cfg.tier, &c.inputs, w);
            let path = format!("{}/{}-{}-{}-{}.replay", cfg.replays, cfg.prop, harness, job, k);
            if std::fs::write(&path, &txt).is_err() {
                continue;
            }
            for mode in ["end", "start"] {
                let secs = if c.kind == CandKind::Hang { 10 } else { 20 };
                let (r, out) = native(&cfg.native, &path, mode, true, secs);
                let l = out.lines().last().unwrap_or("").to_string();
                let hit = match r {
                    Native::Code(3) | Native::Code(11) => Some(l.clone()),
                    Native::Signal => Some(format!("killed by a signal (memory access outside any live block?) {}", l)),
                    Native::Timeout => Some("does not terminate within the time limit".to_string()),
                    Native::Code(n) => {
                        last = format!("native run: exit {} {}", n, l);
                        None
                    }
                };
                if let Some(h) = hit {
                    let keep = format!("{}/{}-{}-{}-{}.{}.replay", cfg.replays, cfg.prop, harness, job, sanitize(&c.label), mode);
                    let _ = std::fs::rename(&path, &keep);
                    let _ = std::fs::OpenOptions::new()
                        .append(true)
                        .open(&keep)
                        .map(|mut f| writeln!(f, "# allocator mode: {}\n# {}\n# {}\n# run: {} {} {}", mode, c.detail, h, cfg.native, keep, mode));
                    ok = Some((h, keep));
                    break;
                }
            }
            if ok.is_some() {
                break;
            }
            let _ = std::fs::remove_file(&path);
        }
        let mut t = tot.lock().unwrap();
        match ok {
            Some((h, p)) => {
                if !cfg.known.iter().any(|k| k.0 == harness && k.1 == c.label) {
                    cfg.stop.store(true, Ordering::Relaxed);
                }
                t.confirmed.push((harness.to_string(), c.label.clone(), format!("{} | {}", h, c.detail), p))
            }
            None => t.unconfirmed.push(format!("{} job {} {:?} \"{}\": {} -- {}", harness, job, c.kind, c.label, last, exec::trim(&c.detail, 500))),
        }
    }
    }
    let wall = now.elapsed().as_secs_f64();
    // ---- validate some explored paths against the real code ----
    let kept = std::mem::take(&mut ex.kept);
    let mut validated = 0;
    let mut values = 0;
    let mut mism = vec![];
    for (k, p) in kept.iter().enumerate() {
        if cfg.stop.load(Ordering::Relaxed) {
            break;
        }
        let vals = match nice_model(&mut ex, p) {
            Some(v) => v,
            None => continue,
        };
        let txt = render(&ex, harness, job, cfg.tier, &p.inputs, &vals);
        let path = format!("{}/v-{}-{}-{}-{}.replay", cfg.replays, cfg.prop, harness, job, k);
        if std::fs::write(&path, &txt).is_err() {
            continue;
        }
        let (r, out) = native(&cfg.native, &path, if k % 2 == 0 { "end" } else { "start" }, false, 20);
        let want = if p.ended == "done" { 0 } else { 10 };
        let code = match r {
            Native::Code(c) => c,
            Native::Signal => -1,
            Native::Timeout => -2,
        };
        let mut bad = None;
        if code != want {
            bad = Some(format!("exit {} instead of {}: {}", code, want, out.lines().last().unwrap_or("")));
        } else {
            let mut memo = HashMap::new();
            let got: Vec<u32> = out.lines().filter_map(|l| l.strip_prefix("o ")).filter_map(|x| u32::from_str_radix(x.trim(), 16).ok()).collect();
            for (i, (l, t)) in p.obs.iter().enumerate() {
                if i >= got.len() {
                    break;
                }
                let e = f32::from_bits(ex.ar.eval(*t, &vals, &mut memo) as u32);
                let g = f32::from_bits(got[i]);
                values += 1;
                let same = e.to_bits() == g.to_bits() || (e.is_nan() && g.is_nan()) || (e - g).abs() <= 1e-5 * e.abs().max(g.abs()) + 1e-12 || (!e.is_finite() && !g.is_finite());
                if !same {
                    bad = Some(format!("value {} ({}) of the model is {:e}, of the real code {:e}", i, l, e, g));
                    break;
                }
            }
        }
        match bad {
            None => {
                validated += 1;
                let _ = std::fs::remove_file(&path);
                if k == 0 && pending_samples.is_empty() {
                    pending_samples.push(format!("{} job {}: path {} replayed natively, inputs: {}", harness, job, p.ended, exec::trim(&txt.replace('\n', " "), 160)));
                }
            }
            Some(b) => {
                mism.push(format!("{} job {}: {} (replay {})", harness, job, b, path));
            }
        }
    }
    let mut t = tot.lock().unwrap();
    t.jobs += 1;
    t.paths += ex.paths_done;
    t.refused += ex.paths_panic_ok;
    t.assume += ex.paths_assume;
    t.limit += ex.paths_limit;
    if ex.truncated {
        t.truncated.push(format!("{} job {}", harness, job));
    }
    t.instrs += ex.instrs;
    t.branches += ex.branches;
    t.forks += ex.forks;
    for (l, s) in &ex.labels {
        let e = t.labels.entry(format!("{}: {}", harness, l)).or_default();
        e.reached += s.reached;
        e.trivially += s.trivially;
        e.by_smt += s.by_smt;
        e.by_real += s.by_real;
        e.by_tol += s.by_tol;
        e.by_fp += s.by_fp;
        e.candidates += s.candidates;
        e.inconclusive += s.inconclusive;
    }
    let e = t.per_harness.entry(harness.to_string()).or_default();
    e.0 += 1;
    e.1 += ex.paths_done + ex.paths_panic_ok;
    if wall > e.2 {
        e.2 = wall;
    }
    for u in &ex.unsup {
        t.unsup.insert(format!("{} job {}: {}", harness, job, u));
    }
    t.qa.add(&ex.sol.stats);
    t.qr.add(&ex.rsol.stats);
    t.qr.add(&ex.fpstats);
    for f in &ex.funcs_seen {
        t.funcs.insert(*f);
    }
    if t.samples.len() < 40 {
        let s: Vec<String> = ex.samples.iter().take(2).map(|x| format!("{} job {}: {}", harness, job, x)).collect();
        t.samples.extend(s);
    }
    if t.samples.len() < 60 {
        t.samples.extend(pending_samples);
    }
    t.validated += validated;
    t.val_values += values;
    t.mismatches.extend(mism);
    if cfg.verbose {
        eprintln!(
            "{} job {}: {:.2}s paths {} refused {} assumed {} limit {} instrs {} qA {} ({:.2}s) qR {} ({:.2}s) cands {}",
            harness, job, wall, ex.paths_done, ex.paths_panic_ok, ex.paths_assume, ex.paths_limit, ex.instrs, ex.sol.stats.queries, ex.sol.stats.time, ex.rsol.stats.queries, ex.rsol.stats.time, ncands
        );
    }
    drop(t);
    ex.into_solvers()
}

/// A model of the path with moderate float values where possible.
fn nice_model(ex: &mut Ex, p: &PathRec) -> Option<HashMap<u32, u128>> {
    let base = p.model.as_ref().map(|m| m.vals.clone()).unwrap_or_default();
    let mut fvars: Vec<u32> = vec![];
    for i in &p.inputs {
        if let Input::Var(v, s) = i {
            if s.is_fp() {
                fvars.push(*v);
            }
        }
    }
    let constrained: BTreeSet<u32> = ex.ar.vars_of(&p.pc).into_iter().collect();
    let holds = |ex: &Ex, m: &HashMap<u32, u128>| {
        let mut memo = HashMap::new();
        p.pc.iter().all(|c| ex.ar.eval(*c, m, &mut memo) != 0)
    };
    for t in 0..60 {
        let mut m = base.clone();
        for v in &fvars {
            if t >= 40 && constrained.contains(v) {
                continue;
            }
            let r = ex.rand();
            let mut u = (r % 20001) as f32 / 10000.0 - 1.0;
            if t % 3 == 1 {
                u = u.abs() + 0.01;
            }
            m.insert(*v, term::b32(u * if t % 2 == 0 { 1.0 } else { 3.0 }));
        }
        if holds(ex, &m) {
            return Some(m);
        }
    }
    if p.model.is_some() && holds(ex, &base) {
        return Some(base);
    }
    None
}

fn sanitize(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t0 = Instant::now();
    let prop = arg(&a, "--prop").expect("--prop");
    let tier_s = arg(&a, "--tier").unwrap_or("quick".into());
    let tier = if tier_s == "thorough" { 1 } else { 0 };
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&arg(&a, "--ir").expect("--ir"))));
    let budget: u64 = arg(&a, "--budget").and_then(|x| x.parse().ok()).unwrap_or(if tier == 0 { 480 } else { 3000 });
    let cfg = Cfg {
        m,
        native: arg(&a, "--native").expect("--native"),
        tier,
        seed: arg(&a, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
        replays: arg(&a, "--replays").unwrap_or("/tmp".into()),
        deadline: t0 + Duration::from_secs(budget),
        prop: prop.clone(),
        verbose: a.iter().any(|x| x == "--verbose"),
        z3: arg(&a, "--z3").unwrap_or("z3 -in -smt2".into()),
        known: known_findings(&arg(&a, "--known").and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default(), &prop),
        stop: AtomicBool::new(false),
    };
    let _ = std::fs::create_dir_all(&cfg.replays);
    let only = arg(&a, "--only");
    let only_job: Option<u32> = arg(&a, "--job").and_then(|x| x.parse().ok());
    let pre = format!("h_{}_", prop.to_lowercase());
    let mut hs: Vec<String> = m.fidx.keys().filter(|n| n.starts_with(&pre)).map(|s| s.to_string()).collect();
    hs.sort();
    if hs.is_empty() {
        println!("ERROR: no harness for {}", prop);
        std::process::exit(2);
    }
    // the number of jobs of each harness
    let cfg = Arc::new(cfg);
    let mut queue = VecDeque::new();
    let mut planned: Vec<(String, u32)> = vec![];
    {
        let c2 = Arc::clone(&cfg);
        let hs2 = hs.clone();
        planned = std::thread::Builder::new()
            .stack_size(1 << 28)
            .spawn(move || {
                let mut v = vec![];
                for h in hs2 {
                    let lim = Limits { steps_per_path: 1000000, paths: 10, deadline: Instant::now() + Duration::from_secs(20), tier };
                    let mut ex = Ex::new(c2.m, &c2.z3, lim, 1);
                    ex.run(&format!("n_{}", h), 0);
                    ex.explore(&AtomicBool::new(false));
                    v.push((h, ex.retval.expect("job count") as u32));
                }
                v
            })
            .unwrap()
            .join()
            .unwrap();
    }
    for (h, n) in &planned {
        if let Some(o) = &only {
            if !h.contains(o.as_str()) {
                continue;
            }
        }
        for j in 0..*n {
            if only_job.map(|x| x != j).unwrap_or(false) {
                continue;
            }
            queue.push_back((h.clone(), j));
        }
    }
    let njobs = queue.len();
    let queue = Arc::new(Mutex::new(queue));
    let tot = Arc::new(Mutex::new(Total::default()));
    let nthreads = arg(&a, "--threads").and_then(|x| x.parse().ok()).unwrap_or(8usize).min(njobs.max(1));
    let mut hd = vec![];
    for _ in 0..nthreads {
        let (cfg, queue, tot) = (Arc::clone(&cfg), Arc::clone(&queue), Arc::clone(&tot));
        hd.push(
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || {
                    let mut sols = None;
                    loop {
                        let j = queue.lock().unwrap().pop_front();
                        let (h, j) = match j {
                            Some(x) => x,
                            None => break,
                        };
                        if cfg.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if Instant::now() > cfg.deadline {
                            tot.lock().unwrap().truncated.push(format!("{} job {} not started", h, j));
                            continue;
                        }
                        sols = Some(run_job(&cfg, &tot, &h, j, sols.take()));
                    }
                })
                .unwrap(),
        );
    }
    let mut dead = 0;
    for h in hd {
        if h.join().is_err() {
            dead += 1;
        }
    }
    let tot = Arc::try_unwrap(tot).ok().map(|t| t.into_inner().unwrap_or_else(|e| e.into_inner())).unwrap_or_default();
    let code = finish(&cfg, &a, &prop, &tier_s, tot, planned, njobs as u64, dead, t0, only.is_some() || only_job.is_some());
    std::process::exit(code);
}

#[allow(clippy::too_many_arguments)]
fn finish(cfg: &Cfg, a: &[String], prop: &str, tier_s: &str, mut t: Total, planned: Vec<(String, u32)>, njobs: u64, dead: u32, t0: Instant, partial: bool) -> i32 {
    let known = &cfg.known;
    let mut viol = vec![];
    for (h, l, d, p) in &t.confirmed {
        if let Some(k) = known.iter().find(|k| &k.0 == h && &k.1 == l) {
            println!("KNOWN-FINDING: property={} {} [{}: {}]", prop, k.2, h, l);
        } else {
            viol.push((h.clone(), l.clone(), d.clone(), p.clone()));
        }
    }
    let mut vacuous = vec![];
    for (h, _) in &planned {
        if partial {
            break;
        }
        let reached: u64 = t.labels.iter().filter(|(k, _)| k.starts_with(&format!("{}: ", h))).map(|(_, s)| s.reached).sum();
        if reached == 0 {
            vacuous.push(h.clone());
        }
    }
    let mut sums = LabelStat::default();
    for s in t.labels.values() {
        sums.reached += s.reached;
        sums.trivially += s.trivially;
        sums.by_smt += s.by_smt;
        sums.by_real += s.by_real;
        sums.by_tol += s.by_tol;
        sums.by_fp += s.by_fp;
        sums.candidates += s.candidates;
        sums.inconclusive += s.inconclusive;
    }
    let wall = t0.elapsed().as_secs_f64();
    println!(
        "{} [{}]: {} harnesses, {} jobs, {} paths completed, {} refused as required, {} cut by assumptions; {} instructions executed symbolically, {} symbolic branches; obligations {} (identical terms {}, SMT {}, real-arithmetic SMT {}, exact-FP SMT {}); z3 queries {} in {:.1}s; {} paths replayed natively ({} values compared); wall {:.1}s",
        prop, tier_s, planned.len(), t.jobs, t.paths, t.refused, t.assume, t.instrs, t.branches, sums.reached, sums.trivially, sums.by_smt, sums.by_real, sums.by_fp,
        t.qa.queries + t.qr.queries, t.qa.time + t.qr.time, t.validated, t.val_values, wall
    );
    for u in t.unconfirmed.iter().take(30) {
        println!("INCONCLUSIVE: {}", exec::trim(u, 900));
    }
    for u in t.unsup.iter().take(20) {
        println!("UNSUPPORTED: {}", u);
    }
    for u in t.mismatches.iter().take(20) {
        println!("MISMATCH: {}", u);
    }
    for u in t.truncated.iter().take(20) {
        println!("TRUNCATED: {}", u);
    }
    if cfg.verbose {
        for (l, s) in &t.labels {
            println!("  {}: reached {} identical {} smt {} real {} (tol {}) fp {} cand {} inconcl {}", l, s.reached, s.trivially, s.by_smt, s.by_real, s.by_tol, s.by_fp, s.candidates, s.inconclusive);
        }
    }
    let mut names: Vec<String> = t
        .funcs
        .iter()
        .map(|f| {
            let f = &cfg.m.funcs[*f as usize];
            if f.pretty.is_empty() {
                f.name.clone()
            } else {
                f.pretty.clone()
            }
        })
        .filter(|n| n.contains("prima_undine"))
        .collect();
    names.sort();
    names.dedup();
    if let Some(ev) = arg(a, "--evidence") {
        let mut o = JObj::new();
        o.s("property", prop);
        o.s("tier", tier_s);
        o.n("seed", cfg.seed as f64);
        o.s("level", "model_checking");
        let mut c = JObj::new();
        c.n("states", (t.paths + t.refused) as f64);
        c.n("transitions", t.instrs as f64);
        c.n("traces_validated_against_impl", t.validated as f64);
        c.s("meaning", "states = symbolic paths explored to their end (each stands for every input satisfying its path condition); transitions = LLVM IR instructions executed symbolically; traces_validated = explored paths replayed in a native build of the same tree with the same outcome and values");
        c.n("values_compared_with_native_run", t.val_values as f64);
        c.n("paths_completed", t.paths as f64);
        c.n("paths_refused_as_required", t.refused as f64);
        c.n("paths_cut_by_assumptions", t.assume as f64);
        c.n("paths_not_finished", t.limit as f64);
        c.n("symbolic_branches", t.branches as f64);
        c.n("jobs", t.jobs as f64);
        c.n("jobs_planned", njobs as f64);
        let mut ob = JObj::new();
        ob.n("reached", sums.reached as f64);
        ob.n("syntactically_identical", sums.trivially as f64);
        ob.n("unsat_bitlevel_smt", sums.by_smt as f64);
        ob.n("unsat_real_arithmetic_smt", sums.by_real as f64);
        ob.n("of_which_with_constant_rounding_tolerance_2e-6", sums.by_tol as f64);
        ob.n("unsat_exact_fp_smt", sums.by_fp as f64);
        ob.n("candidate_violations", sums.candidates as f64);
        ob.n("inconclusive", (t.unconfirmed.len() as u64 + sums.inconclusive) as f64);
        c.o("obligations_decided", ob);
        let mut q = JObj::new();
        q.n("bitlevel_queries", t.qa.queries as f64);
        q.n("bitlevel_unsat", t.qa.unsat as f64);
        q.n("bitlevel_sat", t.qa.sat as f64);
        q.n("bitlevel_unknown", t.qa.unknown as f64);
        q.n("bitlevel_seconds", t.qa.time);
        q.n("arithmetic_queries", t.qr.queries as f64);
        q.n("arithmetic_unsat", t.qr.unsat as f64);
        q.n("arithmetic_unknown", t.qr.unknown as f64);
        q.n("arithmetic_seconds", t.qr.time);
        q.n("cached", (t.qa.cached + t.qr.cached) as f64);
        c.o("solver", q);
        c.a("functions_encoded", names.iter().take(500).cloned().collect());
        c.n("functions_encoded_count", names.len() as f64);
        let labs: Vec<String> = t.labels.iter().map(|(k, s)| format!("{} x{}", k, s.reached)).collect();
        c.a("obligations_by_label", labs);
        let per: Vec<String> = t.per_harness.iter().map(|(h, s)| format!("{}: {} jobs, {} paths, slowest job {:.1}s", h, s.0, s.1, s.2)).collect();
        c.a("harnesses", per);
        t.samples.truncate(12);
        c.a("samples", t.samples.clone());
        c.a("inconclusive", t.unconfirmed.iter().take(30).cloned().collect());
        c.a("unsupported", t.unsup.iter().take(30).cloned().collect());
        c.a("truncated", t.truncated.iter().take(30).cloned().collect());
        c.a("model_vs_native_mismatches", t.mismatches.iter().take(30).cloned().collect());
        c.b("exhaustive", false);
        if let Some(b) = arg(a, "--bounds").and_then(|f| std::fs::read_to_string(f).ok()) {
            let mut on = false;
            let mut v = vec![];
            for l in b.lines() {
                if let Some(h) = l.strip_prefix("## ") {
                    on = h.split_whitespace().next() == Some(prop);
                } else if on && l.starts_with("- ") {
                    v.push(l[2..].to_string());
                }
            }
            c.a("bounds", v);
        }
        o.o("coverage", c);
        o.a("assumptions", ASSUMPTIONS.iter().map(|s| s.to_string()).collect());
        o.n("wall_s", wall);
        o.n("violations", viol.len() as f64);
        let _ = std::fs::write(&ev, o.done() + "\n");
    }
    if !viol.is_empty() {
        for (h, l, d, p) in &viol {
            println!("violated: {} \"{}\": {}", h, l, exec::trim(d, 700));
            println!("VIOLATION property={} replay={}", prop, p);
        }
        return 1;
    }
    if t.jobs == 0 || t.paths + t.refused == 0 || !vacuous.is_empty() || (dead > 0 && t.jobs < njobs) {
        println!("ERROR: nothing decided for {} (harnesses without a reached obligation: {:?}; crashed workers: {})", prop, vacuous, dead);
        return 2;
    }
    0
}
