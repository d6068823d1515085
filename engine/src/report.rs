//! Minimal JSON writer for the evidence files.
pub struct Obj {
    s: String,
    first: bool,
}
pub fn esc(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl Obj {
    pub fn new() -> Obj {
        Obj { s: "{".into(), first: true }
    }
    fn k(&mut self, k: &str) {
        if !self.first {
            self.s.push(',');
        }
        self.first = false;
        self.s.push_str(&esc(k));
        self.s.push(':');
    }
    pub fn s(&mut self, k: &str, v: &str) {
        self.k(k);
        self.s.push_str(&esc(v));
    }
    pub fn n(&mut self, k: &str, v: f64) {
        self.k(k);
        if v == v.trunc() && v.abs() < 1e15 {
            self.s.push_str(&format!("{}", v as i64));
        } else {
            self.s.push_str(&format!("{:.3}", v));
        }
    }
    pub fn b(&mut self, k: &str, v: bool) {
        self.k(k);
        self.s.push_str(if v { "true" } else { "false" });
    }
    pub fn o(&mut self, k: &str, v: Obj) {
        self.k(k);
        let d = v.done();
        self.s.push_str(&d);
    }
    pub fn a(&mut self, k: &str, v: Vec<String>) {
        self.k(k);
        self.s.push('[');
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.s.push(',');
            }
            self.s.push_str(&esc(x));
        }
        self.s.push(']');
    }
    pub fn done(&self) -> String {
        format!("{}}}", self.s)
    }
}

pub const ASSUMPTIONS: &[&str] = &[
    "LLVM IR of the release build (opt-level 1, whole-program LTO, vectorization off) of the current /repo tree; rustc/LLVM code generation below IR is trusted",
    "values of numeric obligations are compared in real arithmetic (f32 rounding is not modelled; constants within 2e-6 relative); comparisons and data movement are bit-exact",
    "outside C15 computed floats that are compared are assumed not to be NaN (no overflow to infinity inside a computation)",
    "single-threaded execution except where a harness says otherwise; heap addresses and hash keys are fixed; allocations above 64 MB fail",
    "a claim holds only for the bounds listed; nothing is claimed beyond them",
];
