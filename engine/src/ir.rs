//! Parser for the textual LLVM IR that rustc emits after fat LTO.
//! Function bodies are parsed lazily, so only code that is executed has to be understood.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Vec(u32, Arc<Ty>),
    Arr(u64, Arc<Ty>),
    Struct(Vec<Arc<Ty>>, bool),
    Other,
}
pub type T = Arc<Ty>;

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                if b <= 8 {
                    b.next_power_of_two()
                } else {
                    (b + 15) / 16 * 16
                }
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, t) => {
                if let Ty::Int(1) = **t {
                    return ((*n as u64) + 7) / 8;
                }
                *n as u64 * t.size()
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                let mut al = 1;
                for f in fs {
                    if !packed {
                        let a = f.align();
                        al = al.max(a);
                        off = (off + a - 1) / a * a;
                    }
                    off += f.size();
                }
                if !packed {
                    off = (off + al - 1) / al * al;
                }
                off
            }
            Ty::Other => panic!("size of unsupported type"),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(_) => self.size().min(16),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(..) => self.size(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        off = (off + a - 1) / a * a;
                    }
                    if k == i {
                        return off;
                    }
                    off += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn field_ty(&self, i: usize) -> T {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.clone(),
            _ => panic!("field_ty"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => panic!("nfields"),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    T(u32),
    V(Arc<Vec<Val>>),
    U,
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ICmp { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FCmp { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, PtrToInt, IntToPtr, Bitcast }

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Op),
}

#[derive(Debug)]
pub enum I {
    Bin(BinOp, T, Op, Op, u32),
    FNeg(T, Op, u32),
    ICmp(ICmp, T, Op, Op, u32),
    FCmp(FCmp, T, Op, Op, u32),
    Cast(Cast, T, T, Op, u32),
    Select(T, Op, T, Op, Op, u32),
    Load(T, Op, u32),
    Store(T, Op, Op),
    Alloca(u64, u32),
    /// base, constant offset, (index operand, index bits, scale)
    Gep(Op, i64, Vec<(Op, u32, i64)>, u32),
    /// callee, args, ret type, dst, normal destination (invoke)
    Call(Callee, Vec<(T, Op)>, T, Option<u32>, Option<u32>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(T, Op, u32, Vec<(u128, u32)>),
    Ret(T, Option<Op>),
    Unreachable,
    ExtractValue(T, Op, Vec<usize>, u32),
    InsertValue(T, Op, Op, Vec<usize>, u32),
    ExtractElement(Op, Op, u32),
    InsertElement(Op, Op, Op, u32, u32),
    Shuffle(u32, Op, Op, Vec<i64>, u32),
    Freeze(T, Op, u32),
    AtomicRmw(String, T, Op, Op, u32),
    CmpXchg(T, Op, Op, Op, u32),
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>, // dst, (pred block, value)
    pub code: Vec<I>,
}

#[derive(Debug)]
pub struct Body {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub text: Option<(&'static str, &'static str)>, // header, body
    pub body: OnceLock<&'static Body>,
    pub noreturn: bool,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub text: &'static str,
    pub constant: bool,
    pub external: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<&'static str, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<&'static str, u32>,
    pub aliases: HashMap<&'static str, &'static str>,
    pub types: HashMap<&'static str, T>,
}

pub const FUNC_BASE: u64 = 0x4000_0000;
pub const GLOB_BASE: u64 = 0x3000_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    W(&'static str),   // word / number
    L(&'static str),   // %name
    G(&'static str),   // @name
    S(&'static str),   // c"..." raw contents (escaped)
    P(char),
    M,                 // metadata reference
    NL,
    End,
}

pub struct Lexer {
    s: &'static [u8],
    full: &'static str,
    pos: usize,
    depth: i32,
    peeked: Vec<Tok>,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'+' || c == b'$'
}

impl Lexer {
    pub fn new(full: &'static str) -> Lexer {
        Lexer { s: full.as_bytes(), full, pos: 0, depth: 0, peeked: vec![] }
    }
    fn lex(&mut self) -> Tok {
        loop {
            if self.pos >= self.s.len() {
                return Tok::End;
            }
            let c = self.s[self.pos];
            match c {
                b' ' | b'\t' | b'\r' => self.pos += 1,
                b'\n' => {
                    self.pos += 1;
                    if self.depth == 0 {
                        return Tok::NL;
                    }
                }
                b'/' if self.s.get(self.pos + 1) == Some(&b'*') => {
                    self.pos += 2;
                    while self.pos + 1 < self.s.len() && &self.s[self.pos..self.pos + 2] != b"*/" {
                        self.pos += 1;
                    }
                    self.pos += 2;
                }
                b';' => {
                    while self.pos < self.s.len() && self.s[self.pos] != b'\n' {
                        self.pos += 1;
                    }
                }
                b'%' | b'@' => {
                    self.pos += 1;
                    let st;
                    let en;
                    if self.s[self.pos] == b'"' {
                        self.pos += 1;
                        st = self.pos;
                        while self.s[self.pos] != b'"' {
                            self.pos += 1;
                        }
                        en = self.pos;
                        self.pos += 1;
                    } else {
                        st = self.pos;
                        while self.pos < self.s.len() && is_word(self.s[self.pos]) {
                            self.pos += 1;
                        }
                        en = self.pos;
                    }
                    let n = &self.full[st..en];
                    return if c == b'%' { Tok::L(n) } else { Tok::G(n) };
                }
                b'!' => {
                    self.pos += 1;
                    while self.pos < self.s.len() && (is_word(self.s[self.pos])) {
                        self.pos += 1;
                    }
                    return Tok::M;
                }
                b'"' => {
                    self.pos += 1;
                    let st = self.pos;
                    while self.s[self.pos] != b'"' {
                        self.pos += 1;
                    }
                    let n = &self.full[st..self.pos];
                    self.pos += 1;
                    return Tok::W(n);
                }
                b'#' => {
                    self.pos += 1;
                    while self.pos < self.s.len() && is_word(self.s[self.pos]) {
                        self.pos += 1;
                    }
                    return Tok::M;
                }
                b'(' | b'[' | b'{' => {
                    self.depth += 1;
                    self.pos += 1;
                    return Tok::P(c as char);
                }
                b')' | b']' | b'}' => {
                    self.depth -= 1;
                    self.pos += 1;
                    return Tok::P(c as char);
                }
                b'c' if self.pos + 1 < self.s.len() && self.s[self.pos + 1] == b'"' => {
                    self.pos += 2;
                    let st = self.pos;
                    while self.s[self.pos] != b'"' {
                        self.pos += 1;
                    }
                    let n = &self.full[st..self.pos];
                    self.pos += 1;
                    return Tok::S(n);
                }
                c if is_word(c) => {
                    let st = self.pos;
                    while self.pos < self.s.len() && is_word(self.s[self.pos]) {
                        self.pos += 1;
                    }
                    return Tok::W(&self.full[st..self.pos]);
                }
                _ => {
                    self.pos += 1;
                    return Tok::P(c as char);
                }
            }
        }
    }
    pub fn next(&mut self) -> Tok {
        if let Some(t) = self.peeked.pop() {
            return t;
        }
        self.lex()
    }
    pub fn peek(&mut self) -> Tok {
        if self.peeked.is_empty() {
            let t = self.lex();
            self.peeked.push(t);
        }
        self.peeked[self.peeked.len() - 1].clone()
    }
    pub fn unread(&mut self, t: Tok) {
        self.peeked.push(t);
    }
    pub fn eat(&mut self, t: &Tok) -> bool {
        if &self.peek() == t {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eatp(&mut self, c: char) -> bool {
        self.eat(&Tok::P(c))
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if let Tok::W(x) = self.peek() {
            if x == w {
                self.next();
                return true;
            }
        }
        false
    }
    pub fn expectp(&mut self, c: char) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!("expected '{}' got {:?}", c, t);
        }
    }
    pub fn skip_parens(&mut self) {
        // assumes next is '('
        self.expectp('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::End => panic!("eof in parens"),
                _ => {}
            }
        }
    }
    pub fn skip_line(&mut self) {
        loop {
            match self.next() {
                Tok::NL | Tok::End => return,
                _ => {}
            }
        }
    }
}

fn int_ty(w: &str) -> Option<u32> {
    if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) {
        w[1..].parse().ok()
    } else {
        None
    }
}

fn parse_float(s: &str, is_f32: bool) -> u128 {
    let d: f64;
    if let Some(h) = s.strip_prefix("f0x") {
        // bit pattern in the type's own width
        return u128::from_str_radix(h, 16).unwrap();
    }
    if let Some(h) = s.strip_prefix("0x") {
        let bits = u64::from_str_radix(h, 16).unwrap();
        d = f64::from_bits(bits);
    } else {
        match s {
            "+inf" | "inf" => d = f64::INFINITY,
            "-inf" => d = f64::NEG_INFINITY,
            "+qnan" | "nan" | "+nan" | "qnan" => {
                return if is_f32 { 0x7fc00000 } else { 0x7ff8000000000000 };
            }
            "-qnan" | "-nan" => {
                return if is_f32 { 0xffc00000 } else { 0xfff8000000000000 };
            }
            _ => d = s.parse().unwrap_or_else(|_| panic!("bad float {}", s)),
        }
    }
    if is_f32 {
        (d as f32).to_bits() as u128
    } else {
        d.to_bits() as u128
    }
}

pub fn mask(bits: u32) -> u128 {
    if bits >= 128 {
        !0
    } else {
        (1u128 << bits) - 1
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

pub fn zero_of(t: &Ty) -> Val {
    match t {
        Ty::Vec(n, e) => Val::V(Arc::new(vec![zero_of(e); *n as usize])),
        Ty::Arr(n, e) => Val::V(Arc::new(vec![zero_of(e); *n as usize])),
        Ty::Struct(fs, _) => Val::V(Arc::new(fs.iter().map(|f| zero_of(f)).collect())),
        _ => Val::C(0),
    }
}
pub fn undef_of(t: &Ty) -> Val {
    match t {
        Ty::Vec(n, e) => Val::V(Arc::new(vec![undef_of(e); *n as usize])),
        Ty::Arr(n, e) => Val::V(Arc::new(vec![undef_of(e); *n as usize])),
        Ty::Struct(fs, _) => Val::V(Arc::new(fs.iter().map(|f| undef_of(f)).collect())),
        _ => Val::U,
    }
}

const CASTS: &[(&str, Cast)] = &[
    ("trunc", Cast::Trunc), ("zext", Cast::ZExt), ("sext", Cast::SExt), ("fptrunc", Cast::FpTrunc),
    ("fpext", Cast::FpExt), ("fptoui", Cast::FpToUi), ("fptosi", Cast::FpToSi), ("uitofp", Cast::UiToFp),
    ("sitofp", Cast::SiToFp), ("ptrtoint", Cast::PtrToInt), ("inttoptr", Cast::IntToPtr), ("bitcast", Cast::Bitcast),
    ("ptrtoaddr", Cast::PtrToInt),
];
const BINS: &[(&str, BinOp)] = &[
    ("add", BinOp::Add), ("sub", BinOp::Sub), ("mul", BinOp::Mul), ("udiv", BinOp::UDiv), ("sdiv", BinOp::SDiv),
    ("urem", BinOp::URem), ("srem", BinOp::SRem), ("shl", BinOp::Shl), ("lshr", BinOp::LShr), ("ashr", BinOp::AShr),
    ("and", BinOp::And), ("or", BinOp::Or), ("xor", BinOp::Xor), ("fadd", BinOp::FAdd), ("fsub", BinOp::FSub),
    ("fmul", BinOp::FMul), ("fdiv", BinOp::FDiv), ("frem", BinOp::FRem),
];

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e));
        let text: &'static str = Box::leak(text.into_boxed_str());
        let mut m = Module {
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
        };
        let mut pos = 0;
        let mut last_comment: &'static str = "";
        let mut gtexts: Vec<(&'static str, &'static str)> = vec![];
        while pos < text.len() {
            let e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(text.len());
            let line: &'static str = &text[pos..e];
            if line.starts_with("; ") {
                if !line.starts_with("; Function Attrs") {
                    last_comment = &line[2..];
                }
            } else if line.starts_with('@') {
                let mut lx = Lexer::new(line);
                if let Tok::G(n) = lx.next() {
                    gtexts.push((n, line));
                }
            } else if line.starts_with('%') {
                panic!("named types not supported: {}", line);
            } else if line.starts_with("define") || line.starts_with("declare") {
                let at = line.find('@').unwrap();
                let mut lx = Lexer::new(&line[at..]);
                let name = match lx.next() {
                    Tok::G(n) => n,
                    _ => panic!(),
                };
                let id = m.funcs.len() as u32;
                m.fidx.insert(name, id);
                if line.starts_with("define") {
                    let be = text[e..].find("\n}").map(|x| e + x + 1).unwrap();
                    m.funcs.push(Func {
                        name: name.to_string(),
                        pretty: last_comment.to_string(),
                        text: Some((line, &text[e + 1..be])),
                        body: OnceLock::new(),
                        noreturn: false,
                    });
                    last_comment = "";
                    pos = be + 1;
                    continue;
                } else {
                    m.funcs.push(Func { name: name.to_string(), pretty: String::new(), text: None, body: OnceLock::new(), noreturn: false });
                }
                last_comment = "";
            }
            pos = e + 1;
        }
        for (n, line) in gtexts {
            let mut lx = Lexer::new(line);
            lx.next();
            lx.expectp('=');
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match lx.next() {
                    Tok::W("constant") => {
                        constant = true;
                        break;
                    }
                    Tok::W("global") => break,
                    Tok::W("external") | Tok::W("extern_weak") => external = true,
                    Tok::W("alias") => {
                        alias = true;
                        break;
                    }
                    Tok::P('(') => {
                        lx.unread(Tok::P('('));
                        lx.skip_parens();
                    }
                    Tok::W(_) => {}
                    t => panic!("global {}: {:?}", line, t),
                }
            }
            if alias {
                // alias <ty>, ptr @target
                loop {
                    match lx.next() {
                        Tok::G(t) => {
                            m.aliases.insert(n, t);
                            break;
                        }
                        Tok::End => break,
                        _ => {}
                    }
                }
                continue;
            }
            let ty = m.ty(&mut lx);
            let id = m.globals.len() as u32;
            m.gidx.insert(n, id);
            m.globals.push(Global { name: n.to_string(), size: ty.size(), text: line, constant, external });
        }
        m
    }

    pub fn addr_of(&self, name: &str) -> u64 {
        let mut n = name;
        while let Some(a) = self.aliases.get(n) {
            n = a;
        }
        if let Some(f) = self.fidx.get(n) {
            return (FUNC_BASE + *f as u64) << 32;
        }
        if let Some(g) = self.gidx.get(n) {
            return (GLOB_BASE + *g as u64) << 32;
        }
        panic!("unknown symbol @{}", name)
    }

    pub fn func_at(&self, addr: u64) -> Option<u32> {
        let k = (addr >> 32).checked_sub(FUNC_BASE)?;
        if (addr & 0xffff_ffff) == 0 && (k as usize) < self.funcs.len() {
            Some(k as u32)
        } else {
            None
        }
    }

    pub fn global_init(&self, gid: u32) -> Option<(T, Val)> {
        let g = &self.globals[gid as usize];
        if g.external {
            return None;
        }
        let mut lx = Lexer::new(g.text);
        loop {
            match lx.next() {
                Tok::W("constant") | Tok::W("global") => break,
                Tok::End => panic!(),
                _ => {}
            }
        }
        let ty = self.ty(&mut lx);
        let v = self.constant(&mut lx, &ty);
        Some((ty, v))
    }

    pub fn ty(&self, lx: &mut Lexer) -> T {
        let t = match lx.next() {
            Tok::W("void") => Ty::Void,
            Tok::W("float") => Ty::F32,
            Tok::W("double") => Ty::F64,
            Tok::W("ptr") => Ty::Ptr,
            Tok::W("half") | Tok::W("fp128") | Tok::W("bfloat") | Tok::W("x86_fp80") | Tok::W("metadata") | Tok::W("token") | Tok::W("label") => Ty::Other,
            Tok::W(w) => match int_ty(w) {
                Some(n) => Ty::Int(n),
                None => panic!("type? {}", w),
            },
            Tok::P('<') => {
                if lx.eatp('{') {
                    let mut fs = vec![];
                    while !lx.eatp('}') {
                        fs.push(self.ty(lx));
                        lx.eatp(',');
                    }
                    lx.expectp('>');
                    Ty::Struct(fs, true)
                } else {
                    let n = match lx.next() {
                        Tok::W(w) => w.parse().unwrap(),
                        t => panic!("{:?}", t),
                    };
                    if !lx.eatw("x") {
                        panic!("vec type");
                    }
                    let e = self.ty(lx);
                    lx.expectp('>');
                    Ty::Vec(n, e)
                }
            }
            Tok::P('[') => {
                let n = match lx.next() {
                    Tok::W(w) => w.parse().unwrap(),
                    t => panic!("{:?}", t),
                };
                if !lx.eatw("x") {
                    panic!("arr type");
                }
                let e = self.ty(lx);
                lx.expectp(']');
                Ty::Arr(n, e)
            }
            Tok::P('{') => {
                let mut fs = vec![];
                while !lx.eatp('}') {
                    fs.push(self.ty(lx));
                    lx.eatp(',');
                }
                Ty::Struct(fs, false)
            }
            t => panic!("type? {:?}", t),
        };
        Arc::new(t)
    }

    fn is_ty_start(t: &Tok) -> bool {
        match t {
            Tok::W(w) => matches!(*w, "void" | "float" | "double" | "ptr" | "half" | "fp128" | "metadata" | "token" | "label" | "bfloat" | "x86_fp80") || int_ty(w).is_some(),
            Tok::P('<') | Tok::P('[') | Tok::P('{') => true,
            _ => false,
        }
    }

    /// Skips attribute words until a type starts.
    fn skip_to_ty(&self, lx: &mut Lexer) {
        loop {
            let t = lx.peek();
            if Self::is_ty_start(&t) {
                return;
            }
            match t {
                Tok::W(_) => {
                    lx.next();
                    if lx.peek() == Tok::P('(') {
                        lx.skip_parens();
                    }
                }
                _ => panic!("skip_to_ty {:?}", t),
            }
        }
    }

    fn skip_arg_attrs(&self, lx: &mut Lexer) {
        loop {
            match lx.peek() {
                Tok::W(w) => {
                    if w == "align" {
                        lx.next();
                        if lx.peek() == Tok::P('(') {
                            lx.skip_parens();
                        } else {
                            lx.next();
                        }
                        continue;
                    }
                    if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "blockaddress" | "dso_local_equivalent" | "asm")
                        || CASTS.iter().any(|c| c.0 == w)
                        || BINS.iter().any(|c| c.0 == w)
                    {
                        return;
                    }
                    let b = w.as_bytes()[0];
                    if b.is_ascii_digit() || b == b'-' || b == b'+' || w.starts_with("f0x") {
                        return;
                    }
                    lx.next();
                    if lx.peek() == Tok::P('(') {
                        lx.skip_parens();
                    }
                }
                _ => return,
            }
        }
    }

    /// A constant of the given type (no registers).
    pub fn constant(&self, lx: &mut Lexer, ty: &T) -> Val {
        match lx.next() {
            Tok::W("true") => Val::C(1),
            Tok::W("false") => Val::C(0),
            Tok::W("null") | Tok::W("none") => Val::C(0),
            Tok::W("zeroinitializer") => zero_of(ty),
            Tok::W("undef") | Tok::W("poison") => undef_of(ty),
            Tok::W("splat") => {
                lx.expectp('(');
                let et = self.ty(lx);
                let v = self.constant(lx, &et);
                lx.expectp(')');
                let n = ty.nfields();
                Val::V(Arc::new(vec![v; n]))
            }
            Tok::W("getelementptr") => {
                // constant expression
                while let Tok::W(_) = lx.peek() {
                    lx.next();
                    if lx.peek() == Tok::P('(') {
                        // `inrange(...)` or the argument list
                        break;
                    }
                }
                if lx.peek() != Tok::P('(') {
                    panic!("gep constexpr");
                }
                lx.expectp('(');
                // may have been inrange(a, b)
                if let Tok::W(w) = lx.peek() {
                    if w.starts_with('-') || w.as_bytes()[0].is_ascii_digit() {
                        while !lx.eatp(')') {
                            lx.next();
                        }
                        lx.expectp('(');
                    }
                }
                let bt = self.ty(lx);
                lx.expectp(',');
                let pt = self.ty(lx);
                let base = self.constant(lx, &pt);
                let mut off = 0i64;
                let mut cur = bt.clone();
                let mut first = true;
                while lx.eatp(',') {
                    let it = self.ty(lx);
                    let v = self.constant(lx, &it);
                    let k = match v {
                        Val::C(c) => sext(c, it.bits()) as i64,
                        _ => panic!(),
                    };
                    if first {
                        off += k * bt.size() as i64;
                        first = false;
                    } else {
                        let nt = cur.field_ty(k as usize);
                        off += match &*cur {
                            Ty::Struct(..) => cur.field_off(k as usize) as i64,
                            _ => k * nt.size() as i64,
                        };
                        cur = nt;
                    }
                }
                lx.expectp(')');
                match base {
                    Val::C(c) => Val::C((c as u64).wrapping_add(off as u64) as u128),
                    _ => panic!("gep base"),
                }
            }
            Tok::W(w) if CASTS.iter().any(|c| c.0 == w) => {
                while lx.peek() != Tok::P('(') {
                    lx.next();
                }
                lx.expectp('(');
                let ft = self.ty(lx);
                let v = self.constant(lx, &ft);
                lx.eatw("to");
                let tt = self.ty(lx);
                lx.expectp(')');
                match v {
                    Val::C(c) => Val::C(match &*tt {
                        Ty::Int(n) => c & mask(*n),
                        _ => c,
                    }),
                    o => o,
                }
            }
            Tok::W(w) if BINS.iter().any(|c| c.0 == w) => {
                while lx.peek() != Tok::P('(') {
                    lx.next();
                }
                lx.expectp('(');
                let t1 = self.ty(lx);
                let a = self.constant(lx, &t1);
                lx.expectp(',');
                let t2 = self.ty(lx);
                let b = self.constant(lx, &t2);
                lx.expectp(')');
                let (a, b) = match (a, b) {
                    (Val::C(a), Val::C(b)) => (a, b),
                    _ => panic!("const bin"),
                };
                let r = match w {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "xor" => a ^ b,
                    "mul" => a.wrapping_mul(b),
                    _ => panic!("const bin {}", w),
                };
                Val::C(r & mask(t1.bits()))
            }
            Tok::W(w) => match &**ty {
                Ty::Int(n) => {
                    let v: u128 = if let Some(h) = w.strip_prefix('-') {
                        (h.parse::<u128>().unwrap() as i128).wrapping_neg() as u128
                    } else if let Some(h) = w.strip_prefix("u0x") {
                        u128::from_str_radix(h, 16).unwrap()
                    } else if let Some(h) = w.strip_prefix("s0x") {
                        u128::from_str_radix(h, 16).unwrap()
                    } else {
                        w.parse::<u128>().unwrap_or_else(|_| panic!("int {}", w))
                    };
                    Val::C(v & mask(*n))
                }
                Ty::F32 => Val::C(parse_float(w, true)),
                Ty::F64 => Val::C(parse_float(w, false)),
                _ => panic!("constant {} of type {:?}", w, ty),
            },
            Tok::S(s) => Val::V(Arc::new(unescape(s).into_iter().map(|b| Val::C(b as u128)).collect())),
            Tok::G(n) => Val::C(self.addr_of(n) as u128),
            Tok::P('<') => {
                let packed = lx.eatp('{');
                let mut vs = vec![];
                let end = if packed { '}' } else { '>' };
                while !lx.eatp(end) {
                    let et = self.ty(lx);
                    vs.push(self.constant(lx, &et));
                    lx.eatp(',');
                }
                if packed {
                    lx.expectp('>');
                }
                Val::V(Arc::new(vs))
            }
            Tok::P(c @ ('[' | '{')) => {
                let end = if c == '[' { ']' } else { '}' };
                let mut vs = vec![];
                while !lx.eatp(end) {
                    let et = self.ty(lx);
                    vs.push(self.constant(lx, &et));
                    lx.eatp(',');
                }
                Val::V(Arc::new(vs))
            }
            t => panic!("constant? {:?}", t),
        }
    }

    pub fn body(&self, f: u32) -> &'static Body {
        let func = &self.funcs[f as usize];
        func.body
            .get_or_init(|| {
                let (head, body) = func.text.expect("body of declaration");
                &*Box::leak(Box::new(BodyParser::new(self).parse(head, body)))
            })
    }
}

pub fn sext(v: u128, bits: u32) -> i128 {
    if bits >= 128 {
        return v as i128;
    }
    let sh = 128 - bits;
    ((v << sh) as i128) >> sh
}

struct BodyParser<'m> {
    m: &'m Module,
    regs: HashMap<&'static str, u32>,
    labels: HashMap<&'static str, u32>,
}

impl<'m> BodyParser<'m> {
    fn new(m: &'m Module) -> Self {
        BodyParser { m, regs: HashMap::new(), labels: HashMap::new() }
    }
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, n: &'static str) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
    fn operand(&mut self, lx: &mut Lexer, ty: &T) -> Op {
        if let Tok::L(n) = lx.peek() {
            lx.next();
            return Op::R(self.reg(n));
        }
        Op::K(self.m.constant(lx, ty))
    }
    fn tyop(&mut self, lx: &mut Lexer) -> (T, Op) {
        let t = self.m.ty(lx);
        self.m.skip_arg_attrs(lx);
        let o = self.operand(lx, &t);
        (t, o)
    }
    fn lab(&mut self, lx: &mut Lexer) -> u32 {
        if !lx.eatw("label") {
            panic!("label expected");
        }
        match lx.next() {
            Tok::L(n) => self.label(n),
            t => panic!("{:?}", t),
        }
    }

    fn parse(mut self, head: &'static str, body: &'static str) -> Body {
        // parameters
        let at = head.find('@').unwrap();
        let mut lx = Lexer::new(&head[at..]);
        lx.next();
        lx.expectp('(');
        let mut params = vec![];
        let mut anon = 0usize;
        while !lx.eatp(')') {
            if lx.eatp(',') {
                continue;
            }
            if lx.eatp('.') {
                continue;
            }
            if let Tok::W("...") = lx.peek() {
                lx.next();
                continue;
            }
            let _t = self.m.ty(&mut lx);
            // skip attributes
            loop {
                match lx.peek() {
                    Tok::W(w) => {
                        lx.next();
                        if w == "align" && lx.peek() != Tok::P('(') {
                            lx.next();
                        } else if lx.peek() == Tok::P('(') {
                            lx.skip_parens();
                        }
                    }
                    _ => break,
                }
            }
            let n: &'static str = match lx.peek() {
                Tok::L(n) => {
                    lx.next();
                    n
                }
                _ => Box::leak(format!("{}", anon).into_boxed_str()),
            };
            if n.parse::<u64>().is_ok() {
                anon += 1;
            }
            let r = self.reg(n);
            params.push(r);
        }
        // entry label
        let mut lx = Lexer::new(body);
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut cur: Option<u32> = None;
        loop {
            let t = lx.next();
            match t {
                Tok::NL => continue,
                Tok::End => break,
                Tok::W(w) => {
                    if lx.peek() == Tok::P(':') {
                        lx.next();
                        let l = self.label(w);
                        cur = Some(l);
                        blocks.insert(l, Block { phis: vec![], code: vec![] });
                        continue;
                    }
                    lx.unread(Tok::W(w));
                }
                t => lx.unread(t),
            }
            if cur.is_none() {
                // implicit entry block: its name is the next unnamed number
                let n: &'static str = Box::leak(format!("{}", anon).into_boxed_str());
                let l = self.label(n);
                cur = Some(l);
                blocks.insert(l, Block { phis: vec![], code: vec![] });
            }
            let l = cur.unwrap();
            let mut dst = None;
            if let Tok::L(n) = lx.peek() {
                lx.next();
                lx.expectp('=');
                dst = Some(self.reg(n));
            }
            let opc = match lx.next() {
                Tok::W(w) => w,
                t => panic!("opcode? {:?}", t),
            };
            if opc == "phi" {
                while let Tok::W(w) = lx.peek() {
                    if Module::is_ty_start(&Tok::W(w)) {
                        break;
                    }
                    lx.next();
                }
                let ty = self.m.ty(&mut lx);
                let mut ins = vec![];
                loop {
                    if !lx.eatp('[') {
                        break;
                    }
                    let o = self.operand(&mut lx, &ty);
                    lx.expectp(',');
                    let pl = match lx.next() {
                        Tok::L(n) => self.label(n),
                        t => panic!("{:?}", t),
                    };
                    lx.expectp(']');
                    ins.push((pl, o));
                    if !lx.eatp(',') {
                        break;
                    }
                    if lx.peek() == Tok::M {
                        break;
                    }
                }
                lx.skip_line();
                blocks.get_mut(&l).unwrap().phis.push((dst.unwrap(), ins));
                continue;
            }
            let ins = self.instr(&mut lx, opc, dst);
            blocks.get_mut(&l).unwrap().code.push(ins);
        }
        // the first block parsed must be label 0: labels are numbered by first mention, and the entry
        // block is mentioned first because it starts the body.
        let n = self.labels.len();
        let mut out = Vec::with_capacity(n);
        for i in 0..n as u32 {
            out.push(blocks.remove(&i).unwrap_or(Block { phis: vec![], code: vec![I::Unsupported("missing block".into())] }));
        }
        Body { nregs: self.regs.len() as u32, params, blocks: out }
    }

    fn skip_flags(&mut self, lx: &mut Lexer) {
        while let Tok::W(w) = lx.peek() {
            if Module::is_ty_start(&Tok::W(w)) {
                break;
            }
            lx.next();
            if lx.peek() == Tok::P('(') {
                lx.skip_parens();
            }
        }
    }

    fn instr(&mut self, lx: &mut Lexer, opc: &'static str, dst: Option<u32>) -> I {
        if let Some((_, b)) = BINS.iter().find(|b| b.0 == opc) {
            self.skip_flags(lx);
            let t = self.m.ty(lx);
            let a = self.operand(lx, &t);
            lx.expectp(',');
            let c = self.operand(lx, &t);
            lx.skip_line();
            return I::Bin(*b, t, a, c, dst.unwrap());
        }
        if let Some((_, c)) = CASTS.iter().find(|b| b.0 == opc) {
            self.skip_flags(lx);
            let (t, a) = self.tyop(lx);
            if !lx.eatw("to") {
                panic!("cast to");
            }
            let t2 = self.m.ty(lx);
            lx.skip_line();
            return I::Cast(*c, t, t2, a, dst.unwrap());
        }
        match opc {
            "fneg" => {
                self.skip_flags(lx);
                let t = self.m.ty(lx);
                let a = self.operand(lx, &t);
                lx.skip_line();
                I::FNeg(t, a, dst.unwrap())
            }
            "icmp" => {
                let mut p = match lx.next() {
                    Tok::W(w) => w,
                    t => panic!("{:?}", t),
                };
                if p == "samesign" {
                    p = match lx.next() {
                        Tok::W(w) => w,
                        t => panic!("{:?}", t),
                    };
                }
                let pr = match p {
                    "eq" => ICmp::Eq, "ne" => ICmp::Ne, "ugt" => ICmp::Ugt, "uge" => ICmp::Uge, "ult" => ICmp::Ult,
                    "ule" => ICmp::Ule, "sgt" => ICmp::Sgt, "sge" => ICmp::Sge, "slt" => ICmp::Slt, "sle" => ICmp::Sle,
                    _ => panic!("icmp {}", p),
                };
                let t = self.m.ty(lx);
                let a = self.operand(lx, &t);
                lx.expectp(',');
                let b = self.operand(lx, &t);
                lx.skip_line();
                I::ICmp(pr, t, a, b, dst.unwrap())
            }
            "fcmp" => {
                let mut pr = None;
                while pr.is_none() {
                    let p = match lx.next() {
                        Tok::W(w) => w,
                        t => panic!("{:?}", t),
                    };
                    pr = Some(match p {
                        "false" => FCmp::False, "oeq" => FCmp::Oeq, "ogt" => FCmp::Ogt, "oge" => FCmp::Oge, "olt" => FCmp::Olt,
                        "ole" => FCmp::Ole, "one" => FCmp::One, "ord" => FCmp::Ord, "ueq" => FCmp::Ueq, "ugt" => FCmp::Ugt,
                        "uge" => FCmp::Uge, "ult" => FCmp::Ult, "ule" => FCmp::Ule, "une" => FCmp::Une, "uno" => FCmp::Uno,
                        "true" => FCmp::True,
                        _ => continue,
                    });
                }
                let t = self.m.ty(lx);
                let a = self.operand(lx, &t);
                lx.expectp(',');
                let b = self.operand(lx, &t);
                lx.skip_line();
                I::FCmp(pr.unwrap(), t, a, b, dst.unwrap())
            }
            "select" => {
                self.skip_flags(lx);
                let (ct, c) = self.tyop(lx);
                lx.expectp(',');
                let (t, a) = self.tyop(lx);
                lx.expectp(',');
                let (_, b) = self.tyop(lx);
                lx.skip_line();
                I::Select(ct, c, t, a, b, dst.unwrap())
            }
            "load" => {
                while lx.eatw("volatile") || lx.eatw("atomic") {}
                let t = self.m.ty(lx);
                lx.expectp(',');
                let (_, p) = self.tyop(lx);
                lx.skip_line();
                I::Load(t, p, dst.unwrap())
            }
            "store" => {
                while lx.eatw("volatile") || lx.eatw("atomic") {}
                let (t, v) = self.tyop(lx);
                lx.expectp(',');
                let (_, p) = self.tyop(lx);
                lx.skip_line();
                I::Store(t, v, p)
            }
            "alloca" => {
                let t = self.m.ty(lx);
                let mut n = 1u64;
                if lx.eatp(',') {
                    if let Tok::W(w) = lx.peek() {
                        if w != "align" {
                            let (_, o) = self.tyop(lx);
                            match o {
                                Op::K(Val::C(c)) => n = c as u64,
                                _ => panic!("dynamic alloca"),
                            }
                        }
                    }
                }
                lx.skip_line();
                I::Alloca(t.size() * n, dst.unwrap())
            }
            "getelementptr" => {
                self.skip_flags(lx);
                let bt = self.m.ty(lx);
                lx.expectp(',');
                let (_, base) = self.tyop(lx);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while lx.eatp(',') {
                    if lx.peek() == Tok::M {
                        break;
                    }
                    let (it, o) = self.tyop(lx);
                    let scale;
                    if first {
                        scale = bt.size() as i64;
                        first = false;
                    } else if let Ty::Struct(..) = &*cur {
                        let k = match &o {
                            Op::K(Val::C(c)) => *c as usize,
                            _ => panic!("struct idx"),
                        };
                        off += cur.field_off(k) as i64;
                        cur = cur.field_ty(k);
                        continue;
                    } else {
                        let nt = cur.field_ty(0);
                        scale = nt.size() as i64;
                        cur = nt;
                    }
                    match &o {
                        Op::K(Val::C(c)) => off = off.wrapping_add((sext(*c, it.bits()) as i64).wrapping_mul(scale)),
                        _ => idx.push((o, it.bits(), scale)),
                    }
                }
                lx.skip_line();
                I::Gep(base, off, idx, dst.unwrap())
            }
            "tail" | "musttail" | "notail" => {
                lx.eatw("call");
                self.call(lx, dst, false)
            }
            "call" => self.call(lx, dst, false),
            "invoke" => self.call(lx, dst, true),
            "br" => {
                if let Tok::W("label") = lx.peek() {
                    let l = self.lab(lx);
                    lx.skip_line();
                    return I::Br(l);
                }
                let (_, c) = self.tyop(lx);
                lx.expectp(',');
                let a = self.lab(lx);
                lx.expectp(',');
                let b = self.lab(lx);
                lx.skip_line();
                I::CondBr(c, a, b)
            }
            "switch" => {
                let (t, v) = self.tyop(lx);
                lx.expectp(',');
                let d = self.lab(lx);
                lx.expectp('[');
                let mut cs = vec![];
                while !lx.eatp(']') {
                    let ct = self.m.ty(lx);
                    let k = match self.m.constant(lx, &ct) {
                        Val::C(c) => c,
                        _ => panic!(),
                    };
                    lx.expectp(',');
                    let l = self.lab(lx);
                    cs.push((k, l));
                }
                lx.skip_line();
                I::Switch(t, v, d, cs)
            }
            "ret" => {
                let t = self.m.ty(lx);
                if *t == Ty::Void {
                    lx.skip_line();
                    return I::Ret(t, None);
                }
                let o = self.operand(lx, &t);
                lx.skip_line();
                I::Ret(t, Some(o))
            }
            "unreachable" => {
                lx.skip_line();
                I::Unreachable
            }
            "extractvalue" => {
                let (t, v) = self.tyop(lx);
                let mut ix = vec![];
                while lx.eatp(',') {
                    match lx.peek() {
                        Tok::W(w) => {
                            lx.next();
                            ix.push(w.parse().unwrap());
                        }
                        _ => break,
                    }
                }
                lx.skip_line();
                I::ExtractValue(t, v, ix, dst.unwrap())
            }
            "insertvalue" => {
                let (t, v) = self.tyop(lx);
                lx.expectp(',');
                let (_, e) = self.tyop(lx);
                let mut ix = vec![];
                while lx.eatp(',') {
                    match lx.peek() {
                        Tok::W(w) => {
                            lx.next();
                            ix.push(w.parse().unwrap());
                        }
                        _ => break,
                    }
                }
                lx.skip_line();
                I::InsertValue(t, v, e, ix, dst.unwrap())
            }
            "extractelement" => {
                let (_, v) = self.tyop(lx);
                lx.expectp(',');
                let (_, i) = self.tyop(lx);
                lx.skip_line();
                I::ExtractElement(v, i, dst.unwrap())
            }
            "insertelement" => {
                let (t, v) = self.tyop(lx);
                lx.expectp(',');
                let (_, e) = self.tyop(lx);
                lx.expectp(',');
                let (_, i) = self.tyop(lx);
                lx.skip_line();
                I::InsertElement(v, e, i, t.nfields() as u32, dst.unwrap())
            }
            "shufflevector" => {
                let (t, a) = self.tyop(lx);
                lx.expectp(',');
                let (_, b) = self.tyop(lx);
                lx.expectp(',');
                let mt = self.m.ty(lx);
                let mv = self.m.constant(lx, &mt);
                lx.skip_line();
                let m = match mv {
                    Val::V(v) => v
                        .iter()
                        .map(|x| match x {
                            Val::C(c) => *c as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => panic!("mask"),
                };
                I::Shuffle(t.nfields() as u32, a, b, m, dst.unwrap())
            }
            "freeze" => {
                let (t, v) = self.tyop(lx);
                lx.skip_line();
                I::Freeze(t, v, dst.unwrap())
            }
            "atomicrmw" => {
                lx.eatw("volatile");
                let op = match lx.next() {
                    Tok::W(w) => w.to_string(),
                    t => panic!("{:?}", t),
                };
                let (_, p) = self.tyop(lx);
                lx.expectp(',');
                let (t, v) = self.tyop(lx);
                lx.skip_line();
                I::AtomicRmw(op, t, p, v, dst.unwrap_or(u32::MAX))
            }
            "cmpxchg" => {
                while lx.eatw("volatile") || lx.eatw("weak") {}
                let (_, p) = self.tyop(lx);
                lx.expectp(',');
                let (t, c) = self.tyop(lx);
                lx.expectp(',');
                let (_, n) = self.tyop(lx);
                lx.skip_line();
                I::CmpXchg(t, p, c, n, dst.unwrap_or(u32::MAX))
            }
            "fence" => {
                lx.skip_line();
                I::Nop
            }
            "landingpad" | "resume" => {
                lx.skip_line();
                loop {
                    match lx.peek() {
                        Tok::W("cleanup") | Tok::W("catch") | Tok::W("filter") => lx.skip_line(),
                        _ => break,
                    }
                }
                I::Unsupported(opc.to_string())
            }
            _ => {
                lx.skip_line();
                I::Unsupported(opc.to_string())
            }
        }
    }

    fn call(&mut self, lx: &mut Lexer, dst: Option<u32>, invoke: bool) -> I {
        self.m.skip_to_ty(lx);
        let rt = self.m.ty(lx);
        if lx.peek() == Tok::P('(') {
            lx.skip_parens(); // function type of a varargs callee
        }
        let callee = match lx.next() {
            Tok::G(n) => {
                let a = self.m.addr_of(n);
                Callee::Direct(((a >> 32) - FUNC_BASE) as u32)
            }
            Tok::L(n) => Callee::Indirect(Op::R(self.reg(n))),
            Tok::W("asm") => {
                lx.skip_line();
                return if rt == Arc::new(Ty::Void) || dst.is_none() { I::Nop } else { I::Unsupported("asm with result".into()) };
            }
            Tok::W(w) => {
                lx.unread(Tok::W(w));
                let t: T = Arc::new(Ty::Ptr);
                Callee::Indirect(Op::K(self.m.constant(lx, &t)))
            }
            t => panic!("callee {:?}", t),
        };
        lx.expectp('(');
        let mut args = vec![];
        while !lx.eatp(')') {
            if lx.eatp(',') {
                continue;
            }
            let t = self.m.ty(lx);
            if *t == Ty::Other {
                // metadata argument: skip to the next comma at depth 0
                let mut d = 0;
                loop {
                    match lx.peek() {
                        Tok::P('(') => {
                            d += 1;
                            lx.next();
                        }
                        Tok::P(')') if d == 0 => break,
                        Tok::P(')') => {
                            d -= 1;
                            lx.next();
                        }
                        Tok::P(',') if d == 0 => break,
                        _ => {
                            lx.next();
                        }
                    }
                }
                continue;
            }
            self.m.skip_arg_attrs(lx);
            let o = self.operand(lx, &t);
            args.push((t, o));
        }
        let mut normal = None;
        if invoke {
            // attributes, then newline, then `to label %x unwind label %y`
            loop {
                match lx.next() {
                    Tok::W("to") => break,
                    Tok::End => panic!("invoke"),
                    _ => {}
                }
            }
            normal = Some(self.lab(lx));
        }
        lx.skip_line();
        I::Call(callee, args, rt, dst, normal)
    }
}
