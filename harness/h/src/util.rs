//! Shared helpers: symbolic tensors, shapes, reference index arithmetic.
use crate::vx;
pub use prima_undine::devices::Naive;
pub use prima_undine::functions::*;
pub use prima_undine::{Device, Node, Parameter, Shape, Tensor};

// Large tensors: the same harnesses run over sizes at which blocked, unrolled or size-dependent code
// takes other paths than over a few elements.
static mut BIG: u32 = 0;
static mut BIGB: u32 = 1;
static mut FILL: usize = 0;
/// 0: small shapes, everything symbolic. 1: large shapes, everything symbolic. 2 to 5: large shapes,
/// most elements concrete (2 of either sign, 3 positive, 4 distinct, 5 of either sign), some symbolic (none in 5).
pub fn big() -> u32 {
    unsafe { BIG }
}
pub fn set_big(m: u32) {
    unsafe { BIG = m }
}
static mut HUGE: bool = false;
/// Thousands of elements, almost all of them concrete; together with `set_big`.
pub fn huge() -> bool {
    unsafe { HUGE }
}
pub fn set_huge() {
    unsafe { HUGE = true }
}
const HUGES: &[(&[u32], u32)] = &[(&[4100], 1), (&[2], 1030), (&[3, 700], 1)];
const HUGES_T: &[(&[u32], u32)] = &[(&[4100], 1), (&[2], 1030), (&[3, 700], 1), (&[700, 3], 2), (&[], 2060), (&[5, 1, 300], 1), (&[8200], 1)];
/// Picks a large shape; `batch` and `batches` then answer with its number of samples.
pub fn big_dims(l: &[(&[u32], u32)]) -> Vec<u32> {
    let l = if huge() { if vx::thorough() { HUGES_T } else { HUGES } } else { l };
    let (d, b) = vx::pick(l);
    unsafe { BIGB = b }
    d.to_vec()
}
/// shapes for element-wise operations
const WIDE: &[(&[u32], u32)] = &[(&[67], 1), (&[3, 7, 5], 1), (&[33], 2), (&[2, 2], 13)];
const WIDER: &[(&[u32], u32)] = &[(&[67], 1), (&[3, 7, 5], 1), (&[33], 2), (&[2, 2], 13), (&[1031], 1), (&[257, 3], 2), (&[], 300), (&[130], 3)];
/// shapes for operations along an axis
pub const DEEP: &[(&[u32], u32)] = &[(&[37], 2), (&[3, 19], 1), (&[2], 13), (&[2, 17, 3], 2), (&[2, 3, 1, 9], 2)];
pub const DEEPER: &[(&[u32], u32)] = &[(&[37], 2), (&[3, 19], 1), (&[2], 13), (&[2, 17, 3], 2), (&[2, 3, 1, 9], 2), (&[259], 1), (&[70, 9], 2), (&[9, 70], 2), (&[3, 3, 3, 3, 3], 3), (&[5], 65)];
pub fn deep() -> Vec<u32> {
    big_dims(if vx::thorough() { DEEPER } else { DEEP })
}
fn fill(n: usize) -> Vec<f32> {
    let m = if huge() && big() == 1 { 2 } else { big() };
    if m < 2 {
        return vx::floats(n);
    }
    let t = [1.5, -0.75, 2.25, -3., 0.5, -1.25, 3.5, -2., 0.25, 1., -0.5, 2.75, -1.75f32];
    let o = unsafe {
        FILL += 1;
        FILL * 4
    };
    let mut v = vec![0f32; n];
    for i in 0..n {
        v[i] = match m {
            2 | 5 => t[(i + o) % 13],
            3 => t[(i + o) % 13].abs(),
            _ => ((i * 377 + o) % 1021) as f32 / 8. - 40.,
        };
    }
    if m < 5 && n > 0 && !(huge() && m == 4) {
        v[n / 2] = vx::f32_finite();
        if m < 4 {
            v[n - 1] = vx::f32_finite();
        }
    }
    v
}

// High dimension numbers: the same harnesses over shapes of up to eight dimensions.
static mut TALL: usize = 0;
pub fn tall() -> bool {
    unsafe { TALL != 0 }
}
pub fn set_tall(k: u32) {
    unsafe { TALL = k as usize }
}
/// the axis under test: the job's own, or the one of `set_tall`
pub fn axis(k: u32) -> u32 {
    if tall() {
        unsafe { TALL as u32 }
    } else {
        k
    }
}
/// shapes with extents below, at and above that axis
pub fn tall_space() -> (Vec<u32>, u32) {
    let k = unsafe { TALL };
    let n = if vx::thorough() { 7 } else { 5 };
    let (l, b): (&[(usize, u32)], u32) = match vx::choose(n) {
        0 => (&[(0, 2), (9, 3)], 2),
        1 => (&[(1, 2), (9, 2), (7, 2)], 1),
        2 => (&[(1, 3)], 2),
        3 => (&[(3, 2), (7, 2)], 2),
        4 => (&[(4, 2), (6, 2), (7, 2)], 1),
        5 => (&[(0, 2), (4, 2), (9, 2)], 3),
        _ => (&[(2, 2), (9, 2), (6, 3)], 1),
    };
    let mut d = vec![];
    for (i, e) in l {
        d = redim(&d, if *i == 9 { k } else { *i }, *e);
    }
    (d, b)
}

/// A shape chosen by case split: up to `maxd` dimensions of extent 1..=ext, batch from the list.
pub fn dims(maxd: u32, ext: u32) -> Vec<u32> {
    if big() != 0 {
        return big_dims(if vx::thorough() { WIDER } else { WIDE });
    }
    let d = vx::choose(maxd + 1);
    (0..d).map(|_| 1 + vx::choose(ext)).collect()
}
pub fn batch(maxb: u32) -> u32 {
    if big() != 0 {
        return unsafe { BIGB };
    }
    1 + vx::choose(maxb)
}
/// (batch of a, batch of b), all compatible combinations up to n.
pub fn batches(n: u32) -> (u32, u32) {
    if big() != 0 {
        let b = unsafe { BIGB };
        return if b > 1 { vx::pick(&[(b, b), (1, b), (b, 1)]) } else { (1, 1) };
    }
    let mut v = vec![(1, 1)];
    for b in 2..=n {
        v.push((b, b));
        v.push((1, b));
        v.push((b, 1));
    }
    vx::pick(&v)
}

/// Leaves `n` recycled blocks with unknown contents in the memory pool, so that results depending on
/// stale storage are visible.
pub fn junk(dev: &Device, n: usize, size: usize) {
    let mut keep = vec![];
    let size = if big() != 0 { size.max(256) } else { size };
    for _ in 0..n {
        let mut v = vx::floats(size.min(12));
        v.resize(size, 7.25);
        keep.push(v);
    }
    let ts: Vec<Tensor> = keep.iter().map(|v| dev.new_tensor_by_slice(Shape::new(&[size as u32], 1), v)).collect();
    drop(ts);
}

pub fn tensor<'d>(dev: &'d Device<'d>, s: Shape) -> (Tensor<'d>, Vec<f32>) {
    let v = vx::floats(s.size() as usize);
    let t = dev.new_tensor_by_slice(s, &v);
    (t, v)
}

pub fn same(t: &Tensor, v: &[f32], label: &str) {
    let w = t.to_vec();
    vx::check(w.len() == v.len(), label);
    for i in 0..w.len().min(v.len()) {
        vx::bits(w[i], v[i], label);
    }
}
pub fn close(t: &Tensor, v: &[f32], label: &str) {
    close_v(&t.to_vec(), v, label)
}
pub fn close_v(w: &[f32], v: &[f32], label: &str) {
    vx::check(w.len() == v.len(), label);
    for i in 0..w.len().min(v.len()) {
        vx::feq(w[i], v[i], label);
    }
}
/// Shape check against independently computed dimensions.
pub fn shape_is(s: Shape, dims: &[u32], batch: u32, label: &str) {
    let mut ok = s.batch() == batch;
    let n = dims.len().max(s.depth() as usize);
    let mut vol: u64 = 1;
    for i in 0..n {
        let d = if i < dims.len() { dims[i] } else { 1 };
        ok = ok && s[i as u32] == d;
        vol *= d as u64;
    }
    ok = ok && s.volume() as u64 == vol && s.size() as u64 == vol * batch as u64;
    vx::check(ok, label);
}

/// Reference tensor: values in column-major order, one sample after another.
#[derive(Clone)]
pub struct Ref {
    pub d: Vec<u32>,
    pub b: u32,
    pub v: Vec<f32>,
}
impl Ref {
    pub fn new(d: &[u32], b: u32, v: &[f32]) -> Ref {
        Ref { d: d.to_vec(), b, v: v.to_vec() }
    }
    pub fn dim(&self, i: usize) -> u32 {
        if i < self.d.len() {
            self.d[i]
        } else {
            1
        }
    }
    pub fn volume(&self) -> usize {
        self.d.iter().map(|x| *x as usize).product()
    }
    /// element at coordinates c (missing coordinates are 0) of sample b (sample 0 if there is one only)
    pub fn at(&self, c: &[u32], b: u32) -> f32 {
        let mut o = 0usize;
        let mut m = 1usize;
        for i in 0..self.d.len() {
            let x = if i < c.len() { c[i] } else { 0 };
            o += x as usize * m;
            m *= self.d[i] as usize;
        }
        let bb = if self.b == 1 { 0 } else { b as usize };
        self.v[bb * m + o]
    }
    /// Builds a tensor from a function of (coordinates, sample).
    pub fn build(d: &[u32], b: u32, f: &mut dyn FnMut(&[u32], u32) -> f32) -> Ref {
        let mut v = vec![];
        let n: u32 = d.iter().product();
        for s in 0..b {
            for i in 0..n {
                let mut c = vec![0u32; d.len()];
                let mut r = i;
                for k in 0..d.len() {
                    c[k] = r % d[k];
                    r /= d[k];
                }
                v.push(f(&c, s));
            }
        }
        Ref { d: d.to_vec(), b, v }
    }
    pub fn tensor<'d>(&self, dev: &'d Device<'d>) -> Tensor<'d> {
        dev.new_tensor_by_slice(Shape::new(&self.d, self.b), &self.v)
    }
    pub fn sym(d: &[u32], b: u32) -> Ref {
        let n: u32 = d.iter().product();
        Ref { d: d.to_vec(), b, v: fill((n * b) as usize) }
    }
    pub fn any(d: &[u32], b: u32) -> Ref {
        let n: u32 = d.iter().product();
        Ref { d: d.to_vec(), b, v: (0..n * b).map(|i| if !huge() || i % 97 == 0 { vx::f32_any() } else { i as f32 }).collect() }
    }
    pub fn shape(&self) -> Shape {
        Shape::new(&self.d, self.b)
    }
    pub fn expect(&self, t: &Tensor, label: &str) {
        shape_is(t.shape(), &self.d, self.b, label);
        close(t, &self.v, label);
    }
    pub fn expect_bits(&self, t: &Tensor, label: &str) {
        shape_is(t.shape(), &self.d, self.b, label);
        same(t, &self.v, label);
    }
}
pub fn with(c: &[u32], k: usize, x: u32) -> Vec<u32> {
    let mut c = c.to_vec();
    if k < c.len() {
        c[k] = x;
    } else {
        while c.len() < k {
            c.push(0);
        }
        c.push(x);
    }
    c
}
/// dims with dimension k replaced by x (extended with ones as needed)
pub fn redim(d: &[u32], k: usize, x: u32) -> Vec<u32> {
    let mut d = d.to_vec();
    while d.len() <= k {
        d.push(1);
    }
    d[k] = x;
    d
}
