//! C13: models list, move and train every parameter exactly once.
use crate::tree;
use crate::util::*;
use crate::vx;
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::{Model, Optimizer, OptimizerBase};
use serde::{Deserialize, Serialize};

const LIST: &str = "model: every parameter is listed exactly once in declaration order";
const MUT: &str = "model: the mutable listing is the same as the shared one";
const MOVE: &str = "model: moving moves every parameter";
const TRAIN: &str = "model: an optimizer touches every parameter";

#[derive(Model, Serialize, Deserialize)]
struct Flat<'dev> {
    z: Parameter<'dev>,
    a: Parameter<'dev>,
    m: Parameter<'dev>,
}
#[derive(Model, Serialize, Deserialize)]
struct One<'dev> {
    only: Parameter<'dev>,
}
#[derive(Model, Serialize, Deserialize)]
struct Nested<'dev> {
    one: One<'dev>,
    p: Parameter<'dev>,
    flat: Flat<'dev>,
    q: Parameter<'dev>,
}
#[derive(Model, Serialize, Deserialize)]
struct Lists<'dev> {
    ps: Vec<Parameter<'dev>>,
    ms: Vec<One<'dev>>,
    pss: Vec<Vec<Parameter<'dev>>>,
    fs: Vec<Flat<'dev>>,
}
#[derive(Model, Serialize, Deserialize)]
struct Skips<'dev> {
    #[parameter(skip)]
    #[serde(skip)]
    hidden: u32,
    /// documented
    a: Parameter<'dev>,
    #[serde(skip)]
    #[parameter(skip)]
    other: Option<u8>,
    #[serde(rename = "bb")]
    b: Parameter<'dev>,
    #[parameter(skip)]
    frozen: Parameter<'dev>,
    #[allow(dead_code)]
    c: One<'dev>,
}
#[derive(Model)]
struct Generic<'dev, M, N>
where
    N: Model<'dev>,
    M: Model<'dev>,
{
    m: M,
    p: Parameter<'dev>,
    n: N,
}
#[derive(Model)]
struct Sized<'dev, const K: usize> {
    #[parameter(skip)]
    _k: [u8; K],
    p: Parameter<'dev>,
    v: Vec<Nested<'dev>>,
}
/// a hand-written model
#[derive(Serialize, Deserialize)]
struct Hand<'dev>(Parameter<'dev>, Flat<'dev>);
impl<'dev> Model<'dev> for Hand<'dev> {
    fn parameters(&self) -> Vec<&Parameter<'dev>> {
        let mut v = vec![&self.0];
        v.extend(self.1.parameters());
        v
    }
    fn parameters_mut(&mut self) -> Vec<&mut Parameter<'dev>> {
        let mut v = vec![&mut self.0];
        v.extend(self.1.parameters_mut());
        v
    }
}

// every parameter gets its own values; the expected list is kept alongside
struct Mk<'d> {
    dev: &'d Device<'d>,
    want: Vec<f32>,
}
impl<'d> Mk<'d> {
    fn p(&mut self) -> Parameter<'d> {
        let x = vx::f32_finite();
        self.want.push(x);
        self.hidden(x)
    }
    fn hidden(&self, x: f32) -> Parameter<'d> {
        Parameter::new(self.dev.new_tensor_by_constant(Shape::new(&[], 1), x), self.dev.new_tensor_by_constant(Shape::new(&[], 1), 0.))
    }
    fn one(&mut self) -> One<'d> {
        One { only: self.p() }
    }
    fn flat(&mut self) -> Flat<'d> {
        let z = self.p();
        let a = self.p();
        let m = self.p();
        Flat { m, a, z }
    }
    fn nested(&mut self) -> Nested<'d> {
        Nested { one: self.one(), p: self.p(), flat: self.flat(), q: self.p() }
    }
    fn lists(&mut self) -> Lists<'d> {
        let n = [0, 0, 0, 0].map(|_: u32| vx::choose(3));
        let ps = (0..n[0]).map(|_| self.p()).collect();
        let ms = (0..n[1]).map(|_| self.one()).collect();
        let pss = (0..n[2])
            .map(|_| {
                let k = vx::choose(3);
                (0..k).map(|_| self.p()).collect()
            })
            .collect();
        let fs = (0..n[3]).map(|_| self.flat()).collect();
        Lists { ps, ms, pss, fs }
    }
    fn skips(&mut self) -> Skips<'d> {
        Skips { hidden: 1, a: self.p(), other: Some(2), b: self.p(), frozen: self.hidden(9.5), c: self.one() }
    }
}

/// listing
fn list<'d, M: Model<'d>>(m: &mut M, want: &[f32]) {
    let a: Vec<*const Parameter> = m.parameters().into_iter().map(|p| p as *const Parameter).collect();
    let b: Vec<*const Parameter> = m.parameters_mut().into_iter().map(|p| p as *const Parameter).collect();
    vx::check(a.len() == want.len(), LIST);
    vx::check(a.len() == b.len(), MUT);
    for i in 0..a.len() {
        vx::check(a[i] == b[i], MUT);
        for j in 0..i {
            vx::check(a[i] != a[j], LIST);
        }
    }
    for (p, x) in m.parameters().iter().zip(want) {
        same(&p.value, &[*x], LIST);
    }
}
/// configuring and updating; returns the new values
fn train<'d, M: Model<'d>>(dev: &Device, m: &mut M, want: &[f32], kind: u32) -> Vec<f32> {
    let mut g = vec![];
    for p in m.parameters_mut() {
        let x = vx::f32_finite();
        dev.reset_tensor_by_slice(&mut p.gradient, &[x]);
        g.push(x);
    }
    macro_rules! go {
        ($o:expr, $n:expr) => {{
            let mut o = $o;
            o.configure_model(m);
            for p in m.parameters() {
                vx::check(p.stats.len() == $n, TRAIN);
            }
            o.update_model(m);
            vx::check(*o.epoch() == 1, TRAIN);
        }};
    }
    match kind {
        0 => go!(SGD::new(0.5), 0),
        1 => go!(MomentumSGD::new(0.5, 0.25), 1),
        _ => go!(Adam::new(0.5, 0.5, 0.5, 0.25), 2),
    }
    let mut v = vec![];
    for ((p, x), g) in m.parameters().iter().zip(want).zip(&g) {
        let y = if kind < 2 { x - 0.5 * g } else { x - 0.5 * g / ((g * g).sqrt() + 0.25) };
        close(&p.value, &[y], TRAIN);
        same(&p.gradient, &[0.], TRAIN);
        v.push(p.value.to_float());
    }
    v
}
/// saved, loaded, moved
fn moved<'d, M: Model<'d> + Serialize + for<'a> Deserialize<'a>>(dev: &'d Device<'d>, m: &M, want: &[f32]) {
    let mut k: M = tree::load(&tree::save(m), tree::By::Name);
    for p in k.parameters() {
        vx::check(!p.value.valid(), MOVE);
    }
    k.move_to_device(dev);
    for (a, b) in k.parameters().iter().zip(m.parameters()) {
        vx::check(a.value.valid() && a.gradient.valid(), MOVE);
        vx::check(a.value.device() == dev && a.gradient.device() == dev, MOVE);
        vx::check(a.stats.len() == b.stats.len(), MOVE);
        let mut names: Vec<&String> = b.stats.keys().collect();
        names.sort();
        for n in names {
            match a.stats.get(n) {
                Some(s) => same(&s.borrow(), &b.stats[n].borrow().to_vec(), MOVE),
                None => vx::check(false, MOVE),
            }
        }
    }
    list(&mut k, want);
}

fn shapes(job: u32) {
    let dev = Naive::new();
    let dev2 = Naive::new();
    let mut k = Mk { dev: &dev, want: vec![] };
    let opt = job % 3;
    macro_rules! go {
        ($m:expr, $moved:ident) => {{
            let mut m = $m;
            list(&mut m, &k.want);
            let v = train(&dev, &mut m, &k.want, opt);
            list(&mut m, &v);
            go!($moved m v);
        }};
        (yes $m:ident $v:ident) => {
            moved(&dev2, &$m, &$v);
        };
        (no $m:ident $v:ident) => {};
    }
    match job / 3 {
        0 => go!(k.flat(), yes),
        1 => go!(k.nested(), yes),
        2 => go!(k.lists(), yes),
        3 => {
            let mut m = k.skips();
            list(&mut m, &k.want);
            let v = train(&dev, &mut m, &k.want, opt);
            list(&mut m, &v);
            same(&m.frozen.value, &[9.5], "model: a skipped field is left alone");
            vx::check(m.frozen.stats.len() == 0, "model: a skipped field is left alone");
            moved(&dev2, &m, &v);
        }
        4 => go!({ let m = k.nested(); let p = k.p(); let n = k.lists(); Generic { n, p, m } }, no),
        5 => go!({ let p = k.p(); let n = vx::choose(3); Sized::<3> { _k: [1; 3], p, v: (0..n).map(|_| k.nested()).collect() } }, no),
        6 => go!({ let n = vx::choose(3); (0..n).map(|_| k.skips()).collect::<Vec<_>>() }, yes),
        7 => go!({ let n = vx::choose(4); (0..n).map(|_| k.p()).collect::<Vec<_>>() }, yes),
        8 => go!({ let n = vx::choose(3); (0..n).map(|_| { let i = vx::choose(3); (0..i).map(|_| k.flat()).collect::<Vec<_>>() }).collect::<Vec<_>>() }, yes),
        _ => go!({ let p = k.p(); let n = vx::choose(3); let f = k.flat(); let mut v = vec![Hand(p, f)]; for _ in 0..n { let p = k.p(); let f = k.flat(); v.push(Hand(p, f)); } v }, yes),
    }
}

harnesses! { "c13";
    "shapes": 30 => shapes;
}
