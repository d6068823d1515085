//! C11: optimizer update rules.
use crate::util::*;
use crate::vx;
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::{Optimizer, OptimizerBase};

const VALUE: &str = "optimizer: the value moves by the published formula";
const STATE: &str = "optimizer: the parameter's state follows the published formula";
const ZERO: &str = "optimizer: the gradient is zero after the step";
const OTHER: &str = "optimizer: parameters not updated stay as they are";

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Sgd,
    Mom,
    Adam,
}
struct Conf {
    kind: Kind,
    lr: f32,
    b1: f32,
    b2: f32,
    eps: f32,
}
/// Reference state of one parameter.
#[derive(Clone)]
struct P {
    d: Vec<u32>,
    x: Vec<f32>,
    g: Vec<f32>,
    m1: Vec<f32>,
    m2: Vec<f32>,
}
impl P {
    fn new(d: &[u32]) -> P {
        let n = d.iter().product::<u32>() as usize;
        P { d: d.to_vec(), x: vx::floats(n), g: vec![0.; n], m1: vec![0.; n], m2: vec![0.; n] }
    }
    fn param<'d>(&self, dev: &'d Device<'d>) -> Parameter<'d> {
        let s = Shape::new(&self.d, 1);
        Parameter::new(dev.new_tensor_by_slice(s, &self.x), dev.new_tensor_by_constant(s, 0.))
    }
    fn step(&mut self, c: &Conf, scale: f32, t: u32) {
        let k = scale * c.lr;
        for i in 0..self.x.len() {
            let g = self.g[i];
            match c.kind {
                Kind::Sgd => self.x[i] -= k * g,
                Kind::Mom => {
                    self.m1[i] = c.b1 * self.m1[i] - k * g;
                    self.x[i] += self.m1[i];
                }
                Kind::Adam => {
                    self.m1[i] = c.b1 * self.m1[i] + (1. - c.b1) * g;
                    self.m2[i] = c.b2 * self.m2[i] + (1. - c.b2) * g * g;
                    let (mut p1, mut p2) = (1., 1.);
                    for _ in 0..t {
                        p1 *= c.b1;
                        p2 *= c.b2;
                    }
                    self.x[i] -= k * (self.m1[i] / (1. - p1)) / ((self.m2[i] / (1. - p2)).sqrt() + c.eps);
                }
            }
        }
        for g in self.g.iter_mut() {
            *g = 0.;
        }
    }
    fn expect(&self, c: &Conf, p: &Parameter, label: &str) {
        shape_is(p.shape(), &self.d, 1, label);
        close(&p.value, &self.x, label);
        let st = |n: &str, v: &[f32]| match p.stats.get(n) {
            Some(s) => close(&s.borrow(), v, STATE),
            // (kept under another name: decided through the values of the next steps)
            None => {}
        };
        match c.kind {
            Kind::Sgd => vx::check(p.stats.len() == 0, STATE),
            Kind::Mom => st("MomentumSGD.m", &self.m1),
            Kind::Adam => {
                st("Adam.m1", &self.m1);
                st("Adam.m2", &self.m2);
            }
        }
    }
}
enum Opt {
    S(SGD),
    M(MomentumSGD),
    A(Adam),
}
impl Opt {
    fn new(c: &Conf) -> Opt {
        match c.kind {
            Kind::Sgd => Opt::S(SGD::new(c.lr)),
            Kind::Mom => Opt::M(MomentumSGD::new(c.lr, c.b1)),
            Kind::Adam => Opt::A(Adam::new(c.lr, c.b1, c.b2, c.eps)),
        }
    }
    fn base(&mut self) -> &mut dyn OptimizerBase {
        match self {
            Opt::S(o) => o,
            Opt::M(o) => o,
            Opt::A(o) => o,
        }
    }
    fn configure(&self, ps: &mut [&mut Parameter]) {
        match self {
            Opt::S(o) => o.configure_parameters(ps),
            Opt::M(o) => o.configure_parameters(ps),
            Opt::A(o) => o.configure_parameters(ps),
        }
    }
    fn update(&mut self, ps: &mut [&mut Parameter]) {
        match self {
            Opt::S(o) => o.update_parameters(ps),
            Opt::M(o) => o.update_parameters(ps),
            Opt::A(o) => o.update_parameters(ps),
        }
    }
}
fn in_range(lo: f32, hi: f32) -> f32 {
    let x = vx::f32_finite();
    vx::assume(x > lo && x < hi);
    x
}
fn conf(kind: u32) -> Conf {
    let lr = in_range(0.001, 4.);
    match kind {
        0 => Conf { kind: Kind::Sgd, lr, b1: 0., b2: 0., eps: 0. },
        1 => Conf { kind: Kind::Mom, lr, b1: in_range(0.01, 0.99), b2: 0., eps: 0. },
        _ => Conf {
            kind: Kind::Adam,
            lr,
            b1: in_range(0.01, 0.99),
            b2: in_range(0.01, 0.99),
            eps: in_range(0.00001, 0.5),
        },
    }
}
fn gradient(dev: &Device, p: &mut Parameter, r: &mut P) {
    r.g = vx::floats(r.x.len());
    dev.reset_tensor_by_slice(&mut p.gradient, &r.g);
}

// several steps over changing sets of parameters, with scale and decay changed in between
fn steps(job: u32) {
    let dev = Naive::new();
    junk(&dev, 6, 8);
    let c = conf(job % 3);
    let n = if vx::thorough() && c.kind != Kind::Adam { 4 } else if c.kind == Kind::Adam { 2 } else { 3 };
    let mut r = vec![P::new(&[2]), P::new(&[]), P::new(&[1, 2])];
    let mut ps: Vec<Parameter> = r.iter().map(|x| x.param(&dev)).collect();
    let mut o = Opt::new(&c);
    vx::check(o.base().get_learning_rate_scaling() == 1. && o.base().get_weight_decay() == 0. && o.base().get_gradient_clipping() == 0. && *o.base().epoch() == 0, "optimizer: defaults");
    let (mut scale, mut l2) = (1.0f32, 0.0f32);
    {
        let mut v: Vec<&mut Parameter> = ps.iter_mut().collect();
        o.configure(&mut v);
        o.configure(&mut v); // again changes nothing
    }
    for t in 1..=n {
        if t == 2 || job >= 3 {
            if vx::choose(2) == 1 {
                scale = in_range(0.01, 8.);
                o.base().set_learning_rate_scaling(scale);
                vx::bits(o.base().get_learning_rate_scaling(), scale, "optimizer: settings");
            }
            if vx::choose(2) == 1 {
                l2 = in_range(0.01, 8.);
                o.base().set_weight_decay(l2);
                vx::bits(o.base().get_weight_decay(), l2, "optimizer: settings");
            }
        }
        for (p, x) in ps.iter_mut().zip(r.iter_mut()) {
            gradient(&dev, p, x);
        }
        // which parameters take part
        let set = vx::pick(&[&[0usize, 1, 2][..], &[2, 0], &[1]]);
        {
            let mut all: Vec<Option<&mut Parameter>> = ps.iter_mut().map(Some).collect();
            let mut v: Vec<&mut Parameter> = set.iter().map(|i| all[*i].take().unwrap()).collect();
            o.update(&mut v);
        }
        vx::check(*o.base().epoch() == t, "optimizer: the step counter");
        for i in 0..3 {
            if set.contains(&i) {
                for j in 0..r[i].x.len() {
                    let d = l2 * r[i].x[j];
                    r[i].g[j] += d;
                }
                r[i].step(&c, scale, t);
                r[i].expect(&c, &ps[i], VALUE);
                same(&ps[i].gradient, &vec![0.; r[i].x.len()], ZERO);
            } else {
                r[i].expect(&c, &ps[i], OTHER);
                same(&ps[i].gradient, &r[i].g, OTHER);
            }
        }
    }
}

// clipping: one common factor over all gradients (after decay), exactly when the norm is larger
fn clip(job: u32) {
    let dev = Naive::new();
    let c = conf(job % 3);
    let mut r = vec![P::new(&[2]), P::new(&[])];
    let mut ps: Vec<Parameter> = r.iter().map(|x| x.param(&dev)).collect();
    let mut o = Opt::new(&c);
    let thr = in_range(0.01, 100.);
    o.base().set_gradient_clipping(thr);
    vx::bits(o.base().get_gradient_clipping(), thr, "optimizer: settings");
    let l2 = if job / 3 % 2 == 1 { in_range(0.01, 8.) } else { 0. };
    o.base().set_weight_decay(l2);
    {
        let mut v: Vec<&mut Parameter> = ps.iter_mut().collect();
        o.configure(&mut v);
    }
    let mut n2 = 0.;
    for (p, x) in ps.iter_mut().zip(r.iter_mut()) {
        gradient(&dev, p, x);
        for j in 0..x.x.len() {
            if l2 != 0. {
                x.g[j] += l2 * x.x[j];
            }
            n2 += x.g[j] * x.g[j];
        }
    }
    let above = job / 6 == 1;
    if above {
        vx::assume(n2 > thr * thr * 1.01);
    } else {
        vx::assume(n2 < thr * thr * 0.99);
    }
    {
        let mut v: Vec<&mut Parameter> = ps.iter_mut().collect();
        o.update(&mut v);
    }
    for i in 0..2 {
        if above {
            let k = thr / n2.sqrt();
            for g in r[i].g.iter_mut() {
                *g *= k;
            }
        }
        r[i].step(&c, 1., 1);
        r[i].expect(&c, &ps[i], if above { "optimizer: gradients are rescaled to the threshold" } else { "optimizer: small gradients are not rescaled" });
        same(&ps[i].gradient, &vec![0.; r[i].x.len()], ZERO);
    }
}

// settings are validated; gradients are reset and nothing else
fn settings(job: u32) {
    let dev = Naive::new();
    let c = conf(job);
    let mut o = Opt::new(&c);
    let mut r = P::new(&[2]);
    let mut p = r.param(&dev);
    let q = r.param(&dev);
    o.configure(&mut [&mut p]);
    gradient(&dev, &mut p, &mut r);
    p.reset_gradient();
    r.expect(&c, &p, "optimizer: resetting a gradient changes nothing else");
    same(&p.gradient, &[0., 0.], "optimizer: resetting zeroes the gradient");
    same(&q.value, &r.x, OTHER);
    // without a gradient, SGD and fresh momentum do not move
    let k = vx::f32_any();
    let w = vx::choose(3);
    if !(k >= 0.) {
        vx::expect_panic(true);
    }
    match w {
        0 => o.base().set_learning_rate_scaling(k),
        1 => o.base().set_weight_decay(k),
        _ => o.base().set_gradient_clipping(k),
    }
    let g = match w {
        0 => o.base().get_learning_rate_scaling(),
        1 => o.base().get_weight_decay(),
        _ => o.base().get_gradient_clipping(),
    };
    vx::bits(g, k, "optimizer: settings");
}

// a long run, and a run that goes on from a late step counter; many elements
fn late(job: u32) {
    let dev = Naive::new();
    // also decays close to one, as they are used in practice
    let (b1, b2, eps) = if job < 6 { (0.75, 0.875, 0.0625) } else { vx::pick(&[(0.75, 0.875, 0.0625), (0.9, 0.999, 0.0078125)]) };
    let c = Conf { kind: [Kind::Sgd, Kind::Mom, Kind::Adam][job as usize % 3], lr: 0.125, b1, b2, eps };
    let mut o = Opt::new(&c);
    let wide = job / 3 % 2 == 1;
    let from = if job < 6 { 0 } else { vx::pick(&[9u32, 99, 255, 1000, 4095, 65535]) };
    let n = if job < 3 { if vx::thorough() { 300 } else { 40 } } else { 2 };
    let d: &[u32] = if wide { &[5, 29] } else { &[2] };
    let mut r = P::new(d);
    if wide {
        for i in 0..r.x.len() - 1 {
            r.x[i] = (i * 37 % 101) as f32 / 8. - 6.;
        }
    }
    let mut p = r.param(&dev);
    o.configure(&mut [&mut p]);
    *o.base().epoch() = from;
    for t in from + 1..=from + n {
        for i in 0..r.x.len() {
            // mostly small, with changes of sign
            r.g[i] = ((t as usize * 7 + i * 5) % 13) as f32 / 4. - 1.25;
        }
        dev.reset_tensor_by_slice(&mut p.gradient, &r.g);
        o.update(&mut [&mut p]);
        vx::check(*o.base().epoch() == t, "optimizer: the step counter");
        r.step(&c, 1., t);
        r.expect(&c, &p, VALUE);
        same(&p.gradient, &vec![0.; r.x.len()], ZERO);
        // go on from the value the code reached: differences in rounding do not add up
        r.x = p.value.to_vec();
    }
}

// thousands of elements in one parameter, or dozens of parameters, with and without clipping;
// job = kind + 3 * (clipping) + 6 * (many parameters)
fn wide(job: u32) {
    let dev = Naive::new();
    let c = Conf { kind: [Kind::Sgd, Kind::Mom, Kind::Adam][job as usize % 3], lr: 0.125, b1: 0.75, b2: 0.875, eps: 0.0625 };
    let clip = job / 3 % 2 == 1;
    let shapes: Vec<Vec<u32>> = if job / 6 == 0 {
        vec![vec![], vx::pick(&[&[4100][..], &[3, 700]]).to_vec(), vec![3]]
    } else {
        (0..70).map(|i| if i % 9 == 4 { vec![2, 3] } else { vec![1 + i % 3] }).collect()
    };
    let mut o = Opt::new(&c);
    if clip {
        o.base().set_gradient_clipping(2.);
    }
    o.base().set_weight_decay(0.5);
    let mut r: Vec<P> = vec![];
    for (k, d) in shapes.iter().enumerate() {
        let n = d.iter().product::<u32>() as usize;
        let mut x: Vec<f32> = (0..n).map(|i| ((i + k) * 37 % 101) as f32 / 8. - 6.).collect();
        if k == shapes.len() - 1 && !clip {
            x[0] = vx::f32_finite();
        }
        r.push(P { d: d.clone(), x, g: vec![0.; n], m1: vec![0.; n], m2: vec![0.; n] });
    }
    let mut ps: Vec<Parameter> = r.iter().map(|x| x.param(&dev)).collect();
    let mut v: Vec<&mut Parameter> = ps.iter_mut().collect();
    o.configure(&mut v);
    for t in 1..=2 {
        let mut n2 = 0f64;
        for (k, (p, x)) in v.iter_mut().zip(r.iter_mut()).enumerate() {
            for i in 0..x.x.len() {
                x.g[i] = ((t as usize * 7 + i * 5 + k) % 13) as f32 / 4. - 1.25;
            }
            dev.reset_tensor_by_slice(&mut p.gradient, &x.g);
            for i in 0..x.x.len() {
                x.g[i] += 0.5 * x.x[i];
                if clip {
                    n2 += x.g[i] as f64 * x.g[i] as f64;
                }
            }
        }
        o.update(&mut v);
        vx::check(*o.base().epoch() == t, "optimizer: the step counter");
        for (p, x) in v.iter().zip(r.iter_mut()) {
            if clip {
                vx::check(n2 > 4.1, "harness: the gradients exceed the threshold");
                for g in x.g.iter_mut() {
                    *g = (*g as f64 * 2. / n2.sqrt()) as f32;
                }
            }
            let old = x.x.clone();
            x.step(&c, 1., t);
            if clip {
                // the norm of thousands of elements is rounded: compare the steps loosely
                let v = p.value.to_vec();
                for i in 0..v.len() {
                    let want = (x.x[i] - old[i]) as f64;
                    vx::check(((v[i] - old[i]) as f64 - want).abs() < 1e-2 * want.abs() + 1e-5, VALUE);
                }
            } else {
                x.expect(&c, p, VALUE);
            }
            same(&p.gradient, &vec![0.; x.x.len()], ZERO);
            x.x = p.value.to_vec();
        }
    }
}

// two optimizers take turns over the same parameters, configured again before each turn: each goes on from
// its own state
fn turns(job: u32) {
    let dev = Naive::new();
    junk(&dev, 6, 8);
    let cs = [conf(job % 3), conf((job % 3 + 1 + job / 3) % 3)];
    let mut r = [[P::new(&[2]), P::new(&[])], [P::new(&[2]), P::new(&[])]];
    let mut ps: Vec<Parameter> = r[0].iter().map(|x| x.param(&dev)).collect();
    let mut os = [Opt::new(&cs[0]), Opt::new(&cs[1])];
    let mut t = [0, 0];
    for k in [0usize, 1, 0] {
        os[k].configure(&mut ps.iter_mut().collect::<Vec<_>>());
        for i in 0..2 {
            r[k][i].x = ps[i].value.to_vec();
            gradient(&dev, &mut ps[i], &mut r[k][i]);
        }
        os[k].update(&mut ps.iter_mut().collect::<Vec<_>>());
        t[k] += 1;
        for i in 0..2 {
            r[k][i].step(&cs[k], 1., t[k]);
            close(&ps[i].value, &r[k][i].x, VALUE);
            same(&ps[i].gradient, &vec![0.; r[k][i].x.len()], ZERO);
        }
    }
}

harnesses! { "c11";
    "steps": 6 => steps;
    "clip": 12 => clip;
    "settings": 3 => settings;
    "late": 9 => late;
    "wide": 12 => wide;
    "turns": 6 => turns;
}
