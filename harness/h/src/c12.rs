//! C12: saving and loading.
use crate::tree;
use crate::util::*;
use crate::vx;
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::{Model, Optimizer, OptimizerBase};
use serde::{Deserialize, Serialize};

const SHAPE: &str = "saving: the shape is restored";
const VALUE: &str = "saving: the values are restored bit for bit";
const KEEP: &str = "saving: saving leaves the original as it is";
const STEP: &str = "saving: training continues with the same steps";

fn shapes(job: u32) {
    let d: Vec<u32> = (0..job).map(|i| if i < 2 { vx::u32_in(1, 9) } else { 1 + vx::choose(2) }).collect();
    let b = vx::u32_in(1, 9);
    let s = Shape::new(&d, b);
    let t: Shape = tree::load(&tree::save(&s), tree::by());
    vx::check(s == t, SHAPE);
    shape_is(t, &d, b, SHAPE);
}

fn tensors(job: u32) {
    let dev = Naive::new();
    let other = Naive::new();
    junk(&dev, 3, 8);
    let d = if job < 4 { dims(2, 3) } else { vec![1, 2, 1, 1, 2, 1, 1, 1 + vx::choose(2)] };
    let b = 1 + job % 4;
    let r = Ref::any(&d, b);
    let t = r.tensor(&dev);
    let v = if vx::choose(2) == 1 { tree::save(&Tensor::from(&t)) } else { tree::save(&t) };
    same(&t, &r.v, KEEP);
    let mut u: Tensor = tree::load(&v, tree::by());
    vx::check(u.shape() == r.shape(), SHAPE);
    if vx::choose(2) == 1 {
        u.move_to_device(&other);
    } else {
        junk(&dev, 2, 12);
        u.move_to_device(&dev);
    }
    r.expect_bits(&u, VALUE);
    // and once more
    let mut w: Tensor = tree::load(&tree::save(&u), tree::by());
    drop(u);
    w.move_to_device(&dev);
    r.expect_bits(&w, VALUE);
    same(&t, &r.v, KEEP);
}

fn same_param(p: &Parameter, q: &Parameter, label: &str) {
    vx::check(p.shape() == q.shape() && p.gradient.shape() == q.gradient.shape(), SHAPE);
    same(&p.value, &q.value.to_vec(), label);
    same(&p.gradient, &q.gradient.to_vec(), label);
    vx::check(p.stats.len() == q.stats.len(), label);
    let mut names: Vec<&String> = p.stats.keys().collect();
    names.sort();
    for k in names {
        let s = &p.stats[k];
        match q.stats.get(k) {
            Some(t) => {
                vx::check(s.borrow().shape() == t.borrow().shape(), SHAPE);
                same(&s.borrow(), &t.borrow().to_vec(), label);
            }
            None => vx::check(false, label),
        }
    }
}
fn param<'d>(dev: &'d Device<'d>, d: &[u32]) -> Parameter<'d> {
    Parameter::new(Ref::sym(d, 1).tensor(dev), Ref::sym(d, 1).tensor(dev))
}

// parameters with their gradient and any state
fn parameters(job: u32) {
    let dev = Naive::new();
    let d: &[u32] = [&[2][..], &[], &[1, 2]][job as usize];
    let mut p = param(&dev, d);
    let n = [0, 1, 2, 5][vx::choose(4) as usize];
    for (i, name) in ["Adam.m1", "s", "", "Adam.m2", "MomentumSGD.m"].iter().enumerate().take(n) {
        p.add_stat(name, Shape::new(&[3], 1 + i as u32 % 3));
        let v = vx::floats(3 * (i % 3 + 1));
        dev.reset_tensor_by_slice(&mut p.stats[*name].borrow_mut(), &v);
    }
    let w = (p.value.to_vec(), p.gradient.to_vec());
    let v = tree::save(&p);
    same(&p.value, &w.0, KEEP);
    same(&p.gradient, &w.1, KEEP);
    let mut q: Parameter = tree::load(&v, tree::by());
    q.move_to_device(&dev);
    same_param(&p, &q, VALUE);
    same_param(&q, &p, VALUE);
    // the copy is independent
    q.value.reset(0.5);
    q.gradient.reset(0.25);
    for s in q.stats.values() {
        s.borrow_mut().reset(0.75);
    }
    same(&p.value, &w.0, KEEP);
    same(&p.gradient, &w.1, KEEP);
}

#[derive(Model, Serialize, Deserialize)]
struct Layer<'dev> {
    w: Parameter<'dev>,
    b: Parameter<'dev>,
}
#[derive(Model, Serialize, Deserialize)]
struct Net<'dev> {
    first: Parameter<'dev>,
    layers: Vec<Layer<'dev>>,
    #[parameter(skip)]
    size: u32,
    extra: Vec<Parameter<'dev>>,
    last: Layer<'dev>,
    #[parameter(skip)]
    #[serde(skip)]
    note: u32,
}
fn layer<'d>(dev: &'d Device<'d>) -> Layer<'d> {
    Layer { w: param(dev, &[2]), b: param(dev, &[]) }
}

fn model(job: u32) {
    let dev = Naive::new();
    let mut m = Net {
        first: param(&dev, &[2]),
        layers: (0..job % 3).map(|_| layer(&dev)).collect(),
        size: vx::u32_in(0, u32::MAX),
        extra: (0..job / 3).map(|_| param(&dev, &[2])).collect(),
        last: layer(&dev),
        note: 3,
    };
    let o = MomentumSGD::new(0.5, 0.25);
    o.configure_model(&mut m);
    let mut k: Net = tree::load(&tree::save(&m), tree::by());
    k.move_to_device(&dev);
    vx::check(k.layers.len() == m.layers.len() && k.extra.len() == m.extra.len() && k.size == m.size, "saving: the structure is restored");
    let (a, b) = (m.parameters(), k.parameters());
    vx::check(a.len() == b.len(), "saving: the structure is restored");
    for (p, q) in a.iter().zip(&b) {
        same_param(p, q, VALUE);
        same_param(q, p, VALUE);
    }
}

// training: save after some steps, reload, continue side by side
fn training(job: u32) {
    let dev = Naive::new();
    let dev2 = Naive::new();
    junk(&dev, 3, 8);
    junk(&dev2, 3, 8);
    let (k, b1, b2) = (vx::f32_finite(), vx::f32_finite(), vx::f32_finite());
    vx::assume(b1 > 0.1 && b1 < 0.9 && b2 > 0.1 && b2 < 0.9 && k > 0.001 && k < 2.);
    let before = vx::choose(3);
    let after = 2;
    let mut ps = vec![param(&dev, &[2]), param(&dev, &[])];
    macro_rules! go {
        ($new:expr) => {{
            let mut o = $new;
            o.set_weight_decay(0.125);
            o.set_learning_rate_scaling(0.5);
            o.configure_parameters(&mut ps.iter_mut().collect::<Vec<_>>());
            let set = |ps: &mut [Parameter], g: &Vec<Vec<f32>>| {
                for (p, g) in ps.iter_mut().zip(g) {
                    let d = p.value.device();
                    d.reset_tensor_by_slice(&mut p.gradient, g);
                }
            };
            for t in 0..before {
                if t > 0 {
                    set(&mut ps, &vec![vx::floats(2), vx::floats(1)]);
                }
                o.update_parameters(&mut ps.iter_mut().collect::<Vec<_>>());
            }
            let pending = vx::choose(2) == 1; // a gradient not yet used
            if pending {
                set(&mut ps, &vec![vx::floats(2), vx::floats(1)]);
            }
            let mut qs: Vec<Parameter> = tree::load(&tree::save(&ps), tree::by());
            qs.move_to_device(&dev2);
            let mut o2 = $new;
            o2.set_weight_decay(0.125);
            o2.set_learning_rate_scaling(0.5);
            *o2.epoch() = *o.epoch();
            o2.configure_parameters(&mut qs.iter_mut().collect::<Vec<_>>());
            for t in 0..after {
                if t > 0 {
                    let g = vec![vx::floats(2), vx::floats(1)];
                    set(&mut ps, &g);
                    set(&mut qs, &g);
                }
                o.update_parameters(&mut ps.iter_mut().collect::<Vec<_>>());
                o2.update_parameters(&mut qs.iter_mut().collect::<Vec<_>>());
                for (p, q) in ps.iter().zip(&qs) {
                    same_param(p, q, STEP);
                }
            }
        }};
    }
    match job {
        0 => go!(SGD::new(k)),
        1 => go!(MomentumSGD::new(k, b1)),
        _ => go!(Adam::new(k, b1, b2, 0.001)),
    }
}

// one optimizer after another: the states of all of them are saved
fn both(_: u32) {
    let dev = Naive::new();
    let dev2 = Naive::new();
    let mut p = param(&dev, &[2]);
    let (mut a, mut m) = (Adam::new(0.5, 0.25, 0.125, 0.001), MomentumSGD::new(0.25, 0.5));
    a.configure_parameter(&mut p);
    a.update_parameters(&mut [&mut p]);
    m.configure_parameter(&mut p);
    let g = vx::floats(2);
    dev.reset_tensor_by_slice(&mut p.gradient, &g);
    m.update_parameters(&mut [&mut p]);
    let mut q: Parameter = tree::load(&tree::save(&p), tree::by());
    q.move_to_device(&dev2);
    same_param(&p, &q, VALUE);
    same_param(&q, &p, VALUE);
    a.configure_parameter(&mut q);
    m.configure_parameter(&mut q);
    same_param(&p, &q, STEP);
    let g = vx::floats(2);
    let first = vx::choose(2) == 0;
    let go = |p: &mut Parameter, a: &mut Adam, m: &mut MomentumSGD| {
        let d = p.value.device();
        d.reset_tensor_by_slice(&mut p.gradient, &g);
        if first {
            a.update_parameters(&mut [p]);
        } else {
            m.update_parameters(&mut [p]);
        }
    };
    let (mut a2, mut m2) = (Adam::new(0.5, 0.25, 0.125, 0.001), MomentumSGD::new(0.25, 0.5));
    *a2.epoch() = *a.epoch();
    *m2.epoch() = *m.epoch();
    go(&mut p, &mut a, &mut m);
    go(&mut q, &mut a2, &mut m2);
    same_param(&p, &q, STEP);
}

harnesses! { "c12";
    "shapes": 9 => shapes;
    "tensors": 8 => tensors;
    "parameters": 3 => parameters;
    "model": 6 => model;
    "training": 3 => training;
    "both": 1 => both;
}
