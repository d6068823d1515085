//! C17: what a user plugs in - device functions, devices, operators, optimizers, initializers.
use crate::util::*;
use crate::vx;
use prima_undine::device_impl::{DeviceImpl, FunctionBwImpl, FunctionFwF32Impl, FunctionFwImpl, FunctionFwU32Impl};
use prima_undine::{Initializer, Model, Operator, Optimizer, OptimizerBase};
use std::cell::{Cell, RefCell};
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, Ordering};

const LATEST: &str = "extension: a call runs the function registered last under its name and kind";
const EXACT: &str = "extension: a function is called with exactly the operands and data given";
const UNKNOWN: &str = "extension: a call of a name that was never registered is refused";

/// What the last call of a registered function saw.
#[derive(Default)]
struct Seen {
    tag: u32,
    calls: u32,
    xs: Vec<usize>,
    us: Vec<u32>,
    fs: Vec<f32>,
    ys: Vec<usize>,
}
struct F(u32, *const RefCell<Seen>);
unsafe impl Send for F {}
unsafe impl Sync for F {}
fn at<T>(t: &T) -> usize {
    t as *const T as usize
}
impl F {
    fn see(&self, xs: Vec<usize>, us: &[u32], fs: &[f32], ys: Vec<usize>) {
        let mut s = unsafe { &*self.1 }.borrow_mut();
        let calls = s.calls + 1;
        *s = Seen { tag: self.0, calls, xs, us: us.to_vec(), fs: fs.to_vec(), ys };
    }
}
fn ats(xs: &[&Tensor]) -> Vec<usize> {
    xs.iter().map(|x| *x as *const Tensor as usize).collect()
}
impl FunctionFwImpl for F {
    fn call(&self, xs: &[&Tensor], us: &[u32], fs: &[f32], ys: &mut [&mut Tensor]) {
        self.see(ats(xs), us, fs, ys.iter().map(|y| at(&**y)).collect());
    }
}
impl FunctionFwU32Impl for F {
    fn call(&self, xs: &[&Tensor], us: &[u32], fs: &[f32], ys: &mut [u32]) {
        self.see(ats(xs), us, fs, vec![ys.as_ptr() as usize, ys.len()]);
        ys[0] = self.0;
    }
}
impl FunctionFwF32Impl for F {
    fn call(&self, xs: &[&Tensor], us: &[u32], fs: &[f32], ys: &mut [f32]) {
        self.see(ats(xs), us, fs, vec![ys.as_ptr() as usize, ys.len()]);
        ys[0] = self.0 as f32;
    }
}
impl FunctionBwImpl for F {
    fn call(&self, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], us: &[u32], fs: &[f32], gx: &mut Tensor) {
        let mut v = ats(xs);
        v.extend(ats(ys));
        v.extend(ats(gys));
        self.see(v, us, fs, vec![at(gx)]);
    }
}
struct Nothing;
impl DeviceImpl for Nothing {
    fn identifier(&self) -> String {
        "Nothing".to_string()
    }
    fn new_handle(&self, _size: u32) -> AtomicPtr<c_void> {
        AtomicPtr::new(16 as *mut c_void)
    }
    fn drop_handle(&self, _h: &AtomicPtr<c_void>) {}
}

// every sequence of registrations and calls over two names and four kinds
fn registry(job: u32) {
    let seen = RefCell::new(Seen::default());
    let mut dev = Device::new(Nothing);
    vx::check(dev.identifier() == "Nothing", "extension: a device answers with its own identifier");
    let names = ["sum_fw_impl", "f"];
    // last tag registered per kind and name
    let mut reg = [[0u32; 2]; 4];
    let (k0, k1) = (job % 4, job / 4);
    for step in 0..3 {
        let k = if step == 1 { k1 } else { k0 } as usize;
        let n = vx::choose(2) as usize;
        let tag = 10 + step;
        reg[k][n] = tag;
        match k {
            0 => dev.register_fw_impl(names[n], F(tag, &seen)),
            1 => dev.register_fw_u32_impl(names[n], F(tag, &seen)),
            2 => dev.register_fw_f32_impl(names[n], F(tag, &seen)),
            _ => dev.register_bw_impl(names[n], F(tag, &seen)),
        }
    }
    let n_x = vx::choose(3) as usize;
    let (us, fs) = ([vx::u32_in(0, u32::MAX), vx::u32_in(0, u32::MAX)], [vx::f32_any()]);
    let us = &us[..vx::choose(3) as usize];
    let fs = &fs[..vx::choose(2) as usize];
    let k = vx::choose(4) as usize;
    let n = vx::choose(2) as usize;
    let mut y = dev.new_tensor(Shape::new(&[2], 1));
    let ts: Vec<Tensor> = (0..4).map(|_| dev.new_tensor(Shape::new(&[3], 2))).collect();
    let xs: Vec<&Tensor> = ts.iter().take(n_x).collect();
    if reg[k][n] == 0 {
        vx::expect_panic(true);
    }
    let mut want = ats(&xs);
    let mut fu = [0u32; 3];
    let mut ff = [0f32; 3];
    let yp = at(&y);
    let out = match k {
        0 => {
            dev.call_fw_impl(names[n], &xs, us, fs, &mut [&mut y]);
            vec![yp]
        }
        1 => {
            dev.call_fw_u32_impl(names[n], &xs, us, fs, &mut fu);
            vec![fu.as_ptr() as usize, 3]
        }
        2 => {
            dev.call_fw_f32_impl(names[n], &xs, us, fs, &mut ff);
            vec![ff.as_ptr() as usize, 3]
        }
        _ => {
            dev.call_bw_impl(names[n], &xs, &[&ts[2]], &[&ts[3]], us, fs, &mut y);
            want.push(at(&ts[2]));
            want.push(at(&ts[3]));
            vec![yp]
        }
    };
    if reg[k][n] == 0 {
        vx::check(false, UNKNOWN);
    }
    let s = seen.borrow();
    vx::check(s.calls == 1 && s.tag == reg[k][n], LATEST);
    vx::check(s.xs == want && s.ys == out && s.us.len() == us.len() && s.fs.len() == fs.len(), EXACT);
    for i in 0..us.len() {
        vx::check(s.us[i] == us[i], EXACT);
    }
    for i in 0..fs.len() {
        vx::bits(s.fs[i], fs[i], EXACT);
    }
    match k {
        1 => vx::check(fu[0] == s.tag && fu[1] == 0, EXACT),
        2 => vx::check(ff[0] == s.tag as f32 && ff[1] == 0., EXACT),
        _ => (),
    }
}

/// A device that keeps every number negated, in storage of its own kind.
struct Neg;
struct Cells(Vec<Cell<f32>>);
unsafe fn cells<'a>(t: &'a Tensor) -> &'a [Cell<f32>] {
    let c = &*(t.handle().load(Ordering::Acquire) as *const Cells);
    &c.0[..t.shape().size() as usize]
}
impl DeviceImpl for Neg {
    fn identifier(&self) -> String {
        "Neg".to_string()
    }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        let v = (0..size).map(|_| Cell::new(99.)).collect();
        AtomicPtr::new(Box::into_raw(Box::new(Cells(v))) as *mut c_void)
    }
    fn drop_handle(&self, h: &AtomicPtr<c_void>) {
        drop(unsafe { Box::from_raw(h.load(Ordering::Acquire) as *mut Cells) })
    }
}
/// a forward function of the device from a function on element lists
struct Fw(fn(&[Vec<f32>], &[f32], usize) -> Vec<f32>, bool);
fn plain(t: &Tensor) -> Vec<f32> {
    unsafe { cells(t) }.iter().map(|c| -c.get()).collect()
}
fn store(t: &Tensor, v: &[f32]) {
    let c = unsafe { cells(t) };
    for i in 0..c.len() {
        c[i].set(-v[i]);
    }
}
impl FunctionFwImpl for Fw {
    fn call(&self, xs: &[&Tensor], _us: &[u32], fs: &[f32], ys: &mut [&mut Tensor]) {
        let mut v: Vec<Vec<f32>> = xs.iter().map(|x| plain(x)).collect();
        if self.1 {
            v.push(plain(ys[0]));
        }
        let r = (self.0)(&v, fs, ys[0].shape().size() as usize);
        store(ys[0], &r);
    }
}
impl FunctionFwF32Impl for Fw {
    fn call(&self, xs: &[&Tensor], _us: &[u32], _fs: &[f32], ys: &mut [f32]) {
        ys.copy_from_slice(&plain(xs[0]));
    }
}
struct MulBw(usize);
impl FunctionBwImpl for MulBw {
    fn call(&self, xs: &[&Tensor], _ys: &[&Tensor], gys: &[&Tensor], _us: &[u32], _fs: &[f32], gx: &mut Tensor) {
        let (o, g, mut r) = (plain(xs[1 - self.0]), plain(gys[0]), plain(gx));
        for i in 0..r.len() {
            r[i] += o[i] * g[i];
        }
        store(gx, &r);
    }
}
fn neg_device<'d>() -> Device<'d> {
    let mut dev = Device::new(Neg);
    dev.register_fw_impl("reset_tensor_impl", Fw(|_, k, n| vec![k[0]; n], false));
    dev.register_fw_impl("reset_tensor_by_slice_impl", Fw(|_, k, _| k.to_vec(), false));
    dev.register_fw_impl("reset_tensor_by_tensor_impl", Fw(|x, _, _| x[0].clone(), false));
    dev.register_fw_f32_impl("tensor_to_vector_impl", Fw(|x, _, _| x[0].clone(), false));
    dev.register_fw_impl("mul_fw_impl", Fw(|x, _, n| (0..n).map(|i| x[0][i] * x[1][i]).collect(), false));
    dev.register_fw_impl("add_assign_impl", Fw(|x, _, n| (0..n).map(|i| x[1][i] + x[0][i]).collect(), true));
    dev.register_fw_impl("sub_assign_impl", Fw(|x, _, n| (0..n).map(|i| x[1][i] - x[0][i]).collect(), true));
    dev.register_fw_impl("mul_const_fw_impl", Fw(|x, k, n| (0..n).map(|i| x[0][i] * k[0]).collect(), false));
    dev.register_bw_impl("mul_bw_a_impl", MulBw(0));
    dev.register_bw_impl("mul_bw_b_impl", MulBw(1));
    dev
}
struct One<'d> {
    p: Parameter<'d>,
}
impl<'d> Model<'d> for One<'d> {
    fn parameters(&self) -> Vec<&Parameter<'d>> {
        vec![&self.p]
    }
    fn parameters_mut(&mut self) -> Vec<&mut Parameter<'d>> {
        vec![&mut self.p]
    }
}

// a device of the user's own: tensors, graphs and training reach its storage through its functions only
fn device(job: u32) {
    let heap = vx::live_heap();
    {
        let dev = neg_device();
        let naive = Naive::new();
        vx::check(&dev == &dev && !(&dev == &naive), "extension: a device equals itself only");
        let (a, b, c) = (vx::floats(2), vx::floats(2), vx::floats(2));
        let s = Shape::new(&[2], 1);
        let t = dev.new_tensor_by_slice(s, &a);
        same(&t, &a, "extension: a device's storage holds what was given");
        let u = dev.copy_tensor(&t);
        same(&u, &a, "extension: a device's storage holds what was given");
        let mut m = One { p: Parameter::new(dev.new_tensor_by_slice(s, &b), dev.new_tensor_by_constant(s, 0.)) };
        let mut opt = prima_undine::optimizers::SGD::new(0.5);
        opt.configure_model(&mut m);
        let other = naive.new_tensor_by_slice(s, &c);
        match job {
            0 => {
                // operands of another device are refused
                let own = vx::choose(2) == 1;
                vx::expect_panic(true);
                let _ = if own { dev.new_tensor(s) } else { &t * &other };
                if own {
                    let _ = &other * &t;
                }
                vx::check(false, "extension: operands of another device are refused");
            }
            1 => {
                // a function the device does not have is refused
                vx::expect_panic(true);
                let _ = t.exp();
                vx::check(false, UNKNOWN);
            }
            _ => {
                if job == 3 {
                    // a loaded model is moved onto the user's device
                    let host = |v: &[f32]| Tensor::new_host_tensor(s, v.to_vec());
                    m = One { p: Parameter::new(host(&b), host(&[0., 0.])) };
                    let st = vx::floats(2);
                    m.p.stats.insert("s".to_string(), RefCell::new(host(&st)));
                    m.move_to_device(&dev);
                    same(&m.p.stats["s"].borrow(), &st, "extension: moving onto a user's device");
                    same(&m.p.value, &b, "extension: moving onto a user's device");
                }
                {
                    let x = Node::from(&t);
                    let p = Node::from(&mut m.p);
                    let w = Node::from(dev.new_tensor_by_slice(s, &c));
                    let y = &x * &p * &p * w;
                    let v: Vec<f32> = (0..2).map(|i| a[i] * b[i] * b[i] * c[i]).collect();
                    close_v(&y.to_vec(), &v, "extension: a graph on a user's device");
                    y.backward();
                }
                let g: Vec<f32> = (0..2).map(|i| 2. * a[i] * b[i] * c[i]).collect();
                close(&m.p.gradient, &g, "extension: gradients on a user's device");
                opt.update_model(&mut m);
                let v: Vec<f32> = (0..2).map(|i| b[i] - 0.5 * g[i]).collect();
                close(&m.p.value, &v, "extension: training on a user's device");
                same(&m.p.gradient, &[0., 0.], "extension: training on a user's device");
                same(&t, &a, "extension: operands keep their values");
            }
        }
    }
    vx::check(vx::live_heap() == heap, "extension: a device's storage is given back");
}

/// y0 = 2 a + b, y1 = a b; notes what it is given
struct Op2<'d> {
    dev: &'d Device<'d>,
    log: *const RefCell<Vec<f32>>,
}
impl<'a, 'd> Operator<'a, 'd> for Op2<'d> {
    fn name(&self) -> String {
        "Op2".to_string()
    }
    fn device(&self) -> &'d Device<'d> {
        self.dev
    }
    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
        vec![x[0], x[1]]
    }
    fn forward(&self, x: &[&Tensor], y: &mut [&mut Tensor<'a>]) {
        vx::check(x.len() == 2 && y.len() == 2, EXACT);
        let (a, b) = (x[0].to_vec(), x[1].to_vec());
        for (k, y) in y.iter_mut().enumerate() {
            y.alloc();
            let v: Vec<f32> = (0..a.len()).map(|i| if k == 0 { 2. * a[i] + b[i] } else { a[i] * b[i] }).collect();
            y.device().reset_tensor_by_slice(y, &v);
        }
    }
    fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        vx::check(x.len() == 2 && y.len() == 2 && gy.len() == 2 && gx.len() == 2, EXACT);
        let (a, b) = (x[0].to_vec(), x[1].to_vec());
        let (g0, g1) = (gy[0].to_vec(), gy[1].to_vec());
        {
            let mut l = unsafe { &*self.log }.borrow_mut();
            l.extend_from_slice(&y[0].to_vec());
            l.extend_from_slice(&y[1].to_vec());
        }
        for k in 0..2 {
            let d: Vec<f32> = (0..a.len()).map(|i| if k == 0 { 2. * g0[i] + b[i] * g1[i] } else { g0[i] + a[i] * g1[i] }).collect();
            let mut gx = gx[k].borrow_mut();
            let d = self.dev.new_tensor_by_slice(gx.shape(), &d);
            *gx += &d;
        }
    }
}
// an operator of the user's own between built-in ones
fn operator(job: u32) {
    let dev = Naive::new();
    junk(&dev, 3, 16);
    let log = RefCell::new(vec![]);
    let (d, bt) = ([(&[2][..], 1), (&[], 2), (&[2], 2)])[job as usize % 3];
    let (a, b) = (Ref::sym(d, 1), Ref::sym(d, bt));
    let s = Shape::new(d, 1);
    let mut p = Parameter::new(a.tensor(&dev), dev.new_tensor_by_constant(s, 0.));
    let tb = b.tensor(&dev);
    let same_operand = bt == 1 && vx::choose(2) == 1;
    let used = vx::choose(4);
    let mut want = vec![];
    let mut e = vec![];
    {
        let n = Node::from(&mut p);
        // an operand of one sample takes part as several where the other has several
        let x = if bt == 2 { n + Node::from(dev.new_tensor_by_constant(tb.shape(), 0.)) } else { n };
        let z = Node::from(&tb);
        let y = Node::create(Op2 { dev: &dev, log: &log }, &[&x, if same_operand { &x } else { &z }]);
        vx::check(y.len() == 2, "extension: one node per result of the operator");
        let r = match used {
            0 => &y[0] * 3.,
            1 => &y[1] * 3.,
            2 => &y[0] * &y[1],
            _ => &y[1] * &y[1] + &y[0] * 2.,
        };
        for i in 0..b.v.len() {
            let xa = a.v[i % a.v.len()];
            let xb = if same_operand { xa } else { b.v[i] };
            let (y0, y1) = (2. * xa + xb, xa * xb);
            e.push((y0, y1));
            want.push(match used {
                0 => y0 * 3.,
                1 => y1 * 3.,
                2 => y0 * y1,
                _ => y1 * y1 + y0 * 2.,
            });
        }
        close_v(&r.to_vec(), &want, "extension: the values of a graph with a user's operator");
        r.backward();
    }
    let l = log.borrow();
    vx::check(l.len() == 2 * b.v.len(), "extension: the operator is differentiated once");
    for i in 0..b.v.len() {
        vx::feq(l[i], e[i].0, "extension: the operator sees its own results");
        vx::feq(l[b.v.len() + i], e[i].1, "extension: the operator sees its own results");
    }
    let one = vec![1.; want.len()];
    let g = vx::vjp(&want, &one, &a.v);
    close(&p.gradient, &g, "extension: gradients through a user's operator");
    same(&p.value, &a.v, "extension: operands keep their values");
}

/// A user's optimizer: value -= scale * rate * gradient^2, counts what it is asked for.
struct Sq {
    epoch: u32,
    scale: f32,
    decay: f32,
    clip: f32,
    rate: f32,
    calls: *const RefCell<Vec<(usize, f32)>>,
}
impl OptimizerBase for Sq {
    fn epoch(&mut self) -> &mut u32 {
        &mut self.epoch
    }
    fn get_learning_rate_scaling(&self) -> f32 {
        self.scale
    }
    fn set_learning_rate_scaling(&mut self, s: f32) {
        self.scale = s;
    }
    fn get_weight_decay(&self) -> f32 {
        self.decay
    }
    fn set_weight_decay(&mut self, s: f32) {
        self.decay = s;
    }
    fn get_gradient_clipping(&self) -> f32 {
        self.clip
    }
    fn set_gradient_clipping(&mut self, s: f32) {
        self.clip = s;
    }
}
impl Optimizer for Sq {
    fn configure_parameter(&self, p: &mut Parameter) {
        p.add_stat("Sq.n", p.shape());
    }
    fn update_parameter(&self, scale: f32, p: &mut Parameter) {
        unsafe { &*self.calls }.borrow_mut().push((at(p), scale));
        let k = scale * self.rate;
        let d = k * &p.gradient * &p.gradient;
        p.value -= &d;
        *p.stats["Sq.n"].borrow_mut() += &p.gradient;
    }
}
struct Two<'d> {
    a: Parameter<'d>,
    b: Parameter<'d>,
}
impl<'d> Model<'d> for Two<'d> {
    fn parameters(&self) -> Vec<&Parameter<'d>> {
        vec![&self.a, &self.b]
    }
    fn parameters_mut(&mut self) -> Vec<&mut Parameter<'d>> {
        vec![&mut self.a, &mut self.b]
    }
}
// an optimizer of the user's own: decay, clipping, scale, counting and resetting are done for it
fn optimizer(job: u32) {
    let dev = Naive::new();
    let calls = RefCell::new(vec![]);
    let scale = vx::f32_finite();
    let rate = vx::f32_finite();
    vx::assume(scale >= 0. && scale <= 2. && rate >= -2. && rate <= 2.);
    let (decay, clip) = (if job & 1 == 1 { 0.25 } else { 0. }, if job & 2 == 2 { vx::pick(&[0.5, 8.]) } else { 0. });
    let start = vx::u32_in(0, 70000);
    let mut o = Sq { epoch: start, scale, decay, clip, rate, calls: &calls };
    let (s2, s0) = (Shape::new(&[2], 1), Shape::new(&[], 1));
    let x: Vec<f32> = if job & 2 == 2 { vec![1., -2., 0.5] } else { vx::floats(3) };
    let g: Vec<f32> = if job & 2 == 2 { vec![-0.5, 3., 1.5] } else { vx::floats(3) };
    let mut m = Two {
        a: Parameter::new(dev.new_tensor_by_slice(s2, &x[..2]), dev.new_tensor_by_slice(s2, &g[..2])),
        b: Parameter::new(dev.new_tensor_by_slice(s0, &x[2..]), dev.new_tensor_by_slice(s0, &g[2..])),
    };
    o.configure_model(&mut m);
    vx::check(m.a.has_stat("Sq.n") && m.b.has_stat("Sq.n"), "extension: every parameter of the model is configured");
    o.update_model(&mut m);
    let mut e: Vec<f32> = (0..3).map(|i| g[i] + decay * x[i]).collect();
    if clip > 0. {
        let n = e.iter().map(|x| x * x).sum::<f32>();
        if n > clip * clip {
            let k = clip / n.sqrt();
            for x in &mut e {
                *x *= k;
            }
        }
    }
    let v: Vec<f32> = (0..3).map(|i| x[i] - scale * rate * e[i] * e[i]).collect();
    close(&m.a.value, &v[..2], "extension: a user's update rule is given the prepared gradient");
    close(&m.b.value, &v[2..], "extension: a user's update rule is given the prepared gradient");
    close(&m.a.stats["Sq.n"].borrow(), &e[..2], "extension: a user's state is kept with its parameter");
    close(&m.b.stats["Sq.n"].borrow(), &e[2..], "extension: a user's state is kept with its parameter");
    same(&m.a.gradient, &[0., 0.], "extension: gradients are reset after the step");
    same(&m.b.gradient, &[0.], "extension: gradients are reset after the step");
    vx::check(o.epoch == start + 1, "extension: the step is counted");
    let c = calls.borrow();
    let (pa, pb) = (at(&m.a), at(&m.b));
    vx::check(c.len() == 2 && [pa, pb].iter().all(|p| c.iter().any(|x| x.0 == *p)), "extension: every parameter is updated once");
    for x in c.iter() {
        vx::bits(x.1, scale, "extension: the learning-rate scale is handed over");
    }
}

/// A user's initializer: the i-th element is base + i.
struct Ramp {
    base: f32,
    calls: Cell<u32>,
}
impl Initializer for Ramp {
    fn apply(&self, t: &mut Tensor) {
        self.calls.set(self.calls.get() + 1);
        vx::check(!t.valid(), "extension: an initializer is given a tensor without storage");
        t.alloc();
        let v: Vec<f32> = (0..t.shape().size()).map(|i| self.base + i as f32).collect();
        t.device().reset_tensor_by_slice(t, &v);
    }
}
fn initializer(job: u32) {
    let dev = Naive::new();
    junk(&dev, 3, 16);
    let d = dims(2, 3);
    let r = Ramp { base: vx::f32_finite(), calls: Cell::new(0) };
    if job == 1 {
        vx::expect_panic(true);
        let _ = dev.new_parameter(Shape::new(&d, 2), &r);
        vx::check(false, "extension: a parameter has no minibatch");
    }
    let p = dev.new_parameter(Shape::new(&d, 1), &r);
    vx::check(r.calls.get() == 1, "extension: the initializer is used once");
    shape_is(p.shape(), &d, 1, "extension: the shape asked for");
    shape_is(p.gradient.shape(), &d, 1, "extension: the shape asked for");
    let n = p.shape().size() as usize;
    let v: Vec<f32> = (0..n).map(|i| r.base + i as f32).collect();
    close(&p.value, &v, "extension: the values of the initializer");
    same(&p.gradient, &vec![0.; n], "extension: a new parameter has a zero gradient");
    vx::check(p.stats.len() == 0, "extension: a new parameter has no state");
}

harnesses! { "c17";
    "registry": 16 => registry;
    "device": 4 => device;
    "operator": 3 => operator;
    "optimizer": 4 => optimizer;
    "initializer": 2 => initializer;
}
