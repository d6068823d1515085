//! C08: graphs evaluate to what the eager calls give.
use crate::ops;
use crate::util::*;
use crate::vx;
use prima_undine::Operator;
use std::cell::{Cell, RefCell};

fn bits_v(w: &[f32], v: &[f32], l: &str) {
    vx::check(w.len() == v.len(), l);
    for i in 0..w.len().min(v.len()) {
        vx::bits(w[i], v[i], l);
    }
}
const SHAPE: &str = "graph: the shape known before evaluation is the shape of the result";
const VALUE: &str = "graph: the values of the eager call";
const AGAIN: &str = "graph: evaluating again returns the same values";

fn op(job: u32) {
    let dev = Naive::new();
    junk(&dev, 4, 32);
    let c = ops::setup(job, false);
    let dummy = Ref::new(&[], 1, &[0.]);
    let br = c.b.as_ref().unwrap_or(&dummy);
    let (ta, tb) = (c.a.tensor(&dev), br.tensor(&dev));
    let two = c.b.is_some();
    let es = ops::tensor_op(&c.p, &ta, if two { Some(&tb) } else { None });
    let own = vx::choose(2) == 1;
    let na = if own { Node::from(c.a.tensor(&dev)) } else { Node::from(&ta) };
    let nb = if own { Node::from(br.tensor(&dev)) } else { Node::from(&tb) };
    let ys = ops::node_op(&c.p, &na, if two { Some(&nb) } else { None });
    vx::check(ys.len() == es.len(), "graph: number of results");
    let order = vx::choose(2);
    for i in 0..ys.len() {
        let i = if order == 0 { i } else { ys.len() - 1 - i };
        let before = ys[i].shape();
        vx::check(before == es[i].shape(), SHAPE);
        let v = ys[i].to_vec();
        bits_v(&v, &es[i].to_vec(), VALUE);
        vx::check(ys[i].inner_value().shape() == before, SHAPE);
        bits_v(&ys[i].to_vec(), &v, AGAIN);
    }
    bits_v(&na.to_vec(), &c.a.v, "graph: operands keep their values");
    same(&ta, &c.a.v, "graph: operands keep their values");
    if two {
        bits_v(&nb.to_vec(), &br.v, "graph: operands keep their values");
        same(&tb, &br.v, "graph: operands keep their values");
    }
}

// owned and borrowed operands, constants by value and by reference, on either side
fn overload(job: u32) {
    let dev = Naive::new();
    let o = job % 4;
    let form = job / 4;
    let (da, db): (&[u32], &[u32]) = vx::pick(&[(&[2][..], &[2][..]), (&[], &[2]), (&[2], &[]), (&[], &[])]);
    let (ba, bb) = batches(2);
    let (a, b) = (Ref::sym(da, ba), Ref::sym(db, bb));
    let k = vx::f32_finite();
    let (ta, tb) = (a.tensor(&dev), b.tensor(&dev));
    macro_rules! forms {
        ($o:tt) => {{
            let (na, nb) = (Node::from(&ta), Node::from(&tb));
            match form {
                0 => (&na $o &nb, &ta $o &tb),
                1 => (na $o &nb, a.tensor(&dev) $o &tb),
                2 => (&na $o nb, &ta $o b.tensor(&dev)),
                3 => (na $o nb, a.tensor(&dev) $o b.tensor(&dev)),
                4 => (&na $o k, &ta $o k),
                5 => (na $o k, a.tensor(&dev) $o k),
                6 => (&na $o &k, &ta $o &k),
                7 => (na $o &k, a.tensor(&dev) $o &k),
                8 => (k $o &na, k $o &ta),
                9 => (k $o na, k $o a.tensor(&dev)),
                10 => (&k $o &na, &k $o &ta),
                _ => (&k $o na, &k $o a.tensor(&dev)),
            }
        }};
    }
    let (n, e) = match o {
        0 => forms!(+),
        1 => forms!(-),
        2 => forms!(*),
        _ => forms!(/),
    };
    // and against the definition
    let d = if da.len() > 0 { da } else { db };
    let (d, rb) = if form >= 4 { (da, ba) } else { (d, ba.max(bb)) };
    let r = Ref::build(d, rb, &mut |c, s| {
        let x = if da.len() == 0 { a.at(&[], s) } else { a.at(c, s) };
        let y = if form >= 4 { k } else if db.len() == 0 { b.at(&[], s) } else { b.at(c, s) };
        let (x, y) = if form >= 8 { (y, x) } else { (x, y) };
        if o == 3 {
            vx::assume(y != 0.);
        }
        match o {
            0 => x + y,
            1 => x - y,
            2 => x * y,
            _ => x / y,
        }
    });
    vx::check(n.shape() == e.shape(), SHAPE);
    let v = n.to_vec();
    bits_v(&v, &e.to_vec(), VALUE);
    shape_is(n.shape(), &r.d, r.b, SHAPE);
    close_v(&v, &r.v, "graph: operator overloads follow their definition");
    same(&ta, &a.v, "graph: operands keep their values");
    same(&tb, &b.v, "graph: operands keep their values");
}

// a small network, requests in any order, backward in between
fn order(job: u32) {
    let dev = Naive::new();
    junk(&dev, 4, 32);
    let (x, w, c) = (Ref::sym(&[2], 2), Ref::sym(&[2, 2], 1), Ref::sym(&[2], 1));
    let (tx, tw, tc) = (x.tensor(&dev), w.tensor(&dev), c.tensor(&dev));
    let e0 = tw.matmul(&tx);
    let e1 = (&e0 + &tc).tanh();
    let e2 = e1.split(0, 2);
    let e3 = Tensor::concat(&[&e2[1], &e1], 0);
    let e4 = &e3.slice(0, 0, 2) * &e0;
    let e5 = e4.batch_sum();
    let es = [&e0, &e1, &e2[0], &e2[1], &e3, &e4, &e5];
    let ev: Vec<Vec<f32>> = es.iter().map(|e| e.to_vec()).collect();
    let mut pw = Parameter::new(w.tensor(&dev), dev.new_tensor_by_constant(Shape::new(&[2, 2], 1), 0.));
    let nx = Node::from(&tx);
    let nw = Node::from(&mut pw);
    let nc = Node::from(&tc);
    let n0 = nw.matmul(&nx);
    let n1 = (&n0 + &nc).tanh();
    let n2 = n1.split(0, 2);
    let n3 = Node::concat(&[&n2[1], &n1], 0);
    let n4 = &n3.slice(0, 0, 2) * &n0;
    let n5 = n4.batch_sum();
    let ns = [&n0, &n1, &n2[0], &n2[1], &n3, &n4, &n5];
    for (n, e) in ns.iter().zip(&es) {
        vx::check(n.shape() == e.shape(), SHAPE);
    }
    for q in 0..if vx::thorough() { 4 } else { 3 } {
        let i = if q == 0 { job } else { vx::choose(7) } as usize;
        match vx::choose(3) {
            0 => bits_v(&ns[i].to_vec(), &ev[i], VALUE),
            1 => ns[i].backward(),
            _ => {
                ns[i].forward();
                bits_v(&ns[i].inner_value().to_vec(), &ev[i], VALUE);
            }
        }
    }
    for (n, v) in ns.iter().zip(&ev) {
        bits_v(&n.to_vec(), v, VALUE);
        bits_v(&n.to_vec(), v, AGAIN);
    }
    same(&tx, &x.v, "graph: operands keep their values");
    same(&tc, &c.v, "graph: operands keep their values");
}

// an operation of the user's own, counting its evaluations
struct Counted<'c, 'd> {
    dev: &'d Device<'d>,
    n: &'c Cell<u32>,
    outs: usize,
}
impl<'arg, 'c: 'arg, 'd> Operator<'arg, 'd> for Counted<'c, 'd> {
    fn name(&self) -> String {
        String::new()
    }
    fn device(&self) -> &'d Device<'d> {
        self.dev
    }
    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
        vec![x[0]; self.outs]
    }
    fn forward(&self, x: &[&Tensor], y: &mut [&mut Tensor<'arg>]) {
        self.n.set(self.n.get() + 1);
        vx::check(y.len() == self.outs, "operation: receives its results");
        for q in x {
            vx::check(q.valid(), "operation: operands are evaluated first");
        }
        for (i, e) in y.iter_mut().enumerate() {
            let mut s = x[0] * ((i + 2) as f32);
            for q in &x[1..] {
                s = s + *q;
            }
            e.replace(s);
        }
    }
    fn backward(&self, _: &[&Tensor], _: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        for g in gx {
            *g.borrow_mut() += gy[0];
        }
    }
}
fn once(job: u32) {
    let dev = Naive::new();
    let x = Ref::sym(&[2], 1);
    let tx = x.tensor(&dev);
    let cs: Vec<Cell<u32>> = (0..4).map(|_| Cell::new(0)).collect();
    let nx = Node::from(&tx);
    let a = Node::create(Counted { dev: &dev, n: &cs[0], outs: 2 }, &[&nx]);
    // the shape of the sharing differs
    let args: Vec<&Node> = match job % 3 {
        0 => vec![&a[0], &a[1]],
        1 => vec![&a[1], &a[1]],
        _ => vec![&a[0], &nx],
    };
    let b = Node::create(Counted { dev: &dev, n: &cs[1], outs: 1 }, &args);
    let args: Vec<&Node> = match vx::choose(3) {
        0 => vec![&b[0], &a[0]],
        1 => vec![&a[1], &b[0]],
        _ => vec![&b[0], &b[0], &nx],
    };
    let c = Node::create(Counted { dev: &dev, n: &cs[2], outs: 2 }, &args);
    let d = Node::create(Counted { dev: &dev, n: &cs[3], outs: 1 }, &[&a[0]]);
    vx::check(cs.iter().all(|q| q.get() == 0), "graph: nothing is evaluated before it is asked for");
    let ns = [&a[0], &a[1], &b[0], &c[0], &c[1], &d[0]];
    let deps: [&[usize]; 6] = [&[0], &[0], &[0, 1], &[0, 1, 2], &[0, 1, 2], &[0, 3]];
    let mut want = [0u32; 4];
    for q in 0..if vx::thorough() { 4 } else { 3 } {
        let i = if q == 0 { job / 3 } else { vx::choose(6) } as usize;
        match vx::choose(3) {
            0 => ns[i].forward(),
            1 => {
                ns[i].to_vec();
            }
            _ => ns[i].backward(),
        }
        for k in 0..4 {
            if deps[i].contains(&k) {
                want[k] = 1;
            }
            let n = cs[k].get();
            vx::check(n <= 1, "graph: each operation is evaluated at most once");
            vx::check(n >= want[k], "graph: what a node needs is evaluated");
        }
    }
    let v = a[0].to_vec();
    close_v(&v, &[x.v[0] * 2., x.v[1] * 2.], VALUE);
}

// long chains and wide sharing of counted operations
fn large(job: u32) {
    let dev = Naive::new();
    let x = Ref::sym(&[2], 1);
    let tx = x.tensor(&dev);
    let n = if vx::thorough() { 150 } else { 60 };
    let cs: Vec<Cell<u32>> = (0..n).map(|_| Cell::new(0)).collect();
    let mut ns: Vec<Node> = vec![Node::from(&tx)];
    // which earlier nodes each operation takes, and which operation computes a node
    let mut args: Vec<Vec<usize>> = vec![];
    let mut by: Vec<usize> = vec![n];
    for i in 0..n {
        let l = ns.len();
        let a: Vec<usize> = match job {
            0 => vec![l - 1],
            1 => vec![l - 1, l / 2],
            2 => vec![l - 1, l - 1 - (i % 5).min(l - 1), 0],
            _ => vec![(i * 7) % l, (i * 3) % l],
        };
        let outs = 1 + i % 3;
        let r: Vec<&Node> = a.iter().map(|q| &ns[*q]).collect();
        let y = Node::create(Counted { dev: &dev, n: &cs[i], outs }, &r);
        for q in y {
            ns.push(q);
            by.push(i);
        }
        args.push(a);
    }
    let mut want = vec![0u32; n];
    for q in 0..3 {
        let i = match q {
            0 => ns.len() / 2,
            1 => ns.len() - 1,
            _ => ns.len() - 1 - job as usize,
        };
        match (q + job) % 3 {
            0 => ns[i].forward(),
            1 => {
                ns[i].to_vec();
            }
            _ => ns[i].backward(),
        }
        let mut todo = vec![i];
        while let Some(k) = todo.pop() {
            let o = by[k];
            if o < n && want[o] == 0 {
                want[o] = 1;
                todo.extend(&args[o]);
            }
        }
        for k in 0..n {
            vx::check(cs[k].get() <= 1, "large graph: each operation is evaluated at most once");
            vx::check(cs[k].get() >= want[k], "large graph: what a node needs is evaluated");
        }
    }
    same(&tx, &x.v, "graph: operands keep their values");
}

// evaluating, differentiating and dropping a graph takes no more stack the longer the graph
const STACK: &str = "long graph: the stack does not grow with the graph";
struct Deep<'c, 'd> {
    dev: &'d Device<'d>,
    seen: &'c [Cell<u64>; 2],
    drops: &'c Cell<u32>,
}
impl<'c, 'd> Deep<'c, 'd> {
    fn here(&self) {
        let s = vx::stack();
        self.seen[0].set(self.seen[0].get().min(s));
        self.seen[1].set(self.seen[1].get().max(s));
    }
}
impl<'arg, 'c: 'arg, 'd> Operator<'arg, 'd> for Deep<'c, 'd> {
    fn name(&self) -> String {
        String::new()
    }
    fn device(&self) -> &'d Device<'d> {
        self.dev
    }
    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
        vec![x[0]]
    }
    fn forward(&self, x: &[&Tensor], y: &mut [&mut Tensor<'arg>]) {
        self.here();
        y[0].replace(self.dev.copy_tensor(x[0]));
    }
    fn backward(&self, _: &[&Tensor], _: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        self.here();
        for g in gx {
            *g.borrow_mut() += gy[0];
        }
    }
}
impl<'c, 'd> Drop for Deep<'c, 'd> {
    fn drop(&mut self) {
        self.here();
        self.drops.set(self.drops.get() + 1);
    }
}
fn stack(job: u32) {
    let dev = Naive::new();
    let n = if vx::thorough() { 1200 } else { 500 };
    let fresh = || [Cell::new(u64::MAX), Cell::new(0)];
    let (seen, drops) = (fresh(), Cell::new(0));
    let v = vx::f32_finite();
    let mut ns: Vec<Node> = vec![Node::from(dev.new_tensor_by_slice(Shape::new(&[], 1), &[v]))];
    for i in 0..n {
        let l = ns.len();
        let a: Vec<&Node> = match job {
            0 => vec![&ns[l - 1]],
            1 => vec![&ns[l - 1], &ns[l - 1]],
            _ => vec![&ns[l - 1], &ns[l / 2]],
        };
        let y = Node::create(Deep { dev: &dev, seen: &seen, drops: &drops }, &a).pop().unwrap();
        if job != 2 && i % 50 != 0 {
            ns.pop();
        }
        ns.push(y);
    }
    let small = |what: &[Cell<u64>; 2]| {
        vx::check(what[1].get() - what[0].get() < 16384, STACK);
        what[0].set(u64::MAX);
        what[1].set(0);
    };
    match vx::choose(3) {
        0 => {}
        1 => {
            vx::bits(ns[ns.len() - 1].to_vec()[0], v, "long graph: the value arrives");
            small(&seen);
        }
        _ => {
            if job == 0 {
                ns[ns.len() - 1].backward();
                vx::feq(ns[0].inner_gradient().to_vec()[0], 1., "long graph: the gradient arrives");
                small(&seen);
            }
        }
    }
    // the nodes in either order
    if vx::choose(2) == 1 {
        ns.reverse();
    }
    while let Some(x) = ns.pop() {
        drop(x);
    }
    vx::check(drops.get() == n, "long graph: every operation is dropped once no node needs it");
    small(&seen);
}

// very many operands, results or positions: as the eager call
fn many(job: u32) {
    let dev = Naive::new();
    junk(&dev, 2, 2048);
    let n = 300u32;
    let v: Vec<f32> = (0..n).map(|i| if i % 32 == 7 { vx::f32_any() } else { i as f32 }).collect();
    let ts: Vec<Tensor> = if job < 2 { v.iter().map(|x| dev.new_tensor_by_constant(Shape::new(&[], 1), *x)).collect() } else { vec![] };
    let own = dev.new_tensor_by_slice(if job % 2 == 0 { Shape::new(&[n], 1) } else { Shape::new(&[], n) }, &v);
    let back: Vec<u32> = (0..n).map(|i| n - 1 - i).collect();
    let ns: Vec<Node> = ts.iter().map(|t| Node::from(t)).collect();
    let (rn, rt): (Vec<&Node>, Vec<&Tensor>) = (ns.iter().collect(), ts.iter().collect());
    let x = Node::from(&own);
    let eq = |a: &Node, b: &Tensor| {
        vx::check(a.shape() == b.shape(), "many: the shape of the eager call");
        bits_v(&a.to_vec(), &b.to_vec(), "many: the values of the eager call");
    };
    match job {
        0 => eq(&Node::concat(&rn, 0), &Tensor::concat(&rt, 0)),
        1 => eq(&Node::batch_concat(&rn), &Tensor::batch_concat(&rt)),
        2 | 3 => {
            let (a, b) = if job == 2 { (x.split(0, n), own.split(0, n)) } else { (x.batch_split(n), own.batch_split(n)) };
            vx::check(a.len() == b.len(), "many: as many results as the eager call");
            for i in 0..b.len() {
                eq(&a[(i * 7) % b.len()], &b[(i * 7) % b.len()]);
            }
        }
        _ => eq(&if job == 4 { x.pick(&back, 0) } else { x.batch_pick(&back) }, &if job == 4 { own.pick(&back, 0) } else { own.batch_pick(&back) }),
    }
}

// high axes
fn tall_axes(job: u32) {
    let n = ops::AXIAL.len() as u32;
    set_tall([5, 7][(job / n) as usize]);
    op(ops::AXIAL[(job % n) as usize])
}

harnesses! { "c08";
    "tall": 2 * ops::AXIAL.len() as u32 => tall_axes;
    "many": 6 => many;
    "op": ops::N => op;
    "overload": 48 => overload;
    "order": 7 => order;
    "once": 18 => once;
    "large": 4 => large;
    "stack": 3 => stack;
}
