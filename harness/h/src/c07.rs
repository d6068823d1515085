//! C07: backpropagation. The oracle is the derivative, taken by the engine, of the value the real graph
//! has computed.
use crate::ops;
use crate::util::*;
use crate::vx;
use prima_undine_contrib::functions::ContribFunctions;

/// value and symbolic earlier gradient
fn param<'d>(dev: &'d Device<'d>, x: &Ref) -> (Parameter<'d>, Vec<f32>) {
    let g = vx::floats(x.v.len());
    let p = Parameter::new(x.tensor(dev), dev.new_tensor_by_slice(x.shape(), &g));
    (p, g)
}
fn judge_v(w: &[f32], g0: &[f32], v: &[f32], l: &str) {
    vx::check(w.len() == v.len(), l);
    for i in 0..w.len() {
        vx::feq(w[i], g0[i] + v[i], l);
    }
}

// every operation, its output weighted by unknown constants
fn op(job: u32) {
    let dev = Naive::new();
    junk(&dev, 4, 32);
    let c = ops::setup(job, true);
    let (mut pa, ga) = if c.a.b == 1 { let (p, g) = param(&dev, &c.a); (Some(p), g) } else { (None, vec![0.; c.a.v.len()]) };
    let dummy = Ref::new(&[], 1, &[0.]);
    let br = c.b.as_ref().unwrap_or(&dummy);
    let (mut pb, gb) = if br.b == 1 { let (p, g) = param(&dev, br); (Some(p), g) } else { (None, vec![0.; br.v.len()]) };
    let (ta, tb) = (c.a.tensor(&dev), br.tensor(&dev));
    let (za, zb, ia, ib);
    {
        let na = match pa.as_mut() {
            Some(p) => Node::from(p),
            None => Node::from(&ta),
        };
        let nb = match pb.as_mut() {
            Some(p) => Node::from(p),
            None => Node::from(&tb),
        };
        let ys = ops::node_op(&c.p, &na, if c.b.is_some() { Some(&nb) } else { None });
        // a selection of the outputs
        let n = ys.len();
        let m = if n == 1 { 1 } else { 1 + vx::choose((1 << n.min(3)) - 1) };
        let mut z: Option<Node> = None;
        for (i, y) in ys.iter().enumerate() {
            if m >> i & 1 == 1 {
                let w = vx::floats(y.shape().size() as usize);
                let w = Node::from(dev.new_tensor_by_slice(y.shape(), &w));
                let e = y * w;
                z = Some(match z {
                    None => e,
                    Some(q) => q + e,
                });
            }
        }
        let z = z.unwrap();
        let zv = z.to_vec();
        z.backward();
        let one = vec![1.; zv.len()];
        za = vx::vjp(&zv, &one, &c.a.v);
        zb = if c.b.is_some() { vx::vjp(&zv, &one, &br.v) } else { vec![] };
        ia = if c.a.b > 1 { na.inner_gradient().to_vec() } else { vec![] };
        ib = if c.b.is_some() && br.b > 1 { nb.inner_gradient().to_vec() } else { vec![] };
        // the value is not disturbed
        let again = z.to_vec();
        for i in 0..zv.len() {
            vx::bits(zv[i], again[i], "backward: the node's value is unchanged");
        }
    }
    let l = "backward: the parameter receives the derivative on top of its earlier gradient";
    match &pa {
        Some(p) => {
            judge_v(&p.gradient.to_vec(), &ga, &za, l);
            same(&p.value, &c.a.v, "backward: parameter value unchanged");
        }
        None => judge_v(&ia, &ga, &za, "backward: the input node holds the derivative"),
    }
    if c.b.is_some() {
        match &pb {
            Some(p) => {
                judge_v(&p.gradient.to_vec(), &gb, &zb, l);
                same(&p.value, &br.v, "backward: parameter value unchanged");
            }
            None => judge_v(&ib, &gb, &zb, "backward: the input node holds the derivative"),
        }
    }
}

/// extends the list by one operation over its members
fn grow<'a, 'd>(ns: &mut Vec<Node<'a, 'd>>, kinds: &[u32]) {
    let n = ns.len() as u32;
    let y = match vx::pick(kinds) {
        0 => { let (i, j) = (vx::choose(n), vx::choose(n)); &ns[i as usize] * &ns[j as usize] }
        1 => { let (i, j) = (vx::choose(n), vx::choose(n)); &ns[i as usize] - &ns[j as usize] }
        2 => ns[vx::choose(n) as usize].tanh(),
        3 => {
            // two outputs, both used, in the other order
            let v = ns[vx::choose(n) as usize].split(0, 2);
            Node::concat(&[&v[1], &v[0]], 0)
        }
        4 => {
            // one of two outputs used
            let v = ns[vx::choose(n) as usize].split(0, 2);
            v[vx::choose(2) as usize].broadcast(0, 2)
        }
        5 => { let (i, j) = (vx::choose(n), vx::choose(n)); &ns[i as usize] + &ns[j as usize] }
        _ => { let (i, j) = (vx::choose(n), vx::choose(n)); Node::concat(&[&ns[i as usize], &ns[j as usize]], 0).slice(0, 1, 3) }
    };
    ns.push(y);
}

// every graph of a few operations over two parameters and an input
fn dag(job: u32) {
    let dev = Naive::new();
    let t = vx::thorough();
    let steps = if job < 8 { 2 } else { 3 };
    let (p, q, c) = (Ref::sym(&[2], 1), Ref::sym(&[2], 1), Ref::sym(&[2], if job % 2 == 0 { 1 } else { 2 }));
    let (mut pp, gp) = param(&dev, &p);
    let (mut pq, gq) = param(&dev, &q);
    let ct = c.tensor(&dev);
    let (vp, vq);
    {
        let mut ns = vec![Node::from(&mut pp)];
        let root;
        if steps == 2 {
            ns.push(Node::from(&mut pq));
            ns.push(Node::from(&ct));
            let k: &[u32] = match job / 2 {
                0 => &[0, 1],
                1 => &[2, 3, 4],
                2 => &[5, 6],
                _ => &[0, 3, 4],
            };
            grow(&mut ns, k);
            grow(&mut ns, &[0, 1, 2, 3, 4, 5, 6]);
            root = ns.len() - 1;
        } else {
            ns.push(if job % 2 == 0 { Node::from(&mut pq) } else { Node::from(&ct) });
            let first: &[u32] = match job / 2 - 4 {
                0 => &[0],
                1 => &[1, 2],
                2 => &[3],
                _ => &[4],
            };
            grow(&mut ns, first);
            grow(&mut ns, &[0, 3, 4]);
            grow(&mut ns, if t { &[0, 1, 2, 3, 4] } else { &[0, 4] });
            if t {
                grow(&mut ns, &[0]);
            }
            root = ns.len() - 1;
        }
        let zv = ns[root].to_vec();
        ns[root].backward();
        let one = vec![1.; zv.len()];
        vp = vx::vjp(&zv, &one, &p.v);
        vq = vx::vjp(&zv, &one, &q.v);
    }
    let l = "graph: every parameter receives its full derivative";
    judge_v(&pp.gradient.to_vec(), &gp, &vp, l);
    judge_v(&pq.gradient.to_vec(), &gq, &vq, l);
    same(&pp.value, &p.v, "graph: values unchanged");
    same(&pq.value, &q.v, "graph: values unchanged");
}

// a parameter used at several depths and on both sides
fn deep(job: u32) {
    let dev = Naive::new();
    let (p, q) = (Ref::sym(&[2], 1), Ref::sym(&[2], 1));
    let (mut pp, gp) = param(&dev, &p);
    let (mut pq, gq) = param(&dev, &q);
    let (vp, vq);
    {
        let a = Node::from(&mut pp);
        let b = Node::from(&mut pq);
        let n = if vx::thorough() { 6 } else { 4 };
        let mut x = &a * &a;
        for i in 0..n {
            x = match (job + vx::choose(2)) % 4 {
                0 => &x + &a,
                1 => &b - &x,
                2 => x.clone_like() * &a,
                _ => {
                    let s = x.split(0, 2);
                    &s[(i % 2) as usize].broadcast(0, 2) + &x
                }
            };
        }
        let zv = x.to_vec();
        x.backward();
        let one = vec![1.; zv.len()];
        vp = vx::vjp(&zv, &one, &p.v);
        vq = vx::vjp(&zv, &one, &q.v);
    }
    let l = "deep graph: every use counts exactly once";
    judge_v(&pp.gradient.to_vec(), &gp, &vp, l);
    judge_v(&pq.gradient.to_vec(), &gq, &vq, l);
}
// operations with three and four operands of different depths, in every order
fn wide(job: u32) {
    let dev = Naive::new();
    let (p, q) = (Ref::sym(&[2], 1), Ref::sym(&[2], 1));
    let (mut pp, gp) = param(&dev, &p);
    let (mut pq, gq) = param(&dev, &q);
    let (vp, vq);
    {
        let a = Node::from(&mut pp);
        let b = Node::from(&mut pq);
        let c = &a * &b;
        let d = &c * &a;
        let e = d.tanh();
        let ns = [&a, &b, &c, &d, &e];
        let k = if job < 4 { 3 } else { 4 };
        let sel: Vec<&Node> = (0..k).map(|i| if job % 4 == 3 && i > 0 { ns[(i + vx::choose(2)) as usize % 5] } else { ns[vx::choose(if k == 3 { 5 } else { 3 }) as usize] }).collect();
        let z = match job % 4 {
            0 => Node::concat(&sel, 0),
            1 => Node::concat(&sel, 2),
            2 => Node::batch_concat(&sel),
            _ => Node::slice_sum(&sel),
        };
        let w = vx::floats(z.shape().size() as usize);
        let z = &z * Node::from(dev.new_tensor_by_slice(z.shape(), &w));
        let zv = z.to_vec();
        z.backward();
        let one = vec![1.; zv.len()];
        vp = vx::vjp(&zv, &one, &p.v);
        vq = vx::vjp(&zv, &one, &q.v);
    }
    let l = "wide graph: every operand of an operation with many operands is reached";
    judge_v(&pp.gradient.to_vec(), &gp, &vp, l);
    judge_v(&pq.gradient.to_vec(), &gq, &vq, l);
}
trait CloneLike {
    fn clone_like(&self) -> Self;
}
impl<'a, 'd> CloneLike for Node<'a, 'd> {
    fn clone_like(&self) -> Self {
        self + 0.
    }
}

// several backward passes over one graph, in any order, and over a second graph
fn history(job: u32) {
    let dev = Naive::new();
    let (p, q) = (Ref::sym(&[2], 1), Ref::sym(&[2], 1));
    let (mut pp, gp) = param(&dev, &p);
    let (mut pq, gq) = param(&dev, &q);
    let mut want_p = gp.clone();
    let mut want_q = gq.clone();
    let steps = if vx::thorough() { 3 + (job < 4) as u32 } else { 2 + (job < 4) as u32 };
    let mut add = |zv: &[f32], want_p: &mut Vec<f32>, want_q: &mut Vec<f32>| {
        let one = vec![1.; zv.len()];
        for (w, v) in want_p.iter_mut().zip(vx::vjp(zv, &one, &p.v)) {
            *w += v;
        }
        for (w, v) in want_q.iter_mut().zip(vx::vjp(zv, &one, &q.v)) {
            *w += v;
        }
    };
    for round in 0..2 {
        if round == 1 {
            if vx::choose(2) == 1 {
                pp.reset_gradient();
                want_p = vec![0.; 2];
                same(&pq.gradient, &pq.gradient.to_vec(), "history: resetting one parameter leaves the others");
            }
            if job < 4 {
                break;
            }
        }
        let a = Node::from(&mut pp);
        let b = Node::from(&mut pq);
        let x = &a * &b;
        let s = x.split(0, 2);
        let y = match job % 4 {
            0 => &x * &a,
            1 => &s[0].broadcast(0, 2) * &x,
            2 => Node::concat(&[&s[1], &s[0]], 0) - &b,
            _ => s[1].broadcast(0, 2) * s[0].broadcast(0, 2),
        };
        let z = &y + &x;
        let all = [&x, &y, &z, &s[0], &s[1]];
        for _ in 0..if round == 0 { steps } else { 1 } {
            let n = all[vx::choose(5) as usize];
            match vx::choose(2) {
                0 => {
                    n.backward();
                    add(&n.to_vec(), &mut want_p, &mut want_q);
                }
                _ => n.forward(),
            }
        }
    }
    let l = "history: each backward pass adds the derivative of its node, once";
    judge_v(&pp.gradient.to_vec(), &vec![0.; 2], &want_p, l);
    judge_v(&pq.gradient.to_vec(), &vec![0.; 2], &want_q, l);
}

// long chains, nodes with many uses, operations with many operands and many parameters
fn large(job: u32) {
    let dev = Naive::new();
    let n = if vx::thorough() { 120 } else { 45 };
    let m = if job == 3 { 19 } else { 3 };
    let rs: Vec<Ref> = (0..m).map(|_| Ref::sym(&[2], 1)).collect();
    let mut ps: Vec<(Parameter, Vec<f32>)> = rs.iter().map(|r| param(&dev, r)).collect();
    let gs: Vec<Vec<f32>> = ps.iter().map(|p| p.1.clone()).collect();
    let mut vs = vec![];
    {
        let ns: Vec<Node> = ps.iter_mut().map(|p| Node::from(&mut p.0)).collect();
        let z = match job {
            0 | 1 => {
                // a chain; the parameters enter all along it
                let mut x = &ns[0] * &ns[1];
                for i in 0..n {
                    let a = &ns[i % 3];
                    x = match (i + job as usize) % 7 {
                        0 => &x + a,
                        1 => a - &x,
                        2 => {
                            let s = x.split(0, 2);
                            Node::concat(&[&s[1], &s[0]], 0)
                        }
                        3 => &x * 0.5,
                        4 => x.transpose().transpose() - a,
                        5 => Node::concat(&[a, &x], 0).slice(0, 1, 3),
                        _ => {
                            let s = x.split(0, 2);
                            &s[i % 2].broadcast(0, 2) + &x
                        }
                    };
                }
                x
            }
            2 => {
                // one node, used over and over, directly and through others
                let x = &ns[0] * &ns[1];
                let mut all: Vec<Node> = vec![];
                for i in 0..n / 3 {
                    all.push(match i % 3 {
                        0 => &x * &ns[2],
                        1 => &x - &x,
                        _ => x.split(0, 2)[i % 2].broadcast(0, 2),
                    });
                }
                let mut r: Vec<&Node> = all.iter().collect();
                r.push(&x);
                r.push(&x);
                Node::batch_concat(&r).batch_sum()
            }
            3 => {
                // many parameters, each used in two places
                let r: Vec<&Node> = ns.iter().chain(ns.iter().rev()).collect();
                let c = Node::concat(&r, 1);
                let s = Node::slice_sum(&r);
                c.sum(1) + s
            }
            5..=7 => {
                // hundreds of operands or results
                let weights = |d: &[u32], b: u32| {
                    let s = Shape::new(d, b);
                    let w: Vec<f32> = (0..s.size()).map(|i| (i * 7 % 23) as f32 - 10.5).collect();
                    Node::from(dev.new_tensor_by_slice(s, &w))
                };
                let r: Vec<&Node> = (0..300).map(|i| &ns[i * i % 3]).collect();
                match job {
                    5 => Node::concat(&r, 0) * weights(&[600], 1),
                    6 => (Node::batch_concat(&r) * weights(&[2], 300)).batch_sum(),
                    _ => {
                        let parts = Node::concat(&r[..150], 0).split(0, 300);
                        let q: Vec<&Node> = (0..300).filter(|i| i % 4 == 2).map(|i| &parts[i * 7 % 300]).collect();
                        let c = Node::concat(&q, 1);
                        &c * weights(&[1, q.len() as u32], 1) + Node::batch_split(&Node::batch_concat(&q), q.len() as u32)[17].broadcast(1, q.len() as u32)
                    }
                }
            }
            8 => {
                // deeper than any small counter
                let mut x = &ns[0] * 1.;
                let mut far = vec![];
                for i in 0..300 {
                    if i % 70 == 0 {
                        far.push(&x * 1.5);
                    }
                    x = if i % 4 == 1 { &ns[i % 3] - &x } else { &x + &ns[i % 3] };
                }
                for f in &far {
                    x = f + x;
                }
                x
            }
            4 => {
                // an operation with many results, used in another order, one of them twice, one not at all
                let x = &ns[0] * &ns[1];
                let l = Node::concat(&[&x, &ns[2], &x, &ns[0], &ns[1], &ns[2], &x, &x], 0);
                let s = l.split(0, 16);
                let mut r: Vec<&Node> = (0..15).map(|i| &s[i * 7 % 16]).collect();
                r.push(&s[3]);
                let y = Node::concat(&r, 0);
                let w: Vec<f32> = (0..16).map(|i| i as f32 - 4.5).collect();
                y * Node::from(dev.new_tensor_by_slice(Shape::new(&[16], 1), &w))
            }
            _ => unreachable!(),
        };
        let zv = z.to_vec();
        z.backward();
        let one = vec![1.; zv.len()];
        for r in &rs {
            vs.push(vx::vjp(&zv, &one, &r.v));
        }
    }
    for i in 0..ps.len() {
        judge_v(&ps[i].0.gradient.to_vec(), &gs[i], &vs[i], "large graph: every parameter receives its full derivative");
        same(&ps[i].0.value, &rs[i].v, "large graph: values unchanged");
    }
}

// high axes
fn tall_axes(job: u32) {
    let n = ops::AXIAL.len() as u32;
    set_tall([5, 7][(job / n) as usize]);
    op(ops::AXIAL[(job % n) as usize])
}

harnesses! { "c07";
    "tall": 2 * ops::AXIAL.len() as u32 => tall_axes;
    "op": ops::N => op;
    "dag": 16 => dag;
    "deep": 4 => deep;
    "wide": 8 => wide;
    "history": 8 => history;
    "large": 9 => large;
}
