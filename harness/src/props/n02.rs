//! Neural networks: forward pass and gradient descent.
use crate::util::*;
use miniboosts::*;

#[derive(Clone, Copy, PartialEq)]
enum Act {
    Soft(f64),
    Sig(f64),
    Relu(f64),
    Id,
}
use Act::*;
impl Act {
    fn real(self) -> Activation {
        match self {
            Soft(e) => Activation::SoftMax(e),
            Sig(e) => Activation::Sigmoid(e),
            Relu(t) => Activation::ReLu(t),
            Id => Activation::Id,
        }
    }
    fn eval(self, u: &[f64]) -> Vec<f64> {
        match self {
            Soft(eta) => {
                // shifted by the largest entry
                let mut top = u[0];
                for v in u {
                    if *v > top {
                        top = *v;
                    }
                }
                let e: Vec<f64> = u.iter().map(|v| (eta * (*v - top)).exp()).collect();
                let z = sum(&e);
                e.iter().map(|v| *v / z).collect()
            }
            Sig(eta) => u.iter().map(|v| 1.0 / (1.0 + (-eta * *v).exp())).collect(),
            Relu(t) => u.iter().map(|v| if *v > t { *v } else { 0.0 }).collect(),
            Id => u.to_vec(),
        }
    }
    /// the derivative by the inputs of a function of the outputs, given its
    /// derivative by the outputs
    fn pull(self, u: &[f64], g: &[f64]) -> Vec<f64> {
        match self {
            Soft(eta) => {
                let p = self.eval(u);
                let mut d = vec![];
                for i in 0..p.len() {
                    let mut x = 0.0;
                    for k in 0..p.len() {
                        // dp_k / du_i
                        x = x + g[k] * eta * p[k] * (if i == k { 1.0 - p[i] } else { 0.0 - p[i] });
                    }
                    d.push(x);
                }
                d
            }
            Sig(eta) => self.eval(u).iter().zip(g).map(|(s, g)| eta * *s * (1.0 - *s) * *g).collect(),
            Relu(t) => u
                .iter()
                .zip(g)
                .map(|(v, g)| {
                    if *v == t {
                        prune("the slope of the rectifier at its threshold");
                    }
                    if *v > t {
                        *g
                    } else {
                        0.0
                    }
                })
                .collect(),
            Id => g.to_vec(),
        }
    }
}

#[derive(Clone)]
struct Net {
    w: Vec<Vec<Vec<f64>>>,
    b: Vec<Vec<f64>>,
    act: Vec<Act>,
}
impl Net {
    fn size(dims: &[usize]) -> usize {
        (1..dims.len()).map(|l| dims[l] * (dims[l - 1] + 1)).sum()
    }
    /// the draws in one of the orders in which they may be used
    fn new(dims: &[usize], act: &[Act], draws: &[f64], order: usize) -> Net {
        let mut it = draws.iter().copied();
        let mut net = Net { w: vec![], b: vec![], act: act.to_vec() };
        for l in 1..dims.len() {
            let (r, c) = (dims[l], dims[l - 1]);
            let mut w = vec![vec![0.0; c]; r];
            let mut b = vec![0.0; r];
            if order == 1 {
                for x in b.iter_mut() {
                    *x = it.next().unwrap();
                }
            }
            for i in 0..r {
                if order == 3 {
                    b[i] = it.next().unwrap();
                }
                for j in 0..c {
                    w[i][j] = it.next().unwrap();
                }
                if order == 2 {
                    b[i] = it.next().unwrap();
                }
            }
            if order == 0 {
                for x in b.iter_mut() {
                    *x = it.next().unwrap();
                }
            }
            net.w.push(w);
            net.b.push(b);
        }
        net
    }
    /// inputs and affine values of every layer; the output
    fn run(&self, x: &[f64]) -> (Vec<Vec<f64>>, Vec<Vec<f64>>, Vec<f64>) {
        let (mut ins, mut us) = (vec![], vec![]);
        let mut z = x.to_vec();
        for l in 0..self.w.len() {
            let u: Vec<f64> = (0..self.b[l].len()).map(|i| dot(&self.w[l][i], &z) + self.b[l][i]).collect();
            ins.push(z);
            z = self.act[l].eval(&u);
            us.push(u);
        }
        (ins, us, z)
    }
    /// the answer is the one of this network (either one at a tie)
    fn answers(&self, x: &[f64], got: f64, t: f64) -> B {
        let o = self.run(x).2;
        if o.len() == 1 {
            return close(got, 2.0 * o[0] - 1.0, t);
        }
        or(vec![
            and(vec![ge(o[0], o[1] - t), close(got, -o[0], t)]),
            and(vec![ge(o[1], o[0] - t), close(got, o[1], t)]),
        ])
    }
    /// one step of gradient descent over the batch
    fn step(&mut self, rows: &[(Vec<f64>, f64)], rate: f64) {
        let old = self.clone();
        for (x, y) in rows {
            let (ins, us, out) = old.run(x);
            let want = if out.len() == 1 { vec![*y] } else if *y > 0.0 { vec![0.0, 1.0] } else { vec![1.0, 0.0] };
            // derivative of the loss by the affine values of the last layer
            let mut g: Vec<f64> = (0..out.len()).map(|k| out[k] - want[k]).collect();
            for l in (0..old.w.len()).rev() {
                for i in 0..g.len() {
                    for j in 0..ins[l].len() {
                        self.w[l][i][j] = self.w[l][i][j] - rate * g[i] * ins[l][j];
                    }
                    self.b[l][i] = self.b[l][i] - rate * g[i];
                }
                if l > 0 {
                    let out: Vec<f64> = (0..us[l - 1].len())
                        .map(|j| sum(&(0..g.len()).map(|i| g[i] * old.w[l][i][j]).collect::<Vec<_>>()))
                        .collect();
                    g = old.act[l - 1].pull(&us[l - 1], &out);
                }
            }
        }
    }
}

fn learner(s: &Sample, dims: &[usize], act: &[Act], epochs: usize, iters: usize, batch: usize) -> NeuralNetwork {
    let mut nn = NeuralNetwork::init(s);
    for (d, a) in dims[1..].iter().zip(act) {
        nn = nn.append(*d, a.real());
    }
    nn.n_epoch(epochs).n_iter(iters).minibatch_size(batch)
}
fn rows_sample(rows: &[(Vec<f64>, f64)]) -> Sample {
    let names = ["a", "b", "c"];
    let d = rows[0].0.len();
    dense_sample(
        (0..d).map(|j| (names[j], rows.iter().map(|r| r.0[j]).collect())).collect(),
        rows.iter().map(|r| r.1).collect(),
    )
}
/// the order in which the draws become the weights, found by running untrained
/// networks on a probe
fn order_of_draws(dims: &[usize]) -> usize {
    let act = vec![Id; dims.len() - 1];
    let n = Net::size(dims);
    let draws: Vec<f64> = (0..n).map(|k| [0.5, -1.25, 2.0, 0.75, -0.5, 1.5, 3.0][k % 7] + k as f64 / 16.0).collect();
    let rows: Vec<(Vec<f64>, f64)> = vec![([1.0, 3.0, -2.0][..dims[0]].to_vec(), 1.0), ([-2.5, 0.25, 4.0][..dims[0]].to_vec(), -1.0)];
    let s = rows_sample(&rows);
    queue_normals(draws.clone());
    let h = learner(&s, dims, &act, 0, 0, 1).produce(&s, &[0.5, 0.5]);
    for order in 0..4 {
        let net = Net::new(dims, &act, &draws, order);
        if (0..2).all(|i| branch(net.answers(&rows[i].0, h.confidence(&s, i), 1e-9))) {
            return order;
        }
    }
    check("affine-layers", false);
    finish()
}

const DRAWS: [f64; 14] = [0.5, -1.25, 2.0, 0.75, -0.5, 1.5, 3.0, 0.25, -0.75, 1.0, -2.0, 0.375, 1.125, -1.5];
#[derive(Clone, Copy, PartialEq)]
enum Free {
    Query,
    /// the last weight drawn
    Bias,
    Nothing,
}
type Rows = Vec<(Vec<f64>, f64)>;
fn two() -> Rows {
    vec![(vec![1.0, 2.0], 1.0), (vec![-0.5, 1.5], -1.0)]
}
fn line() -> Rows {
    vec![(vec![0.5], 1.0), (vec![-0.25], -1.0)]
}
fn three() -> Rows {
    vec![(vec![0.5], 1.0), (vec![-0.25], -1.0), (vec![1.0], 1.0)]
}

pub fn jobs(r: &mut Reg, thorough: bool) {
    // forward pass, everything arbitrary
    for (name, dims, act) in [
        ("id-1", &[2usize, 1][..], vec![Id]),
        ("sigmoid-1", &[1, 1], vec![Sig(2.0)]),
        ("softmax-2", &[1, 2], vec![Soft(1.0)]),
        ("id-2", &[2, 2], vec![Id]),
        ("relu-relu", &[1, 2, 1], vec![Relu(0.5), Id]),
        ("relu-softmax", &[1, 1, 2], vec![Relu(0.0), Soft(0.5)]),
        ("three-layers", &[1, 1, 2, 1], vec![Id, Id, Id]),
    ] {
        job(r, format!("forward-{name}"), move || forward(dims, &act));
    }
    // training with fixed initial weights; the query is arbitrary
    job(r, "train-id-1", || train(&[2, 1], &[Id], two(), 1, 1, Free::Query));
    job(r, "train-id-1-steps", || train(&[2, 1], &[Id], two(), 2, 2, Free::Query));
    job(r, "train-sigmoid-1", || train(&[2, 1], &[Sig(1.0)], two(), 1, 1, Free::Bias));
    job(r, "train-softmax-2", || train(&[2, 2], &[Soft(1.0)], two(), 1, 1, Free::Nothing));
    job(r, "train-id-id", || train(&[1, 2, 1], &[Id, Id], three(), 1, 1, Free::Query));
    job(r, "train-id-id-id", || train(&[1, 2, 2, 1], &[Id, Id, Id], line(), 1, 1, Free::Query));
    job(r, "train-relu-id", || train(&[1, 2, 1], &[Relu(0.25), Id], three(), 1, 2, Free::Query));
    job(r, "train-relu-softmax", || train(&[1, 2, 2], &[Relu(0.25), Soft(1.0)], line(), 1, 1, Free::Bias));
    job(r, "train-sigmoid-id", || train(&[1, 2, 1], &[Sig(1.0), Id], line(), 1, 1, Free::Bias));
    job(r, "train-sigmoid-softmax", || train(&[1, 2, 2], &[Sig(0.5), Soft(1.0)], line(), 1, 1, Free::Nothing));
    job(r, "train-softmax-id", || train(&[1, 2, 1], &[Soft(1.0), Id], line(), 1, 1, Free::Nothing));
    job(r, "train-softmax3-id", || train(&[1, 3, 1], &[Soft(0.5), Id], line(), 1, 1, Free::Nothing));
    job(r, "train-wide", || train(&[2, 4, 3, 2], &[Id, Relu(-0.25), Id], two(), 1, 1, Free::Nothing));
    job(r, "train-wide-query", || train(&[2, 3, 4, 1], &[Id, Id, Id], two(), 1, 1, Free::Query));
    job(r, "default-minibatch-1", || default_batch(1));
    job(r, "default-minibatch-3", || default_batch(3));
    // arbitrary data and weights, one step
    job(r, "step-id", || step(&[2, 1], &[Id], 1));
    job(r, "step-id-batch", || step(&[1, 1], &[Id], 2));
    job(r, "step-id-id", || step(&[1, 1, 1], &[Id, Id], 1));
    job(r, "step-relu-id", || step(&[1, 2, 1], &[Relu(0.5), Id], 1));
    job(r, "step-id-2", || step(&[1, 2], &[Id], 1));
    // the answer moves to the label
    job(r, "towards-the-label-sigmoid", || towards(&[1, 1], &[Sig(1.0)]));
    job(r, "towards-the-label-softmax", || towards(&[1, 2], &[Soft(1.0)]));
    job(r, "part-of-the-sample", part);
    if thorough {
        job(r, "step-id-id-wide", || step(&[2, 2, 1], &[Id, Id], 1));
        job(r, "step-id-id-batch", || step(&[1, 2, 1], &[Id, Id], 2));
        job(r, "step-relu-relu-id", || step(&[1, 1, 1, 1], &[Relu(0.5), Relu(-1.0), Id], 1));
        job(r, "train-relu-relu-softmax", || train(&[1, 2, 2, 2], &[Relu(0.25), Relu(0.0), Soft(1.0)], line(), 1, 2, Free::Nothing));
        job(r, "train-sigmoid-sigmoid-id", || train(&[1, 2, 1, 1], &[Sig(1.0), Sig(2.0), Id], line(), 1, 1, Free::Bias));
    }
}

fn value(name: &str) -> f64 {
    any_in(name, -4.0, 4.0, false, false)
}

fn forward(dims: &[usize], act: &[Act]) {
    let order = order_of_draws(dims);
    let draws: Vec<f64> = (0..Net::size(dims)).map(|_| value("weight")).collect();
    let rows: Vec<(Vec<f64>, f64)> = vec![((0..dims[0]).map(|_| value("x")).collect(), 1.0)];
    let s = rows_sample(&rows);
    queue_normals(draws.clone());
    let h = learner(&s, dims, act, 0, 0, 1).produce(&s, &[1.0]);
    let got = h.confidence(&s, 0);
    observe("confidence", got);
    check("composition-of-the-layers", Net::new(dims, act, &draws, order).answers(&rows[0].0, got, 1e-9));
}

fn train(dims: &[usize], act: &[Act], rows: Rows, epochs: usize, iters: usize, free: Free) {
    let order = order_of_draws(dims);
    let size = Net::size(dims);
    let draws: Vec<f64> = (0..size).map(|k| if k + 1 == size && free == Free::Bias { value("weight") } else { DRAWS[k % 14] + (k / 14) as f64 / 8.0 }).collect();
    let n = rows.len();
    let s = rows_sample(&rows);
    queue_normals(draws.clone());
    let h = learner(&s, dims, act, epochs, iters, n).produce(&s, &uniform(n));
    let mut net = Net::new(dims, act, &draws, order);
    for _ in 0..epochs * iters {
        net.step(&rows, 0.001 / n as f64);
    }
    let queries: Vec<Vec<f64>> = if free == Free::Query {
        vec![(0..dims[0]).map(|_| value("q")).collect()]
    } else {
        vec![rows[0].0.clone(), rows[1].0.clone(), [2.0, -1.0][..dims[0]].to_vec()]
    };
    for q in &queries {
        let t = rows_sample(&[(q.clone(), 1.0)]);
        let got = h.confidence(&t, 0);
        observe("confidence", got);
        check("gradient-descent", net.answers(q, got, 1e-8));
    }
}

/// one step from arbitrary weights on arbitrary rows
fn step(dims: &[usize], act: &[Act], n: usize) {
    let order = order_of_draws(dims);
    let draws: Vec<f64> = (0..Net::size(dims)).map(|_| value("weight")).collect();
    let rows: Vec<(Vec<f64>, f64)> =
        (0..n).map(|_| ((0..dims[0]).map(|_| value("x")).collect(), if choose("label", 2) == 0 { 1.0 } else { -1.0 })).collect();
    let s = rows_sample(&rows);
    queue_normals(draws.clone());
    let h = learner(&s, dims, act, 1, 1, n).produce(&s, &uniform(n));
    let mut net = Net::new(dims, act, &draws, order);
    net.step(&rows, 0.001 / n as f64);
    let got = h.confidence(&s, 0);
    observe("confidence", got);
    check("gradient-descent", net.answers(&rows[0].0, got, 1e-8));
}

/// a step on a single example does not lower its confidence
fn towards(dims: &[usize], act: &[Act]) {
    let y = if choose("label", 2) == 0 { 1.0 } else { -1.0 };
    let x = value("x");
    let rows = [(vec![x], y)];
    let s = rows_sample(&rows);
    // bias-free first weights: only the sum of both matters
    let draws: Vec<f64> = (0..Net::size(dims)).map(|k| if k == 0 { value("weight") } else { 0.25 }).collect();
    queue_normals(draws.clone());
    let f = learner(&s, dims, act, 0, 0, 1).produce(&s, &[1.0]);
    queue_normals(draws);
    let h = learner(&s, dims, act, 1, 1, 1).produce(&s, &[1.0]);
    let (before, after) = (f.confidence(&s, 0), h.confidence(&s, 0));
    observe("before", before);
    observe("after", after);
    check("answers-move-to-the-label", ge(y * after, y * before - 1e-9));
}

/// without a size the minibatch is some part of the sample
fn default_batch(n: usize) {
    let dims = &[1usize, 1][..];
    let act = &vec![Id][..];
    let order = order_of_draws(dims);
    let draws = vec![value("weight"), value("bias")];
    let rows: Vec<(Vec<f64>, f64)> = [(vec![0.5], 1.0), (vec![-1.0], -1.0), (vec![2.0], 1.0)][..n].to_vec();
    let s = rows_sample(&rows);
    queue_normals(draws.clone());
    let nn = NeuralNetwork::init(&s).append(1, Activation::Id).n_epoch(1).n_iter(1);
    let h = nn.produce(&s, &uniform(n));
    let nets: Vec<Net> = (1..1usize << n)
        .map(|part| {
            let rows: Rows = (0..n).filter(|i| part >> i & 1 == 1).map(|i| rows[i].clone()).collect();
            let mut net = Net::new(dims, act, &draws, order);
            net.step(&rows, 0.001 / rows.len() as f64);
            net
        })
        .collect();
    let q = value("q");
    let t = rows_sample(&[(vec![q], 1.0)]);
    let got = h.confidence(&t, 0);
    check("gradient-of-a-default-minibatch", any_of(nets.len(), |k| nets[k].answers(&[q], got, 1e-9)));
}

/// minibatches smaller than the sample hold some rows of it
fn part() {
    let dims = &[1usize, 1][..];
    let act = &vec![Id][..];
    let order = order_of_draws(dims);
    let draws = vec![value("weight"), value("bias")];
    let rows: Vec<(Vec<f64>, f64)> = vec![(vec![0.5], 1.0), (vec![-1.0], -1.0), (vec![2.0], 1.0)];
    let s = rows_sample(&rows);
    queue_normals(draws.clone());
    let h = learner(&s, dims, act, 1, 1, 2).produce(&s, &uniform(3));
    let nets: Vec<Net> = [(0, 1), (0, 2), (1, 2)]
        .iter()
        .map(|(a, b)| {
            let mut n = Net::new(dims, act, &draws, order);
            n.step(&[rows[*a].clone(), rows[*b].clone()], 0.0005);
            n
        })
        .collect();
    let q = value("q");
    let t = rows_sample(&[(vec![q], 1.0)]);
    let got = h.confidence(&t, 0);
    check("gradient-of-a-minibatch", any_of(3, |k| nets[k].answers(&[q], got, 1e-9)));
}
