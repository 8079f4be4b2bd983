//! Shared harness pieces: symbolic samples, table hypotheses, scripted weak
//! learners.
use miniboosts::*;
use polars::prelude::*;
use std::cell::RefCell;
use std::rc::Rc;
pub use std::sync::Arc;
pub use vapi::*;

pub type Reg = vapi::Reg;

pub fn job(r: &mut Reg, name: impl Into<String>, f: impl Fn() + Send + Sync + 'static) {
    let g = move || {
        max_solves(usize::MAX);
        fix_draws(None);
        solver_error(None);
        queue_normals(vec![]);
        reset_clock();
        f()
    };
    let name = name.into();
    // for work on one job by hand
    if std::env::var("SYM_JOBS").map_or(true, |only| name.contains(&only)) {
        r.push((name, Arc::new(g)));
    }
}

/// a sample made of dense columns
pub fn dense_sample(cols: Vec<(&str, Vec<f64>)>, target: Vec<f64>) -> Sample {
    let cols = cols.into_iter().map(|(n, c)| Series::new(n, c)).collect();
    let df = DataFrame::new(cols).unwrap();
    Sample::from_dataframe(df, Series::new("class", target)).unwrap()
}

/// n rows, one uninformative feature (the row number), the given labels
pub fn labelled(labels: &[f64]) -> Sample {
    let f: Vec<f64> = (0..labels.len()).map(|i| i as f64).collect();
    dense_sample(vec![("row", f)], labels.to_vec())
}

/// every +-1 labelling of n rows (up to the solver-free fork)
pub fn any_labels(n: usize) -> Vec<f64> {
    (0..n).map(|_| if choose("label", 2) == 0 { 1.0 } else { -1.0 }).collect()
}

/// hypothesis given by its confidence on every row
#[derive(Clone, Debug, PartialEq)]
pub struct Table {
    pub conf: Vec<f64>,
}
impl Classifier for Table {
    fn confidence(&self, _s: &Sample, row: usize) -> f64 {
        self.conf[row]
    }
}
impl Regressor for Table {
    fn predict(&self, _s: &Sample, row: usize) -> f64 {
        self.conf[row]
    }
}

/// weak learner which returns the scripted hypotheses in order and records
/// every distribution it is handed
pub struct Script {
    pub hyps: Vec<Table>,
    pub seen: Rc<RefCell<Vec<Vec<f64>>>>,
    open: bool,
}
impl Script {
    /// runs that ask more often are outside of the stated bounds
    pub fn open(hyps: Vec<Vec<f64>>) -> Script {
        Script { open: true, ..Script::new(hyps) }
    }
    /// to be asked at most as often as there are hypotheses
    pub fn new(hyps: Vec<Vec<f64>>) -> Script {
        Script { hyps: hyps.into_iter().map(|conf| Table { conf }).collect(), seen: Rc::default(), open: false }
    }
    pub fn dists(&self) -> Vec<Vec<f64>> {
        self.seen.borrow().clone()
    }
    pub fn calls(&self) -> usize {
        self.seen.borrow().len()
    }
}
impl WeakLearner for Script {
    type Hypothesis = Table;
    fn produce(&self, _s: &Sample, dist: &[f64]) -> Table {
        let k = self.seen.borrow().len();
        self.seen.borrow_mut().push(dist.to_vec());
        if k >= self.hyps.len() {
            if self.open {
                prune("the weak learner is called more often than the stated number of rounds");
            }
            check("asks-no-more-than-needed", false);
            finish()
        }
        self.hyps[k].clone()
    }
}

pub fn sum(v: &[f64]) -> f64 {
    let mut s = 0.0;
    for x in v {
        s = s + *x;
    }
    s
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    assert_eq!(a.len(), b.len());
    let mut s = 0.0;
    for k in 0..a.len() {
        s = s + a[k] * b[k];
    }
    s
}
/// y_i h(x_i)
pub fn margins(y: &[f64], h: &[f64]) -> Vec<f64> {
    y.iter().zip(h).map(|(a, b)| *a * *b).collect()
}
pub fn edge(y: &[f64], h: &[f64], d: &[f64]) -> f64 {
    dot(&margins(y, h), d)
}
pub fn all(n: usize, f: impl Fn(usize) -> B) -> B {
    and((0..n).map(f).collect())
}
pub fn any_of(n: usize, f: impl Fn(usize) -> B) -> B {
    or((0..n).map(f).collect())
}
pub fn is_distribution(d: &[f64]) -> B {
    and(vec![eq(sum(d), 1.0), all(d.len(), |i| ge(d[i], 0.0))])
}
pub fn same(a: &[f64], b: &[f64]) -> B {
    if a.len() != b.len() {
        return false.into();
    }
    all(a.len(), |i| eq(a[i], b[i]))
}
/// every +-1 labelling with both classes present
pub fn two_class_labels(n: usize) -> Vec<f64> {
    let y = any_labels(n);
    if y.iter().all(|v| *v > 0.0) || y.iter().all(|v| *v < 0.0) {
        prune("both classes are present");
    }
    y
}
/// arbitrary confidences in [-1, 1]
pub fn confs(name: &str, n: usize) -> Vec<f64> {
    (0..n).map(|_| any_in(name, -1.0, 1.0, false, false)).collect()
}
/// an n x d table with every zero pattern; entries that are present are
/// arbitrary non-zero reals; arbitrary targets
pub fn sparse_table(n: usize, d: usize) -> (Vec<Vec<f64>>, Vec<Vec<bool>>, Vec<f64>) {
    let mut cells = vec![vec![0.0; d]; n];
    let mut present = vec![vec![false; d]; n];
    for i in 0..n {
        for j in 0..d {
            if choose("present", 2) == 1 {
                present[i][j] = true;
                cells[i][j] = any("cell");
                assume_fast(ne(cells[i][j], 0.0));
            }
        }
    }
    let y: Vec<f64> = (0..n).map(|_| any("y")).collect();
    (cells, present, y)
}
pub fn read_svmlight(cells: &[Vec<f64>], present: &[Vec<bool>], y: &[f64], base: usize) -> Sample {
    let mut text = String::new();
    for i in 0..y.len() {
        text += &format!("{}", y[i]);
        for j in 0..cells[i].len() {
            if present[i][j] {
                text += &format!(" {}:{}", j + base, cells[i][j]);
            }
        }
        text += "\n";
    }
    let dir = scratch_dir();
    let p = dir.join("data.svmlight");
    std::fs::write(&p, text).unwrap();
    let s = SampleReader::<_, &str>::default().file(p.clone()).read();
    std::fs::remove_dir_all(&dir).unwrap();
    s.unwrap()
}
/// arbitrary probability vector
pub fn simplex(name: &str, n: usize) -> Vec<f64> {
    let w: Vec<f64> = (0..n).map(|_| any_in(name, 0.0, 1.0, false, false)).collect();
    assume_fast(eq(sum(&w), 1.0));
    w
}
/// drive a booster by hand for at most `t` rounds; number of rounds that
/// asked to continue
pub fn rounds<Bo, W>(b: &mut Bo, wl: &W, t: usize) -> usize
where
    Bo: Booster<Table>,
    W: WeakLearner<Hypothesis = Table>,
{
    for k in 1..=t {
        if b.boost(wl, k).is_break() {
            return k - 1;
        }
    }
    t
}
/// `f` votes proportionally to `w` over the tables `hs` (weights normalised
/// to absolute sum one)
pub fn votes(f: &WeightedMajority<Table>, s: &Sample, w: &[f64], hs: &[Vec<f64>]) -> B {
    let z: f64 = w.iter().map(|x| if *x < 0.0 { -*x } else { *x }).fold(0.0, |a, b| a + b);
    let n = s.shape().0;
    all(n, |i| {
        let mut want = 0.0;
        for k in 0..w.len() {
            want = want + w[k] * hs[k][i];
        }
        eq(f.confidence(s, i) * z, want)
    })
}
pub fn uniform(n: usize) -> Vec<f64> {
    vec![1.0 / n as f64; n]
}
pub fn strictly_between(x: f64, lo: f64, hi: f64) -> B {
    and(vec![gt(x, lo), lt(x, hi)])
}

/// weak learner given by a function of the number of the call (from 0) and
/// the distribution
pub struct Probe<G> {
    f: G,
    calls: std::cell::Cell<usize>,
}
impl<G: Fn(usize, &[f64]) -> Vec<f64>> Probe<G> {
    pub fn new(f: G) -> Self {
        Probe { f, calls: Default::default() }
    }
    pub fn calls(&self) -> usize {
        self.calls.get()
    }
}
impl<G: Fn(usize, &[f64]) -> Vec<f64>> WeakLearner for Probe<G> {
    type Hypothesis = Table;
    fn produce(&self, _s: &Sample, dist: &[f64]) -> Table {
        let k = self.calls.get();
        self.calls.set(k + 1);
        Table { conf: (self.f)(k, dist) }
    }
}
/// every entry at most 1/nu
pub fn is_capped(d: &[f64], nu: f64) -> B {
    and(vec![is_distribution(d), all(d.len(), |i| le(d[i] * nu, 1.0))])
}
/// arbitrary probability vector with entries of at most 1/nu
pub fn capped_simplex(name: &str, n: usize, nu: f64) -> Vec<f64> {
    let w = simplex(name, n);
    assume_fast(all(n, |i| le(w[i] * nu, 1.0)));
    w
}
/// the extreme points of { d : sum d = 1, 0 <= d_i <= 1/nu }
pub fn capped_vertices(n: usize, nu: f64) -> Vec<Vec<f64>> {
    let full = nu.floor() as usize;
    let rest = 1.0 - full as f64 / nu;
    let mut out = vec![];
    for mask in 0..(1usize << n) {
        if mask.count_ones() as usize != full {
            continue;
        }
        let base: Vec<f64> = (0..n).map(|i| if mask >> i & 1 == 1 { 1.0 / nu } else { 0.0 }).collect();
        if full as f64 == nu {
            out.push(base);
            continue;
        }
        for k in 0..n {
            if mask >> k & 1 == 0 {
                let mut v = base.clone();
                v[k] = rest;
                out.push(v);
            }
        }
    }
    out
}
/// the smallest mean margin over the capped distributions is attained at a vertex
pub fn soft_margin_at_least(m: &[f64], nu: f64, v: f64) -> B {
    and(capped_vertices(m.len(), nu).iter().map(|d| ge(dot(d, m), v)).collect())
}
pub fn soft_margin_at_most(m: &[f64], nu: f64, v: f64) -> B {
    or(capped_vertices(m.len(), nu).iter().map(|d| le(dot(d, m), v)).collect())
}
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Signs,
    Halves,
    Quarters,
    Reals,
    /// one of three fixed hypotheses: for more rows and more rounds
    Bank,
    /// the signs of these
    SignBank,
}
impl Kind {
    pub fn hypothesis(self, n: usize) -> Vec<f64> {
        match self {
            Kind::Signs => any_labels(n),
            Kind::Halves => (0..n).map(|_| [-1.0, -0.5, 0.0, 0.5, 1.0][choose("confidence", 5)]).collect(),
            Kind::Quarters => (0..n).map(|_| [-0.75, -0.25, 0.0, 0.25, 0.75][choose("confidence", 5)]).collect(),
            Kind::Reals => confs("h", n),
            Kind::SignBank => Kind::Bank.hypothesis(n).into_iter().map(|x| if x > 0.0 { 1.0 } else { -1.0 }).collect(),
            Kind::Bank => {
                let k = choose("hypothesis", 3);
                (0..n)
                    .map(|i| match k {
                        0 => [1.0, -1.0, 1.0, -1.0, -1.0, 1.0][i],
                        1 => [-1.0, 1.0, 1.0, -1.0, 1.0, -1.0][i],
                        _ => [0.5, 1.0, -0.25, 1.0, -0.75, -1.0][i],
                    })
                    .collect()
            }
        }
    }
}
/// labels with both classes; rows of a class are interchangeable
pub fn pos_first(n: usize) -> Vec<f64> {
    let pos = 1 + choose("positive rows", n - 1);
    (0..n).map(|i| if i < pos { 1.0 } else { -1.0 }).collect()
}
/// a value of at least the tangents of x ln x at some points
pub fn entropy_from_below(x: f64) -> f64 {
    let t = any_in("tangent", -0.5, 1.0, false, false);
    for a in [0.02, 0.05, 0.1, 0.17, 0.25, 0.33, 0.42, 0.5, 0.6, 0.75, 0.9] {
        let a: f64 = a;
        assume_fast(ge(t, x * (a.ln() + 1.0) - a));
    }
    t
}
