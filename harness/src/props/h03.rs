//! Saving hypotheses: JSON and back, and trees as graphs.
use crate::util::*;
use miniboosts::*;
use serde::{de::DeserializeOwned, Serialize};

pub fn jobs(r: &mut Reg, thorough: bool) {
    let n = if thorough { 4 } else { 3 };
    for c in [Criterion::Edge, Criterion::Gini, Criterion::Twoing, Criterion::Entropy] {
        let name = format!("{c:?}").to_lowercase();
        job(r, format!("tree-{name}-depth1"), move || tree(n, 1, c));
        job(r, format!("tree-{name}-depth2"), move || tree(3, 2, c));
    }
    for c in [Criterion::Edge, Criterion::Gini] {
        job(r, format!("tree-{}-four-leaves", format!("{c:?}").to_lowercase()), move || four_leaves(thorough && c == Criterion::Edge, c));
    }
    job(r, "regression-four-leaves", four_leaves_regression);
    job(r, "regression-depth2", || regression(3, 2));
    job(r, "regression-depth3", || regression(3, 3));
    if thorough {
        job(r, "regression-n4-depth3", || regression(4, 3));
    }
    job(r, "naive-bayes", || bayes(&[&[0.0, 2.0, 4.0, 8.0]]));
    job(r, "naive-bayes-constant", || bayes(&[&[0.0, 2.0, 4.0, 8.0], &[2.0, 2.0, 2.0, 2.0]]));
    job(r, "majority-of-trees", majority);
    job(r, "majority-of-regressors", gbm);
    job(r, "grown-by-a-booster", boosted);
}

fn again<H: Serialize + DeserializeOwned>(h: &H) -> H {
    let text = match serde_json::to_string(h) {
        Ok(t) => t,
        Err(_) => {
            check("saved", false);
            finish()
        }
    };
    match serde_json::from_str(&text) {
        Ok(g) => g,
        Err(_) => {
            check("loaded", false);
            finish()
        }
    }
}
/// columns with values at least a bin apart, the boundaries of the bins being
/// numbers that floats represent exactly
fn columns(n: usize) -> Vec<(&'static str, Vec<f64>)> {
    let u = if n == 3 { 1.5 } else { 2.0 };
    vec![("a", (0..n).map(|i| base() + i as f64 * u).collect()), ("b", (0..n).map(|i| ((i * 2 + 1) % n) as f64 * 2.0 * u).collect())]
}
/// more digits than a narrower number keeps
fn base() -> f64 {
    33554432.0
}
fn weights(n: usize, strict: bool) -> Vec<f64> {
    let mut w: Vec<f64> = (1..n).map(|_| any_in("w", 0.0, 1.0, strict, strict)).collect();
    let last = 1.0 - sum(&w);
    assume_fast(if strict { gt(last, 0.0) } else { ge(last, 0.0) });
    w.push(last);
    w
}
/// the training rows and one that is arbitrary
fn probe(n: usize) -> Sample {
    let mut cols = columns(n);
    let (a, b) = (base() + any_in("a", -3.0, 6.0, false, false), any_in("b", -3.0, 6.0, false, false));
    cols[0].1.push(a);
    cols[1].1.push(b);
    dense_sample(cols, vec![1.0; n + 1])
}

/// an undirected graph with numbered nodes as this crate writes it: the answers
/// of the tree it shows
struct Graph {
    labels: Vec<(String, String)>,
    edges: Vec<(String, String, String)>,
}
fn graph(text: &str) -> Option<Graph> {
    let body = text.split_once('{')?.1.rsplit_once('}')?.0;
    let mut g = Graph { labels: vec![], edges: vec![] };
    for item in body.split(';').map(|s| s.trim()).filter(|s| !s.is_empty()) {
        let (head, rest) = item.split_once('[')?;
        let label = rest.split_once("label")?.1.split('"').nth(1)?.to_string();
        match head.split_once("--") {
            Some((a, b)) => g.edges.push((a.trim().to_string(), b.trim().to_string(), label)),
            None => g.labels.push((head.trim().to_string(), label)),
        }
    }
    Some(g)
}
impl Graph {
    /// None: the graph is no tree of questions, or the row is too close to a
    /// rounded threshold
    fn answer(&self, s: &Sample, row: usize) -> Option<Result<f64, ()>> {
        let roots: Vec<&String> = self.labels.iter().map(|l| &l.0).filter(|n| !self.edges.iter().any(|e| e.1 == **n)).collect();
        if roots.len() != 1 {
            return Some(Err(()));
        }
        let mut node = roots[0].clone();
        for _ in 0..self.labels.len() {
            let labels: Vec<&String> = self.labels.iter().filter(|l| l.0 == node).map(|l| &l.1).collect();
            if labels.len() != 1 {
                return Some(Err(()));
            }
            let out: Vec<&(String, String, String)> = self.edges.iter().filter(|e| e.0 == node).collect();
            if out.is_empty() {
                return Some(labels[0].trim().parse::<f64>().map_err(|_| ()));
            }
            let (f, t) = match labels[0].trim().trim_end_matches('?').split_once('<') {
                Some((f, t)) => (f.trim().to_string(), t.trim().parse::<f64>()),
                None => return Some(Err(())),
            };
            let t = match t {
                Ok(t) => t,
                Err(_) => return Some(Err(())),
            };
            let v = s[f][row];
            if v < t + 0.01 && v > t - 0.01 {
                return None;
            }
            let word = if v < t { "Yes" } else { "No" };
            let next: Vec<&String> = out.iter().filter(|e| e.2 == word).map(|e| &e.1).collect();
            if out.len() != 2 || next.len() != 1 {
                return Some(Err(()));
            }
            node = next[0].clone();
        }
        Some(Err(()))
    }
}
/// the drawing (with two decimals) of a tree gives the same answers
fn drawn(write: impl FnOnce(&std::path::Path) -> std::io::Result<()>, s: &Sample, want: &[f64], digits: f64) {
    let dir = scratch_dir();
    let p = dir.join("tree.dot");
    let r = write(&p);
    let text = std::fs::read_to_string(&p).unwrap_or_default();
    std::fs::remove_dir_all(&dir).unwrap();
    check("drawn", r.is_ok());
    let g = match graph(&text) {
        Some(g) => g,
        None => {
            check("the-drawing-is-a-graph", false);
            finish()
        }
    };
    for i in 0..want.len() {
        match g.answer(s, i) {
            Some(Ok(v)) => check("the-drawing-gives-the-same-answer", close(v, want[i], digits)),
            Some(Err(())) => check("the-drawing-is-a-tree-of-questions", false),
            None => {}
        }
    }
}

fn tree(n: usize, depth: usize, c: Criterion) {
    let y = pos_first(n);
    let w = weights(n, depth > 1 || c == Criterion::Entropy);
    let s = dense_sample(columns(n), y);
    let h = DecisionTreeBuilder::new(&s).max_depth(depth).criterion(c).build().produce(&s, &w);
    let q = probe(n);
    let want: Vec<f64> = (0..=n).map(|i| h.confidence(&q, i)).collect();
    observe("confidence", want[n]);
    let g = again(&h);
    check("same-answers-when-loaded", all(n + 1, |i| close(g.confidence(&q, i), want[i], 1e-9)));
    drawn(|p| h.to_dot_file(p), &q, &want, 1e-9);
}
fn regression(n: usize, depth: usize) {
    let y = confs("y", n);
    let s = dense_sample(columns(n), y);
    let h = RegressionTreeBuilder::new(&s).max_depth(depth).loss(GBMLoss::L2).build().produce(&s, &vec![0.0; n]);
    let q = probe(n);
    let want: Vec<f64> = (0..=n).map(|i| h.predict(&q, i)).collect();
    observe("prediction", want[n]);
    let g = again(&h);
    check("same-answers-when-loaded", all(n + 1, |i| close(g.predict(&q, i), want[i], 1e-9)));
    drawn(|p| h.to_dot_file(p), &q, &want, 0.0051);
}
/// alternating labels along one feature: trees with four leaves in every shape
fn four_leaves(more: bool, c: Criterion) {
    let n = 4;
    let y = vec![1.0, -1.0, 1.0, -1.0];
    let w = if more {
        weights(n, true)
    } else {
        let u = any_in("w", 0.0, 0.5, true, true);
        match choose("heavy", 4) {
            3 => vec![u, 0.125, 0.25, 0.625 - u],
            0 => vec![u, 0.125, 0.375, 0.5 - u],
            1 => vec![0.125, u, 0.5 - u, 0.375],
            _ => vec![0.375, u, 0.125, 0.5 - u],
        }
    };
    let s = dense_sample(vec![columns(n).remove(0)], y);
    let h = DecisionTreeBuilder::new(&s).max_depth(3).criterion(c).build().produce(&s, &w);
    let mut col = columns(n).remove(0);
    col.1.push(base() + any_in("a", -3.0, 9.0, false, false));
    let q = dense_sample(vec![col], vec![1.0; n + 1]);
    let want: Vec<f64> = (0..=n).map(|i| h.confidence(&q, i)).collect();
    let g = again(&h);
    check("same-answers-when-loaded", all(n + 1, |i| close(g.confidence(&q, i), want[i], 1e-9)));
    drawn(|p| h.to_dot_file(p), &q, &want, 1e-9);
}
fn four_leaves_regression() {
    let n = 4;
    // the largest jump first: between the last two rows, between the first two, in the middle
    let u = any_in("u", 0.0, 1.0, true, true);
    let y = match choose("shape", 3) {
        0 => vec![0.0, 4.0, 4.5 + u, 24.0],
        1 => vec![0.0, 20.0, 26.0, 26.5 + u],
        _ => vec![0.0, 1.0 + u, 32.0, 36.0],
    };
    let s = dense_sample(vec![columns(n).remove(0)], y);
    let h = RegressionTreeBuilder::new(&s).max_depth(4).loss(GBMLoss::L2).build().produce(&s, &vec![0.0; n]);
    let mut col = columns(n).remove(0);
    col.1.push(base() + any_in("a", -3.0, 9.0, false, false));
    let q = dense_sample(vec![col], vec![1.0; n + 1]);
    let want: Vec<f64> = (0..=n).map(|i| h.predict(&q, i)).collect();
    let g = again(&h);
    check("same-answers-when-loaded", all(n + 1, |i| close(g.predict(&q, i), want[i], 1e-9)));
    drawn(|p| h.to_dot_file(p), &q, &want, 0.0051);
}
fn bayes(cols: &[&[f64]]) {
    const NAMES: [&str; 2] = ["a", "b"];
    let s = dense_sample(cols.iter().enumerate().map(|(k, c)| (NAMES[k], c.to_vec())).collect(), vec![1.0, 1.0, -1.0, -1.0]);
    let zero = choose("zero", 3);
    let w = match zero {
        0 => vec![0.125, 0.375, 0.25, 0.25],
        1 => vec![0.5, 0.5, 0.0, 0.0],
        _ => vec![0.25, 0.25, 0.5, 0.0],
    };
    let h = GaussianNB::init().produce(&s, &w);
    let g = again(&h);
    let x = any_in("x", -20.0, 20.0, false, false);
    let q = dense_sample((0..cols.len()).map(|k| (NAMES[k], vec![if k == 0 { x } else { cols[k][0] }])).collect(), vec![1.0]);
    let (a, b) = (h.probabilities(&q, 0), g.probabilities(&q, 0));
    check("as-many-classes-when-loaded", a.len() == b.len());
    check("same-probabilities-when-loaded", all(a.len(), |k| and(vec![eq(a[k].0, b[k].0), close(a[k].1, b[k].1, 1e-9)])));
}
fn majority() {
    let n = 3;
    let y = pos_first(n);
    let s = dense_sample(columns(n), y);
    let wl = DecisionTreeBuilder::new(&s).max_depth(1).criterion(Criterion::Edge).build();
    let hs = [wl.produce(&s, &[0.25, 0.25, 0.5]), wl.produce(&s, &[0.125, 0.625, 0.25])];
    let f = WeightedMajority::from_slices(&[any_in("u", 0.0, 4.0, true, false), any_in("u", -4.0, 0.0, false, true)], &hs);
    let g = again(&f);
    let q = probe(n);
    check("as-many-members-when-loaded", f.hypotheses.len() == g.hypotheses.len() && f.weights.len() == g.weights.len());
    check("same-answers-when-loaded", all(n + 1, |i| close(g.confidence(&q, i), f.confidence(&q, i), 1e-9)));
}
fn gbm() {
    let n = 3;
    let s = dense_sample(columns(n), vec![1.0, -2.0, 4.0]);
    let wl = RegressionTreeBuilder::new(&s).max_depth(2).loss(GBMLoss::L2).build();
    let hs = [wl.produce(&s, &[0.0, 0.0, 0.0]), wl.produce(&s, &[1.0, 3.0, -1.0])];
    let mut f = WeightedMajority { weights: vec![], hypotheses: vec![] };
    for h in hs {
        f.push(any_in("u", -4.0, 4.0, false, false), h);
    }
    let g = again(&f);
    let q = probe(n);
    check("same-answers-when-loaded", all(n + 1, |i| close(Regressor::predict(&g, &q, i), Regressor::predict(&f, &q, i), 1e-9)));
}
/// what a booster returns can be saved
fn boosted() {
    let n = 4;
    let y = two_class_labels(n);
    let s = dense_sample(columns(n), y);
    let wl = DecisionTreeBuilder::new(&s).max_depth(1).criterion(Criterion::Edge).build();
    let f = AdaBoost::init(&s).force_quit_at(1).run(&wl);
    let g = again(&f);
    let q = probe(n);
    check("same-answers-when-loaded", all(n + 1, |i| close(g.confidence(&q, i), f.confidence(&q, i), 1e-9)));
}
