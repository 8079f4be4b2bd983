//! Gaussian naive Bayes.
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    // training rows are fixed, the row to be classified is arbitrary
    job(r, "query-d1", || query(&[&[0.0, 1.0, 3.0, 5.0]], &[1.0, 1.0, -1.0, -1.0], &[0.25; 4], &[1]));
    job(r, "query-d1-weighted", || query(&[&[0.0, 1.0, 3.0, 5.0]], &[1.0, 1.0, -1.0, -1.0], &[0.125, 0.25, 0.125, 0.5], &[1]));
    job(r, "query-d1-3classes", || query(&[&[0.0, 1.0, 3.0, 5.0, 6.0, 9.0]], &[1.0, 1.0, 2.0, 2.0, 3.0, 3.0], &[0.125, 0.125, 0.25, 0.125, 0.125, 0.25], &[1]));
    job(r, "query-d2", || query(&[&[0.0, 1.0, 3.0, 5.0], &[2.0, -1.0, 0.0, 1.0]], &[1.0, -1.0, -1.0, 1.0], &[0.25; 4], &[1, 1]));
    job(r, "query-d3", || query(&[&[0.0, 1.0, 3.0, 5.0], &[2.0, -1.0, 0.0, 1.0], &[0.0, 4.0, 0.0, 1.0]], &[1.0, -1.0, -1.0, 1.0], &[0.25; 4], &[0, 1, 1]));
    // a feature without variance does not matter
    job(r, "constant-feature", || query(&[&[0.0, 1.0, 3.0, 5.0], &[2.0, 2.0, 2.0, 2.0]], &[1.0, 1.0, -1.0, -1.0], &[0.25; 4], &[1, 0]));
    job(r, "zero-weight-row", || query(&[&[0.0, 1.0, 3.0, 5.0]], &[1.0, 1.0, -1.0, -1.0], &[0.5, 0.25, 0.25, 0.0], &[0]));
    job(r, "zero-weight-class", || query(&[&[0.0, 1.0, 3.0, 5.0]], &[1.0, 1.0, -1.0, -1.0], &[0.5, 0.5, 0.0, 0.0], &[1]));
    // arbitrary weights
    job(r, "weights-n4", || weighted(4));
    job(r, "features-n4", || features(4));
    job(r, "sparse-n4", || sparse(4));
    if thorough {
        job(r, "weights-n5", || weighted(5));
        job(r, "features-n5", || features(5));
        job(r, "sparse-n5", || sparse(5));
    }
}

/// the classes with the logarithm of prior times density, up to a common term
fn scores(cols: &[Vec<f64>], y: &[f64], w: &[f64], x: &[f64]) -> Vec<(f64, f64)> {
    let mut classes: Vec<f64> = vec![];
    for v in y {
        if !classes.iter().any(|c| *c == *v) {
            classes.push(*v);
        }
    }
    let mut out = vec![];
    for c in classes {
        let rows: Vec<usize> = (0..y.len()).filter(|i| y[*i] == c).collect();
        let prior = sum(&rows.iter().map(|i| w[*i]).collect::<Vec<_>>());
        if prior == 0.0 {
            continue;
        }
        let mut s = prior.ln();
        for j in 0..cols.len() {
            let mean = sum(&rows.iter().map(|i| w[*i] * cols[j][*i]).collect::<Vec<_>>()) / prior;
            let var = sum(&rows.iter().map(|i| w[*i] * (cols[j][*i] - mean) * (cols[j][*i] - mean)).collect::<Vec<_>>()) / prior;
            if var == 0.0 {
                continue;
            }
            s = s - 0.5 * (var.ln() + (x[j] - mean) * (x[j] - mean) / var);
        }
        out.push((c, s));
    }
    out
}
const NAMES: [&str; 3] = ["f0", "f1", "f2"];

fn query(cols: &[&[f64]], y: &[f64], w: &[f64], free: &[usize]) {
    let s = dense_sample(cols.iter().enumerate().map(|(k, c)| (NAMES[k], c.to_vec())).collect(), y.to_vec());
    let h = GaussianNB::init().produce(&s, w);
    let x: Vec<f64> = (0..cols.len()).map(|j| if free[j] == 1 { any_in("x", -20.0, 20.0, false, false) } else { cols[j][0] }).collect();
    let q = dense_sample(x.iter().enumerate().map(|(k, v)| (NAMES[k], vec![*v])).collect(), vec![1.0]);
    let got = h.confidence(&q, 0);
    let cols: Vec<Vec<f64>> = cols.iter().map(|c| c.to_vec()).collect();
    let want = scores(&cols, y, w, &x);
    judge(got, &want);
    let p = h.probabilities(&q, 0);
    for (_, v) in &p {
        check("probability-in-range", and(vec![ge(*v, 0.0), le(*v, 1.0)]));
    }
    check("probabilities-sum-to-one", close(sum(&p.iter().map(|a| a.1).collect::<Vec<_>>()), 1.0, 1e-9));
    for (c, v) in &p {
        if *c == got {
            check("the-predicted-class-is-most-probable", all(p.len(), |k| ge(*v, p[k].1)));
        }
    }
}
fn judge(got: f64, want: &[(f64, f64)]) {
    observe("class", got);
    let mut known = false;
    for (c, s) in want {
        if *c == got {
            known = true;
            for (d, t) in want {
                if c != d {
                    check("most-probable-class", ge(*s, *t - 1e-6));
                }
            }
        }
    }
    check("known-class", known);
}

fn weighted(n: usize) {
    let x: Vec<f64> = [0.0, 1.0, 3.0, 5.0, 4.0][..n].to_vec();
    let y: Vec<f64> = [1.0, 1.0, -1.0, -1.0, -1.0][..n].to_vec();
    let mut w: Vec<f64> = (1..n).map(|_| any_in("w", 0.01, 1.0, false, false)).collect();
    let last = 1.0 - sum(&w);
    assume_fast(ge(last, 0.01));
    w.push(last);
    let s = dense_sample(vec![("f0", x.clone())], y.clone());
    let h = GaussianNB::init().produce(&s, &w);
    let k = choose("row", n);
    judge(h.confidence(&s, k), &scores(&[x.clone()], &y, &w, &[x[k]]));
}
fn features(n: usize) {
    let x: Vec<f64> = (0..n).map(|_| any_in("x", -20.0, 20.0, false, false)).collect();
    let y: Vec<f64> = [1.0, 1.0, -1.0, -1.0, -1.0][..n].to_vec();
    // both classes have some variance
    assume_fast(ge(x[0] - x[1], 0.01));
    assume_fast(ge(x[2] - x[3], 0.01));
    let w = uniform(n);
    let s = dense_sample(vec![("f0", x.clone())], y.clone());
    let h = GaussianNB::init().produce(&s, &w);
    let k = choose("row", n);
    judge(h.confidence(&s, k), &scores(&[x.clone()], &y, &w, &[x[k]]));
}
fn sparse(n: usize) {
    let x: Vec<f64> = (0..n).map(|_| [0.0, 1.0, 3.0][choose("cell", 3)]).collect();
    let y = two_class_labels(n);
    if x.iter().all(|v| *v == 0.0) {
        prune("the column occurs");
    }
    let present: Vec<Vec<bool>> = x.iter().map(|v| vec![*v != 0.0]).collect();
    let cells: Vec<Vec<f64>> = x.iter().map(|v| vec![*v]).collect();
    let sp = read_svmlight(&cells, &present, &y, 0);
    let de = dense_sample(vec![("0", x.clone())], y.clone());
    let mut w = vec![1.0 / n as f64; n];
    w[0] = w[0] * 0.5;
    w[1] = w[1] * 1.5;
    let (a, b) = (GaussianNB::init().produce(&sp, &w), GaussianNB::init().produce(&de, &w));
    for i in 0..n {
        let (u, v) = (a.probabilities(&sp, i), b.probabilities(&de, i));
        for (p, q) in &u {
            for (r, t) in &v {
                if p == r {
                    check("sparse-as-dense", close(*q, *t, 1e-9));
                }
            }
        }
    }
}
