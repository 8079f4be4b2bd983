//! Weighted statistics of features, dense and sparse.
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for n in if thorough { vec![1usize, 2, 3, 4, 5] } else { vec![1usize, 2, 3, 4] } {
        job(r, format!("dense-n{n}"), move || dense(n));
        job(r, format!("sparse-n{n}"), move || sparse(n));
    }
}

/// pairs of labels
fn pair() -> (f64, f64) {
    match choose("labels", 3) {
        0 => (1.0, -1.0),
        1 => (0.0, 1.0),
        _ => (1.0, 2.5),
    }
}
fn reference(s: &Sample, x: &[f64], y: &[f64], kinds: (f64, f64), w: &[f64]) {
    let n = x.len();
    let mean = dot(w, x);
    let mut var = 0.0;
    for i in 0..n {
        var = var + w[i] * (x[i] - mean) * (x[i] - mean);
    }
    check("mean", eq(s.weighted_mean(w)[0], mean));
    let mv = s.weighted_mean_and_variance(w);
    check("mean-of-pair", eq(mv[0].0, mean));
    check("variance", eq(mv[0].1, var));
    check("variance-nonnegative", ge(mv[0].1, 0.0));
    observe("mean", mv[0].0);
    observe("var", mv[0].1);
    // per label: arbitrary non-negative weights
    let u: Vec<f64> = (0..n).map(|_| any_in("u", 0.0, 10.0, false, false)).collect();
    let (a, b) = kinds;
    for label in vec![a, b] {
        let mut tw = 0.0;
        let mut ws = 0.0;
        for i in 0..n {
            if y[i] == label {
                tw = tw + u[i];
                ws = ws + u[i] * x[i];
            }
        }
        let m = s.weighted_mean_for_label(label, &u)[0];
        let (m2, v2) = s.weighted_mean_and_variance_for_label(label, &u)[0];
        observe("label-mean", m);
        observe("label-var", v2);
        check("label-mean-consistent", eq(m, m2));
        check("label-mean", implies(gt(tw, 0.01), eq(m * tw, ws)));
        check("label-mean-empty", implies(eq(tw, 0.0), eq(m, 0.0)));
        let mut sv = 0.0;
        for i in 0..n {
            if y[i] == label {
                sv = sv + u[i] * (x[i] - m) * (x[i] - m);
            }
        }
        check("label-variance", implies(gt(tw, 0.01), eq(v2 * tw, sv)));
        check("label-variance-nonnegative", ge(v2, 0.0));
    }
}

fn dense(n: usize) {
    let kinds = pair();
    let y: Vec<f64> = any_labels(n).iter().map(|v| if *v > 0.0 { kinds.0 } else { kinds.1 }).collect();
    let x: Vec<f64> = (0..n).map(|_| any("x")).collect();
    let s = dense_sample(vec![("x", x.clone())], y.clone());
    let w = simplex("w", n);
    reference(&s, &x, &y, kinds, &w);
}

fn sparse(n: usize) {
    let kinds = pair();
    let y: Vec<f64> = any_labels(n).iter().map(|v| if *v > 0.0 { kinds.0 } else { kinds.1 }).collect();
    let mut cells = vec![vec![0.0]; n];
    let mut present = vec![vec![false]; n];
    let mut some = false;
    for i in 0..n {
        if choose("present", 2) == 1 {
            present[i][0] = true;
            cells[i][0] = any("x");
            some = true;
        }
    }
    if !some {
        prune("the feature has a stored entry");
    }
    let s = read_svmlight(&cells, &present, &y, 0);
    let x: Vec<f64> = cells.iter().map(|c| c[0]).collect();
    let w = simplex("w", n);
    reference(&s, &x, &y, kinds, &w);
}
