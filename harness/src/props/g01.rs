//! Gradient boosting: stagewise additive fitting.
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for l1 in [false, true] {
        let nm = if l1 { "l1" } else { "l2" };
        job(r, format!("{nm}-n2-t1"), move || rounds(l1, 2, 1));
        job(r, format!("{nm}-n1-t2"), move || rounds(l1, 1, 2));
        if !l1 || thorough {
            job(r, format!("{nm}-n2-t2"), move || rounds(l1, 2, 2));
        }
        job(r, format!("{nm}-zero-hypothesis"), move || zero(l1, 2));
        job(r, format!("{nm}-run"), move || whole_run(l1));
        if thorough {
            job(r, format!("{nm}-n3-t2"), move || rounds(l1, 3, 2));
        }
    }
    job(r, "round-limit", round_limit);
    job(r, "l2-n3-t1", || rounds(false, 3, 1));
    job(r, "l2-n2-t3", || rounds(false, 2, 3));
}
fn loss(l1: bool) -> GBMLoss {
    if l1 { GBMLoss::L1 } else { GBMLoss::L2 }
}
fn value(l1: bool, f: &[f64], y: &[f64]) -> f64 {
    let mut s = 0.0;
    for i in 0..y.len() {
        let d = f[i] - y[i];
        s = s + if l1 { if d < 0.0 { -d } else { d } } else { d * d };
    }
    s
}
fn rounds(l1: bool, n: usize, t: usize) {
    let y: Vec<f64> = (0..n).map(|_| any("y")).collect();
    let hs: Vec<Vec<f64>> = (0..t).map(|_| (0..n).map(|_| any("h")).collect()).collect();
    let s = labelled(&y);
    let mut script = hs.clone();
    script.push(vec![0.0; n]);
    let wl = Script::new(script);
    // the loss is selected at once or later
    let mut b = if t == 1 { GBM::init_with_loss(&s, loss(!l1)).loss(loss(l1)) } else { GBM::init_with_loss(&s, loss(l1)) };
    b.preprocess(&wl);
    let mut done = 0;
    while done < t && b.boost(&wl, done + 1).is_continue() {
        done += 1;
    }
    let stopped = done < t;
    if !stopped {
        // the weak learner sees the predictions after the last round, too
        let _ = b.boost(&wl, t + 1);
    }
    let f = b.postprocess(&wl);
    let seen = wl.dists();
    check("starts-from-zero", all(n, |i| eq(seen[0][i], 0.0)));
    check("size", f.hypotheses.len() == done);
    for k in 1..seen.len() {
        if l1 {
            check("loss-never-increases", le(value(l1, &seen[k], &y), value(l1, &seen[k - 1], &y)));
            // the derivative of the loss along the hypothesis changes its sign here
            let h = &hs[k - 1];
            let (mut slope, mut kink) = (0.0, 0.0);
            for i in 0..n {
                let r = seen[k][i] - y[i];
                if r > 0.0 {
                    slope = slope + h[i];
                } else if r < 0.0 {
                    slope = slope - h[i];
                } else {
                    kink = kink + if h[i] < 0.0 { -h[i] } else { h[i] };
                }
            }
            check("line-search-optimal", and(vec![le(slope, kink), ge(slope, -kink)]));
        } else {
            // the change is along the hypothesis and the new residual is orthogonal to it
            let h = &hs[k - 1];
            let r: Vec<f64> = (0..n).map(|i| y[i] - seen[k][i]).collect();
            check("line-search-optimal", eq(dot(&r, h), 0.0));
            let d: Vec<f64> = (0..n).map(|i| seen[k][i] - seen[k - 1][i]).collect();
            check("moves-along-the-hypothesis", all(n, |i| all(n, |j| eq(d[i] * h[j], d[j] * h[i]))));
            if n <= 2 && k <= 1 {
                check("loss-never-increases", le(value(l1, &seen[k], &y), value(l1, &seen[k - 1], &y)));
            }
        }
    }
    let last = &seen[seen.len() - 1];
    for i in 0..n {
        check("output-is-the-fitted-model", eq(Regressor::predict(&f, &s, i), last[i]));
        observe("f", last[i]);
    }
}
/// a hypothesis that predicts zero everywhere ends the run
fn zero(l1: bool, n: usize) {
    let y: Vec<f64> = (0..n).map(|_| any("y")).collect();
    let s = labelled(&y);
    let wl = Script::new(vec![vec![0.0; n]]);
    let mut b = GBM::init_with_loss(&s, loss(l1));
    let f = b.run(&wl);
    check("one-call", wl.calls() == 1);
    for i in 0..n {
        check("predicts-zero", eq(Regressor::predict(&f, &s, i), 0.0));
    }
}
/// a second run starts afresh
fn whole_run(l1: bool) {
    let n = 1;
    let y = vec![any("y")];
    let h = any("h");
    assume(ne(h, 0.0));
    let s = labelled(&y);
    let mut b = GBM::init_with_loss(&s, loss(l1));
    let first = Script::new(vec![vec![h], vec![0.0; n]]);
    let f1 = b.run(&first);
    let second = Script::new(vec![vec![h], vec![0.0; n]]);
    let f2 = b.run(&second);
    check("starts-from-zero", eq(second.dists()[0][0], 0.0));
    check("fits-one-point", eq(Regressor::predict(&f1, &s, 0), y[0]));
    check("same-model-again", eq(Regressor::predict(&f2, &s, 0), y[0]));
}

/// at most 100 rounds are made
fn round_limit() {
    let s = labelled(&[1.0, 2.0]);
    // never fitted exactly along one of these
    let hs: Vec<Vec<f64>> = (0..101).map(|k| if k % 2 == 0 { vec![1.0, 0.0] } else { vec![1.0, 0.125] }).collect();
    let wl = Script::new(hs);
    let mut b = GBM::init_with_loss(&s, GBMLoss::L2);
    let _ = b.run(&wl);
    observe("rounds", wl.calls() as f64);
    check("hundred-rounds", wl.calls() == 100);
}
