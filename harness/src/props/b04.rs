//! SmoothBoost (Servedio 2001).
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for n in if thorough { vec![2usize, 3, 4] } else { vec![2usize, 3] } {
        job(r, format!("step-n{n}"), move || step(n));
    }
    job(r, "two-rounds-n2", || two(2));
    job(r, "guarantee-n2-t1", || guarantee(2, 1));
    job(r, "guarantee-n2-t2", || guarantee(2, 2));
    job(r, "average-n2-t3", || average(2, 3));
    job(r, "average-n2-t4", || average(2, 4));
    job(r, "average-n3-t2", || average(3, 2));
    job(r, "rerun-n2", || rerun(2));
    job(r, "round-limit", round_limit);
    job(r, "rerun-after-other", rerun_other);
    if thorough {
        job(r, "guarantee-n3-t2", || guarantee(3, 2));
        job(r, "guarantee-n2-t3", || guarantee(2, 3));
        job(r, "two-rounds-n3", || two(3));
        job(r, "average-n3-t5", || average(3, 5));
    }
}
/// (gamma, kappa)
fn setting() -> (f64, f64) {
    [(0.25, 0.5), (0.4, 0.9), (0.1, 0.75)][choose("setting", 3)]
}
fn weight(cum: f64, gamma: f64) -> f64 {
    if cum <= 0.0 {
        1.0
    } else {
        (1.0 - gamma).powf(cum * 0.5)
    }
}

fn step(n: usize) {
    let y = two_class_labels(n);
    let s = labelled(&y);
    let (gamma, kappa) = setting();
    let theta = gamma / (2.0 + gamma);
    let h = confs("h", n);
    let m = margins(&y, &h);
    let wl = Script::new(vec![h, vec![0.0; n]]);
    let mut b = SmoothBoost::init(&s).tolerance(kappa).gamma(gamma);
    b.preprocess(&wl);
    check("first-round-runs", b.boost(&wl, 1).is_continue());
    check("first-distribution-uniform", same(&wl.dists()[0], &uniform(n)));
    let w: Vec<f64> = m.iter().map(|v| weight(*v - theta, gamma)).collect();
    let z = sum(&w);
    let goes_on = b.boost(&wl, 2).is_continue();
    check("stopping-rule", if goes_on { ge(z, kappa * n as f64) } else { lt(z, kappa * n as f64) });
    if goes_on {
        let d = &wl.dists()[1];
        check("update", all(n, |i| eq(d[i] * z, w[i])));
        check("smooth", all(n, |i| le(d[i] * (kappa * n as f64), 1.0)));
        check("distribution", is_distribution(d));
        for x in d {
            observe("d", *x);
        }
    }
}
fn two(n: usize) {
    let y = two_class_labels(n);
    let s = labelled(&y);
    let (gamma, kappa) = (0.25, 0.5);
    let theta = gamma / (2.0 + gamma);
    let hs = [confs("h", n), confs("h", n)];
    let wl = Script::new(vec![hs[0].clone(), hs[1].clone(), vec![0.0; n]]);
    let mut b = SmoothBoost::init(&s).tolerance(kappa).gamma(gamma);
    b.preprocess(&wl);
    let done = rounds(&mut b, &wl, 3);
    check("does-not-stop-early", done == 3);
    let (m1, m2) = (margins(&y, &hs[0]), margins(&y, &hs[1]));
    let w: Vec<f64> = (0..n).map(|i| weight(m1[i] + m2[i] - 2.0 * theta, gamma)).collect();
    let z = sum(&w);
    let d = &wl.dists()[2];
    check("update-second-round", all(n, |i| eq(d[i] * z, w[i])));
}
/// when the stopping criterion ends the run, fewer than a kappa fraction of
/// the rows have a margin below theta
fn guarantee(n: usize, t: usize) {
    let y: Vec<f64> = (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
    let s = labelled(&y);
    let (gamma, kappa) = [(0.4, 0.75), (0.4, 0.9), (0.25, 0.95)][choose("setting", 3)];
    let theta = gamma / (2.0 + gamma);
    let hs: Vec<Vec<f64>> = (0..t).map(|_| confs("h", n)).collect();
    let wl = Script::open(hs.clone());
    let mut b = SmoothBoost::init(&s).tolerance(kappa).gamma(gamma);
    b.preprocess(&wl);
    for k in 1..=t {
        if b.boost(&wl, k).is_break() {
            prune("the run ends after exactly the stated number of rounds");
        }
    }
    let f = match catching(|| b.boost(&wl, t + 1).is_break()) {
        Some(true) => b.postprocess(&wl),
        _ => prune("the run ends after exactly the stated number of rounds"),
    };
    let mut bad = 0;
    for i in 0..n {
        if y[i] * f.confidence(&s, i) < theta {
            bad += 1;
        }
    }
    check("few-rows-below-the-margin", lt(bad as f64, kappa * n as f64));
    cover("stopped");
}
/// the output averages all hypotheses, whatever their number
fn average(n: usize, t: usize) {
    let y: Vec<f64> = (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
    let s = labelled(&y);
    // margins of at most zero keep the run going
    let hs: Vec<Vec<f64>> =
        (0..t).map(|_| (0..n).map(|i| y[i] * any_in("m", -1.0, 0.0, false, false)).collect()).collect();
    let wl = Script::new(hs.clone());
    let mut b = SmoothBoost::init(&s).tolerance(0.5).gamma(0.25);
    b.preprocess(&wl);
    let done = rounds(&mut b, &wl, t);
    check("does-not-stop-early", done == t);
    let f = b.postprocess(&wl);
    check("as-many-hypotheses-as-rounds", f.hypotheses.len() == t);
    check("average", votes(&f, &s, &vec![1.0; t], &hs));
}
/// what a run did before does not matter for the next one
fn rerun_other() {
    let y = vec![1.0, -1.0, -1.0];
    let s = labelled(&y);
    let (g, h) = (any_labels(3), any_labels(3));
    let edges = (edge(&y, &g, &uniform(3)), edge(&y, &h, &uniform(3)));
    if !(edges.0 < 1.0) {
        prune("the first is imperfect");
    }
    let zero = vec![0.0; 3];
    let mut b = SmoothBoost::init(&s).tolerance(0.125).gamma(0.25);
    let before = Script::open(vec![g.clone(), zero.clone(), zero.clone()]);
    b.preprocess(&before);
    let _ = rounds(&mut b, &before, 3);
    let again = Script::open(vec![h.clone(), zero.clone()]);
    b.preprocess(&again);
    let a = rounds(&mut b, &again, 2);
    let f = b.postprocess(&again);
    let fresh = Script::open(vec![h, zero]);
    let mut c = SmoothBoost::init(&s).tolerance(0.125).gamma(0.25);
    c.preprocess(&fresh);
    let d = rounds(&mut c, &fresh, 2);
    let e = c.postprocess(&fresh);
    check("as-many-rounds", a == d && again.calls() == fresh.calls());
    for (u, v) in again.dists().iter().zip(fresh.dists()) {
        check("same-distributions", same(u, &v));
    }
    check("same-vote", all(3, |i| eq(f.confidence(&s, i), e.confidence(&s, i))));
}
fn rerun(n: usize) {
    let y: Vec<f64> = (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
    let s = labelled(&y);
    let h = confs("h", n);
    let mut b = SmoothBoost::init(&s).tolerance(0.125).gamma(0.25);
    let first = Script::new(vec![h.clone(), h.clone()]);
    b.preprocess(&first);
    let _ = rounds(&mut b, &first, 2);
    let second = Script::new(vec![h.clone(), h.clone()]);
    b.preprocess(&second);
    let _ = rounds(&mut b, &second, 2);
    let f = b.postprocess(&second);
    let (a, c) = (first.dists(), second.dists());
    check("as-many-rounds", a.len() == c.len());
    check("same-distributions", and(vec![same(&a[0], &c[0]), same(&a[1], &c[1])]));
    check("only-the-second-run", f.hypotheses.len() == 2);
}
/// at most 2 / (kappa gamma^2 sqrt(1 - gamma)) rounds, rounded up
fn round_limit() {
    let n = 2;
    let y = vec![1.0, -1.0];
    let s = labelled(&y);
    let (gamma, kappa, limit) = [(0.4, 0.9, 17.93), (0.45, 0.75, 17.76)][choose("setting", 2)];
    let wl = Script::new(vec![vec![0.0; n]; 40]);
    let mut b = SmoothBoost::init(&s).tolerance(kappa).gamma(gamma);
    let _ = b.run(&wl);
    check("rounds-within-the-bound", lt(wl.calls() as f64, limit + 1.0));
    check("uses-the-bound", ge(wl.calls() as f64, limit - 0.01));
}
