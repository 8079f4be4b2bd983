//! The worst-case weak learner for LPBoost.
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for n in 2..=4usize {
        job(r, format!("largest-edge-n{n}"), move || largest_edge(n, 1.0));
        job(r, format!("largest-edge-n{n}-capped"), move || largest_edge(n, 1.5));
        job(r, format!("capping-n{n}"), move || capping(n));
    }
    job(r, "confidences", confidences);
    job(r, "worst-case-n2", || worst_case(2));
    job(r, "worst-case-n4", || worst_case(4));
    job(r, "worst-case-n6", || worst_case(6));
    if thorough {
        job(r, "worst-case-n8", || worst_case(8));
        for n in 5..=6usize {
            job(r, format!("largest-edge-n{n}"), move || largest_edge(n, 1.0));
            job(r, format!("largest-edge-n{n}-capped"), move || largest_edge(n, 2.5));
        }
    }
}

fn edge_on(h: &BadClassifier, s: &Sample, y: &[f64], d: &[f64]) -> f64 {
    let p: Vec<f64> = (0..y.len()).map(|i| h.confidence(s, i)).collect();
    edge(y, &p, d)
}
fn weights(n: usize) -> Vec<f64> {
    let mut w: Vec<f64> = (1..n).map(|_| any_in("d", 0.0, 1.0, false, false)).collect();
    let last = 1.0 - sum(&w);
    assume_fast(ge(last, 0.0));
    w.push(last);
    w
}
/// no hypothesis it returns for another distribution has a larger edge
fn largest_edge(n: usize, nu: f64) {
    let y = pos_first(n);
    let s = labelled(&y);
    let tol = any_in("tolerance", 0.0, 0.5, true, false);
    let wl = BadBaseLearnerBuilder::new(&s).tolerance(tol).nu(nu).build();
    let (d, e) = (weights(n), weights(n));
    let h = wl.produce(&s, &d);
    let g = wl.produce(&s, &e);
    observe("edge", edge_on(&h, &s, &y, &d));
    check("largest-edge", ge(edge_on(&h, &s, &y, &d), edge_on(&g, &s, &y, &d)));
}
/// every capping parameter in [1, n] is accepted
fn capping(n: usize) {
    let y = pos_first(n);
    let s = labelled(&y);
    let nu = any_in("nu", 1.0, n as f64, false, false);
    let wl = BadBaseLearnerBuilder::new(&s).nu(nu).build();
    let h = wl.produce(&s, &uniform(n));
    for i in 0..n {
        let c = h.confidence(&s, i);
        check("confidence-in-range", and(vec![ge(c, -1.0), le(c, 1.0)]));
    }
}
fn confidences() {
    let n = 2 + choose("rows", 5);
    let y = pos_first(n);
    let s = labelled(&y);
    let tol = any_in("tolerance", 0.0, 0.5, true, false);
    let wl = BadBaseLearnerBuilder::new(&s).tolerance(tol).build();
    // all hypotheses are returned for some distribution over few rows
    let (i, j) = (choose("row", n), choose("row", n));
    let mut d = vec![0.0; n];
    d[i] = d[i] + 0.5;
    d[j] = d[j] + 0.5;
    let h = wl.produce(&s, &d);
    for i in 0..n {
        let c = h.confidence(&s, i);
        check("confidence-in-range", and(vec![ge(c, -1.0), le(c, 1.0)]));
    }
}

/// LPBoost needs at least n/2 rounds with it
fn worst_case(n: usize) {
    let y = pos_first(n);
    let s = labelled(&y);
    let tol = 0.25;
    let wl = BadBaseLearnerBuilder::new(&s).tolerance(tol).build();
    let mut b = LPBoost::init(&s).tolerance(tol);
    b.preprocess(&wl);
    let mut k = 1;
    while 2 * k < n {
        check("goes-on-for-half-as-many-rounds-as-rows", b.boost(&wl, k).is_continue());
        k += 1;
    }
    let _ = b.boost(&wl, k);
    let f = b.postprocess(&wl);
    let _ = f;
    cover("stopped");
}
