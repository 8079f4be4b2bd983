//! AdaBoostV: rho_t = min_{k<=t} edge_k - tolerance,
//! w_t = 1/2 ln((1+edge_t)/(1-edge_t)) - 1/2 ln((1+rho_t)/(1-rho_t)).
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for n in if thorough { vec![2usize, 3, 4] } else { vec![2usize, 3] } {
        job(r, format!("step-n{n}"), move || step(n));
    }
    job(r, "two-rounds-n3", move || two(3));
    job(r, "sign-votes-n3-t2", || signs(3, 2));
    job(r, "sign-votes-n3-t3", || signs(3, 3));
    job(r, "sign-votes-n4-t2", || signs(4, 2));
    job(r, "fractions-n5-t2", || long(Kind::Bank, 5, 2, 0.5));
    job(r, "more-rounds-n6-t4", || long(Kind::SignBank, 6, 4, 0.5));
    job(r, "perfect-n3", || perfect(3));
    job(r, "always-wrong-n2", || always_wrong(2));
    job(r, "rerun-n3", || rerun(3));
    for q in 1..=3 {
        job(r, format!("force-quit-{q}"), move || force_quit(q));
    }
    job(r, "round-limit", round_limit);
    job(r, "rerun-after-other", rerun_other);
    if thorough {
        job(r, "two-rounds-n4", move || two(4));
        job(r, "sign-votes-n5-t2", || signs(5, 2));
        job(r, "sign-votes-n4-t3", || signs(4, 3));
    }
}

/// (weight, smallest edge so far, next distribution)
fn reference(d: &[f64], y: &[f64], h: &[f64], lowest: f64, tol: f64) -> (f64, f64, Vec<f64>) {
    let e = edge(y, h, d);
    let g = if e < lowest { e } else { lowest };
    let rho = g - tol;
    let w = 0.5 * ((1.0 + e) / (1.0 - e)).ln() - 0.5 * ((1.0 + rho) / (1.0 - rho)).ln();
    let m = margins(y, h);
    let u: Vec<f64> = (0..d.len()).map(|i| d[i] * (-w * m[i]).exp()).collect();
    let z = sum(&u);
    (w, g, u.into_iter().map(|x| x / z).collect())
}

fn step(n: usize) {
    let y = two_class_labels(n);
    let s = labelled(&y);
    let h1: Vec<f64> = confs("h1", n);
    let e = edge(&y, &h1, &uniform(n));
    let tol = 0.25;
    assume(strictly_between(e, tol - 1.0, 1.0));
    let wl = Script::new(vec![h1.clone(), vec![0.0; n]]);
    let mut b = AdaBoostV::init(&s).tolerance(tol);
    b.preprocess(&wl);
    check("does-not-stop-early", b.boost(&wl, 1).is_continue());
    let _ = b.boost(&wl, 2);
    let ds = wl.dists();
    check("first-distribution-uniform", same(&ds[0], &uniform(n)));
    check("distribution", is_distribution(&ds[1]));
    let (_, _, d2) = reference(&ds[0], &y, &h1, 1.0, tol);
    check("update", same(&ds[1], &d2));
    for d in &ds[1] {
        observe("d2", *d);
    }
}

fn two(n: usize) {
    let y: Vec<f64> = (0..n).map(|i| if i == 0 { 1.0 } else { -1.0 }).collect();
    let s = labelled(&y);
    let tol = 0.5;
    // the first hypothesis errs on one row
    let mut h1 = y.clone();
    let k = choose("wrong row", n);
    h1[k] = -h1[k];
    let hs: Vec<Vec<f64>> = vec![h1, confs("h2", n)];
    let wl = Script::new(vec![hs[0].clone(), hs[1].clone(), vec![0.0; n]]);
    let mut b = AdaBoostV::init(&s).tolerance(tol);
    b.preprocess(&wl);
    let _ = b.boost(&wl, 1);
    let (_, g, d2) = reference(&uniform(n), &y, &hs[0], 1.0, tol);
    let e2 = edge(&y, &hs[1], &d2);
    assume_fast(strictly_between(e2, tol - 0.9, 0.9));
    assume_fast(ne(e2, g));
    let _ = b.boost(&wl, 2);
    let _ = b.boost(&wl, 3);
    let ds = wl.dists();
    let (_, _, d3) = reference(&d2, &y, &hs[1], g, tol);
    check("update-second-round", same(&ds[2], &d3));
}

fn signs(n: usize, t: usize) {
    let pos = 1 + choose("positive rows", n - 1);
    let y: Vec<f64> = (0..n).map(|i| if i < pos { 1.0 } else { -1.0 }).collect();
    let s = labelled(&y);
    let tol = 0.75;
    let mut hs: Vec<Vec<f64>> = Vec::new();
    let mut ws = Vec::new();
    let mut d = uniform(n);
    let mut g = 1.0;
    for _ in 0..t {
        let h = any_labels(n);
        if margins(&y, &h).iter().all(|m| *m > 0.0) || margins(&y, &h).iter().all(|m| *m < 0.0) {
            prune("hypotheses that are right on every row or wrong on every row have their own jobs");
        }
        let e = edge(&y, &h, &d);
        if e <= tol - 1.0 {
            prune("every edge exceeds the tolerance less one");
        }
        let (w, gn, dn) = reference(&d, &y, &h, g, tol);
        hs.push(h);
        ws.push(w);
        d = dn;
        g = gn;
    }
    let mut script = hs.clone();
    script.push(vec![0.0; n]);
    let wl = Script::new(script);
    let mut b = AdaBoostV::init(&s).tolerance(tol);
    b.preprocess(&wl);
    let done = rounds(&mut b, &wl, t);
    if done < t {
        prune("the round limit for this tolerance is reached");
    }
    let f = b.postprocess(&wl);
    check("vote", votes(&f, &s, &ws, &hs));
    if b.boost(&wl, t + 1).is_continue() {
        let ds = wl.dists();
        check("distribution", is_distribution(&ds[t]));
        check("update", same(&ds[t], &d));
        for x in &ds[t] {
            observe("d", *x);
        }
    }
}

fn perfect(n: usize) {
    let y = two_class_labels(n);
    let s = labelled(&y);
    let h1 = confs("h1", n);
    let e1 = edge(&y, &h1, &uniform(n));
    assume(strictly_between(e1, -0.5, 0.9));
    let late = choose("round", 2) == 1;
    let wl = if late { Script::new(vec![h1, y.clone()]) } else { Script::new(vec![y.clone()]) };
    let mut b = AdaBoostV::init(&s).tolerance(0.25);
    let f = b.run(&wl);
    check("stops", wl.calls() == if late { 2 } else { 1 });
    for i in 0..n {
        check("only-the-perfect-hypothesis", eq(f.confidence(&s, i), y[i]));
    }
}
fn always_wrong(n: usize) {
    let y = two_class_labels(n);
    let s = labelled(&y);
    let wl = Script::new(vec![y.iter().map(|v| -*v).collect()]);
    let mut b = AdaBoostV::init(&s).tolerance(0.1);
    let f = b.run(&wl);
    check("stops", wl.calls() == 1);
    for i in 0..n {
        check("voted-against", eq(f.confidence(&s, i), y[i]));
    }
}
/// what a run did before does not matter for the next one
fn rerun_other() {
    let y = vec![1.0, -1.0, -1.0];
    let s = labelled(&y);
    let (g, h) = (vec![1.0, -1.0, 1.0], any_labels(3));
    let edges = (edge(&y, &g, &uniform(3)), edge(&y, &h, &uniform(3)));
    if !(edges.0 < 1.0 && edges.0 > 0.0 && edges.1 < 1.0 && edges.1 > 0.0) {
        prune("both are better than guessing and imperfect");
    }
    let zero = vec![0.0; 3];
    let mut b = AdaBoostV::init(&s).tolerance(0.5);
    let before = Script::open(vec![g.clone(), zero.clone(), zero.clone()]);
    b.preprocess(&before);
    let _ = rounds(&mut b, &before, 3);
    let again = Script::open(vec![h.clone(), zero.clone()]);
    b.preprocess(&again);
    let a = rounds(&mut b, &again, 2);
    let f = b.postprocess(&again);
    let fresh = Script::open(vec![h, zero]);
    let mut c = AdaBoostV::init(&s).tolerance(0.5);
    c.preprocess(&fresh);
    let d = rounds(&mut c, &fresh, 2);
    let e = c.postprocess(&fresh);
    check("as-many-rounds", a == d && again.calls() == fresh.calls());
    for (u, v) in again.dists().iter().zip(fresh.dists()) {
        check("same-distributions", same(u, &v));
    }
    check("same-vote", all(3, |i| eq(f.confidence(&s, i), e.confidence(&s, i))));
}
fn rerun(n: usize) {
    let y: Vec<f64> = (0..n).map(|i| if i == 0 { 1.0 } else { -1.0 }).collect();
    let s = labelled(&y);
    let h = any_labels(n);
    let e = edge(&y, &h, &uniform(n));
    if !(e < 1.0 && e > -0.5) {
        prune("the first hypothesis is imperfect and its edge exceeds the tolerance less one");
    }
    // the edge of the second hypothesis is zero: a second run must not start
    // from the smallest edge of the first
    let g = vec![0.0; n];
    let mut b = AdaBoostV::init(&s).tolerance(0.5).force_quit_at(2);
    let first = Script::new(vec![h.clone(), g.clone()]);
    let f = b.run(&first);
    let second = Script::new(vec![h.clone(), g.clone()]);
    let f2 = b.run(&second);
    let (a, c) = (first.dists(), second.dists());
    check("as-many-rounds", a.len() == c.len());
    check("same-distributions", and(vec![same(&a[0], &c[0]), same(&a[1], &c[1])]));
    check("same-vote", all(n, |i| eq(f.confidence(&s, i), f2.confidence(&s, i))));
}
fn force_quit(q: usize) {
    let y = vec![1.0, -1.0, -1.0];
    let s = labelled(&y);
    let wl = Script::new(vec![vec![1.0, -1.0, 1.0], vec![1.0, 1.0, -1.0], vec![1.0, -1.0, 1.0], vec![1.0, 1.0, -1.0]]);
    let mut b = AdaBoostV::init(&s).tolerance(0.75).force_quit_at(q);
    b.preprocess(&wl);
    let _ = rounds(&mut b, &wl, 10);
    check("exactly-the-requested-rounds", wl.calls() == q);
}
/// at most 2 ln(n) / tolerance^2 rounds
fn round_limit() {
    let n = 2 + choose("rows", 3);
    let y: Vec<f64> = (0..n).map(|i| if i == 0 { -1.0 } else { 1.0 }).collect();
    let s = labelled(&y);
    let (tol, k) = [(0.5, 8.0), (0.8, 3.125)][choose("tolerance", 2)];
    let limit = [0.6931471805599453, 1.0986122886681098, 1.3862943611198906][n - 2] * k;
    // margins equal to the rest: the weight is not zero but the distribution stays uniform
    let wl = Script::new(vec![y.iter().map(|v| *v * 0.5).collect(); 30]);
    let mut b = AdaBoostV::init(&s).tolerance(tol);
    let _ = b.run(&wl);
    check("rounds-within-the-bound", le(wl.calls() as f64, limit + 1e-9));
    check("uses-the-bound", gt(wl.calls() as f64 + 1.0, limit - 1e-9));
}
/// more rows and rounds, up to 1e-9
fn long(kind: Kind, n: usize, t: usize, tol: f64) {
    let y: Vec<f64> = (0..n).map(|i| if i < 3 { 1.0 } else { -1.0 }).collect();
    let s = labelled(&y);
    let hs: Vec<Vec<f64>> = (0..t).map(|_| kind.hypothesis(n)).collect();
    let (mut ds, mut ws, mut g) = (vec![uniform(n)], vec![], 1.0);
    for h in &hs {
        let m = margins(&y, h);
        let e = edge(&y, h, &ds[ds.len() - 1]);
        if e <= tol - 1.0 || m.iter().all(|m| *m > 0.0) {
            prune("every hypothesis errs somewhere, and its edge exceeds the tolerance less one");
        }
        let (w, next, d) = reference(&ds[ds.len() - 1], &y, h, g, tol);
        g = next;
        ws.push(w);
        ds.push(d);
    }
    if ws.iter().all(|w| *w == 0.0) {
        prune("some hypothesis is not at chance");
    }
    let wl = Probe::new(|k, d| {
        check("distribution", is_distribution(d));
        check("update-up-to-1e-9", all(n, |i| close(d[i], ds[k][i], 1e-9)));
        hs[k].clone()
    });
    let mut b = AdaBoostV::init(&s).tolerance(tol);
    b.preprocess(&wl);
    check("does-not-stop-early", rounds(&mut b, &wl, t) == t);
    let f = b.postprocess(&wl);
    let z = ws.iter().fold(0.0, |a, w| a + w.abs());
    for i in 0..n {
        let want = (0..t).fold(0.0, |a, k| a + ws[k] * hs[k][i]);
        check("vote-up-to-1e-9", close(f.confidence(&s, i) * z, want, 1e-9));
    }
    cover("voted");
}
