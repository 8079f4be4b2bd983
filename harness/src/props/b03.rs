//! MadaBoost: the weight of a row is min(1, prod_k beta_k^(y h_k(x))), the
//! vote of round k is ln(1/beta_k).
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for n in if thorough { vec![2usize, 3, 4] } else { vec![2usize, 3] } {
        job(r, format!("step-n{n}"), move || step(n, 1.0));
        job(r, format!("step-worse-than-guessing-n{n}"), move || step(n, -1.0));
    }
    job(r, "sign-rounds-n3-t2", || signs(3, 2));
    job(r, "sign-rounds-n4-t1", || signs(4, 1));
    job(r, "votes-n3-t2", || votes(3, 2));
    job(r, "fractions-n5-t2", || long(Kind::Bank, 5, 2));
    job(r, "more-rounds-n6-t2", || long(Kind::SignBank, 6, 2));
    job(r, "perfect-n3", || perfect(3));
    job(r, "one-vote-n2", || vote_one(2));
    job(r, "rerun-n3", || rerun(3));
    for q in 1..=3 {
        job(r, format!("force-quit-{q}"), move || force_quit(q));
    }
    job(r, "round-limit", round_limit);
    job(r, "rerun-after-other", rerun_other);
    if thorough {
        job(r, "votes-n3-t3", || votes(3, 3));
        job(r, "sign-rounds-n4-t2", || signs(4, 2));
        job(r, "sign-rounds-n3-t3", || signs(3, 3));
    }
}

fn beta(e: f64) -> f64 {
    let eps = (1.0 - e) * 0.5;
    let q = (eps * 0.5).sqrt();
    (q / (1.0 - q)).sqrt()
}
fn capped(w: &[f64]) -> Vec<f64> {
    let c: Vec<f64> = w.iter().map(|x| if *x < 1.0 { *x } else { 1.0 }).collect();
    let z = sum(&c);
    c.into_iter().map(|x| x / z).collect()
}

/// sign: of the edge; what a hypothesis worse than guessing says is turned around
fn step(n: usize, sign: f64) {
    let y = two_class_labels(n);
    let s = labelled(&y);
    let h1: Vec<f64> = confs("h1", n);
    let e = edge(&y, &h1, &uniform(n));
    assume(strictly_between(sign * e, 0.0, 1.0));
    let wl = Script::new(vec![h1.clone(), vec![0.0; n]]);
    let mut b = MadaBoost::init(&s);
    b.preprocess(&wl);
    check("does-not-stop-early", b.boost(&wl, 1).is_continue());
    let _ = b.boost(&wl, 2);
    let ds = wl.dists();
    check("first-distribution-uniform", same(&ds[0], &uniform(n)));
    check("distribution", is_distribution(&ds[1]));
    let m: Vec<f64> = margins(&y, &h1).into_iter().map(|m| sign * m).collect();
    // a row with a margin of at most zero keeps the full weight
    for i in 0..n {
        for j in 0..n {
            if m[i] <= 0.0 && m[j] <= 0.0 {
                check("capped-rows-weigh-the-same", eq(ds[1][i], ds[1][j]));
            }
            if m[i] <= 0.0 && m[j] > 0.0 {
                check("rows-that-are-right-weigh-less", lt(ds[1][j], ds[1][i]));
            }
        }
    }
    let lb = sign * beta(e).ln();
    let w: Vec<f64> = m.iter().map(|x| if *x > 0.0 { (*x * lb).exp() } else { 1.0 }).collect();
    let z = sum(&w);
    check("update", all(n, |i| eq(ds[1][i] * z, w[i])));
    for d in &ds[1] {
        observe("d2", *d);
    }
}

/// the vote of a hypothesis is ln(1/beta), negative if it is worse than guessing
fn votes(n: usize, t: usize) {
    let y: Vec<f64> = (0..n).map(|i| if i == 0 { 1.0 } else { -1.0 }).collect();
    let s = labelled(&y);
    let mut hs: Vec<Vec<f64>> = Vec::new();
    let mut alphas = Vec::new();
    let mut w = vec![1.0; n];
    for _ in 0..t {
        let h = any_labels(n);
        let m = margins(&y, &h);
        if m.iter().all(|m| *m > 0.0) || m.iter().all(|m| *m < 0.0) {
            prune("hypotheses that are right on every row or wrong on every row have their own jobs");
        }
        let be = beta(edge(&y, &h, &capped(&w)));
        for i in 0..n {
            w[i] = if m[i] > 0.0 { w[i] * be } else { w[i] / be };
        }
        hs.push(h);
        alphas.push(-be.ln());
    }
    let wl = Script::new(hs.clone());
    let mut b = MadaBoost::init(&s);
    b.preprocess(&wl);
    check("does-not-stop-early", rounds(&mut b, &wl, t) == t);
    let f = b.postprocess(&wl);
    let z = alphas.iter().fold(0.0, |a, x| a + x.abs());
    for i in 0..n {
        let want = (0..t).fold(0.0, |a, k| a + alphas[k] * hs[k][i]);
        check("votes-are-logarithms-of-beta", close(f.confidence(&s, i) * z, want, 1e-9));
    }
}

fn signs(n: usize, t: usize) {
    let pos = 1 + choose("positive rows", n - 1);
    let y: Vec<f64> = (0..n).map(|i| if i < pos { 1.0 } else { -1.0 }).collect();
    let s = labelled(&y);
    let mut hs: Vec<Vec<f64>> = Vec::new();
    let mut bs = Vec::new();
    let mut w = vec![1.0; n];
    for _ in 0..t {
        let h = any_labels(n);
        let m = margins(&y, &h);
        if m.iter().all(|m| *m > 0.0) || m.iter().all(|m| *m < 0.0) {
            prune("hypotheses that are right on every row or wrong on every row have their own jobs");
        }
        let d = capped(&w);
        let e = edge(&y, &h, &d);
        if e <= 0.0 {
            prune("every hypothesis is better than guessing");
        }
        let be = beta(e);
        for i in 0..n {
            w[i] = if m[i] > 0.0 { w[i] * be } else { w[i] / be };
        }
        hs.push(h);
        bs.push(be);
    }
    let mut script = hs.clone();
    script.push(vec![0.0; n]);
    let wl = Script::new(script);
    let mut b = MadaBoost::init(&s);
    b.preprocess(&wl);
    let done = rounds(&mut b, &wl, t + 1);
    check("does-not-stop-early", done == t + 1);
    let ds = wl.dists();
    check("distribution", is_distribution(&ds[t]));
    let want = capped(&w);
    check("update-up-to-1e-9", all(n, |i| and(vec![le(ds[t][i], want[i] + 1e-9), ge(ds[t][i], want[i] - 1e-9)])));
    for x in &ds[t] {
        observe("d", *x);
    }
}

fn vote_one(n: usize) {
    let y = two_class_labels(n);
    let s = labelled(&y);
    let h = confs("h", n);
    let e = edge(&y, &h, &uniform(n));
    assume(strictly_between(e, 0.0, 1.0));
    let wl = Script::new(vec![h.clone()]);
    let mut b = MadaBoost::init(&s).force_quit_at(1);
    let f = b.run(&wl);
    for i in 0..n {
        check("vote-follows-the-edge", eq(f.confidence(&s, i), h[i]));
    }
}
fn perfect(n: usize) {
    let y = two_class_labels(n);
    let s = labelled(&y);
    let late = choose("round", 2) == 1;
    let h1 = vec![0.0; n];
    let wl = if late { Script::new(vec![h1, y.clone()]) } else { Script::new(vec![y.clone()]) };
    let mut b = MadaBoost::init(&s);
    let f = b.run(&wl);
    check("stops", wl.calls() == if late { 2 } else { 1 });
    for i in 0..n {
        check("only-the-perfect-hypothesis", eq(f.confidence(&s, i), y[i]));
    }
}
/// what a run did before does not matter for the next one
fn rerun_other() {
    let y = vec![1.0, -1.0, -1.0];
    let s = labelled(&y);
    let (g, h) = (vec![1.0, -1.0, 1.0], any_labels(3));
    let edges = (edge(&y, &g, &uniform(3)), edge(&y, &h, &uniform(3)));
    if !(edges.0 < 1.0 && edges.0 > 0.0 && edges.1 < 1.0 && edges.1 > 0.0) {
        prune("both are better than guessing and imperfect");
    }
    let zero = vec![0.0; 3];
    let mut b = MadaBoost::init(&s);
    let before = Script::open(vec![g.clone(), zero.clone(), zero.clone()]);
    b.preprocess(&before);
    let _ = rounds(&mut b, &before, 3);
    let again = Script::open(vec![h.clone(), zero.clone()]);
    b.preprocess(&again);
    let a = rounds(&mut b, &again, 2);
    let f = b.postprocess(&again);
    let fresh = Script::open(vec![h, zero]);
    let mut c = MadaBoost::init(&s);
    c.preprocess(&fresh);
    let d = rounds(&mut c, &fresh, 2);
    let e = c.postprocess(&fresh);
    check("as-many-rounds", a == d && again.calls() == fresh.calls());
    for (u, v) in again.dists().iter().zip(fresh.dists()) {
        check("same-distributions", same(u, &v));
    }
    check("same-vote", all(3, |i| eq(f.confidence(&s, i), e.confidence(&s, i))));
}
fn rerun(n: usize) {
    let y: Vec<f64> = (0..n).map(|i| if i == 0 { 1.0 } else { -1.0 }).collect();
    let s = labelled(&y);
    let h = any_labels(n);
    let e = edge(&y, &h, &uniform(n));
    if !(e < 1.0 && e > 0.0) {
        prune("the first hypothesis is better than guessing and imperfect");
    }
    let g = y.iter().map(|v| *v * 0.5).collect::<Vec<f64>>();
    let mut b = MadaBoost::init(&s);
    let first = Script::new(vec![h.clone(), g.clone()]);
    b.preprocess(&first);
    let _ = rounds(&mut b, &first, 2);
    let second = Script::new(vec![h.clone(), g.clone()]);
    b.preprocess(&second);
    let _ = rounds(&mut b, &second, 2);
    let (a, c) = (first.dists(), second.dists());
    check("as-many-rounds", a.len() == c.len());
    check("same-distributions", and(vec![same(&a[0], &c[0]), same(&a[1], &c[1])]));
}
fn force_quit(q: usize) {
    let y = vec![1.0, -1.0, -1.0];
    let s = labelled(&y);
    let wl = Script::new(vec![vec![0.0; 3]; 5]);
    let mut b = MadaBoost::init(&s).force_quit_at(q);
    b.preprocess(&wl);
    let _ = rounds(&mut b, &wl, 5);
    check("exactly-the-requested-rounds", wl.calls() == q);
}
/// (n - 1) / tolerance^2 rounds, rounded up
fn round_limit() {
    let n = 2 + choose("rows", 2);
    let y: Vec<f64> = (0..n).map(|i| if i == 0 { -1.0 } else { 1.0 }).collect();
    let s = labelled(&y);
    let (tol, k) = [(0.5, 4.0), (0.8, 1.5625)][choose("tolerance", 2)];
    let limit = (n as f64 - 1.0) * k;
    let wl = Script::new(vec![vec![0.0; n]; 30]);
    let mut b = MadaBoost::init(&s).tolerance(tol);
    b.preprocess(&wl);
    let _ = rounds(&mut b, &wl, 30);
    check("rounds-within-the-bound", lt(wl.calls() as f64, limit + 1.0));
    check("uses-the-bound", ge(wl.calls() as f64, limit - 1e-9));
}
/// more rows and rounds, up to 1e-9
fn long(kind: Kind, n: usize, t: usize) {
    let y: Vec<f64> = (0..n).map(|i| if i < 3 { 1.0 } else { -1.0 }).collect();
    let s = labelled(&y);
    let hs: Vec<Vec<f64>> = (0..t).map(|_| kind.hypothesis(n)).collect();
    let mut w = vec![1.0; n];
    let (mut ds, mut ws) = (vec![capped(&w)], vec![]);
    for h in &hs {
        let m = margins(&y, h);
        if m.iter().all(|m| *m > 0.0) || m.iter().all(|m| *m < 0.0) {
            prune("hypotheses that are right on every row or wrong on every row have their own jobs");
        }
        let lb = beta(edge(&y, h, &ds[ds.len() - 1])).ln();
        for i in 0..n {
            w[i] = w[i] * (lb * m[i]).exp();
        }
        ws.push(-lb);
        ds.push(capped(&w));
    }
    if ws.iter().all(|w| *w == 0.0) {
        prune("some hypothesis is not at chance");
    }
    let wl = Probe::new(|k, d| {
        check("distribution", is_distribution(d));
        check("update-up-to-1e-9", all(n, |i| close(d[i], ds[k][i], 1e-9)));
        hs[k].clone()
    });
    let mut b = MadaBoost::init(&s);
    b.preprocess(&wl);
    check("does-not-stop-early", rounds(&mut b, &wl, t) == t);
    let f = b.postprocess(&wl);
    let z = ws.iter().fold(0.0, |a, w| a + w.abs());
    for i in 0..n {
        let want = (0..t).fold(0.0, |a, k| a + ws[k] * hs[k][i]);
        check("vote-up-to-1e-9", close(f.confidence(&s, i) * z, want, 1e-9));
    }
    cover("voted");
}
