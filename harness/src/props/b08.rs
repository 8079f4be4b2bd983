//! ERLPBoost: entropy regularised edge minimisation.
use crate::util::*;
use miniboosts::research::Research;
use miniboosts::*;
use std::cell::RefCell;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for nu in [1.0, 1.5] {
        job(r, format!("signs-n2-t1-nu{nu}"), move || go(2, 1, nu, 0.5, Kind::Signs));
        job(r, format!("signs-n2-t2-nu{nu}"), move || go(2, 2, nu, 0.5, Kind::Signs));
        job(r, format!("signs-n3-t1-nu{nu}"), move || go(3, 1, nu, 0.5, Kind::Signs));
        job(r, format!("signs-n3-t2-nu{nu}"), move || go(3, 2, nu, 0.5, Kind::Signs));
    }
    job(r, "halves-n2-t1", || go(2, 1, 1.5, 0.2, Kind::Halves));
    job(r, "halves-n3-t1", || go(3, 1, 1.5, 0.2, Kind::Halves));
    job(r, "quarters-n2-t1", || go(2, 1, 1.0, 0.5, Kind::Quarters));
    job(r, "reals-n2-t1", || go(2, 1, 1.5, 0.5, Kind::Reals));
    job(r, "rerun-n2", rerun);
    job(r, "rerun-after-other", rerun_other);
    for nu in [1.0, 2.0] {
        job(r, format!("round-limit-nu{nu}"), move || round_limit(nu));
    }
    if thorough {
        job(r, "reals-n2-t1-nu1", || go(2, 1, 1.0, 0.25, Kind::Reals));
        job(r, "signs-n3-t2-nu1.25", || go(3, 2, 1.25, 0.1, Kind::Signs));
        job(r, "signs-n3-t3-nu1.25", || go(3, 3, 1.25, 0.2, Kind::Signs));
        job(r, "signs-n4-t2-nu2", || go(4, 2, 2.0, 0.2, Kind::Signs));
        job(r, "halves-n3-t1-nu1", || go(3, 1, 1.0, 0.1, Kind::Halves));
        job(r, "halves-n2-t2", || go(2, 2, 1.25, 0.2, Kind::Halves));
    }
}
fn highest(d: &[f64], ms: &[Vec<f64>]) -> f64 {
    ms.iter().fold(-9.0, |a: f64, m| a.max(dot(d, m)))
}
fn go(n: usize, t: usize, nu: f64, tol: f64, kind: Kind) {
    let y = pos_first(n);
    let s = labelled(&y);
    let hs: Vec<Vec<f64>> = (0..t).map(|_| kind.hypothesis(n)).collect();
    let ms: Vec<Vec<f64>> = hs.iter().map(|h| margins(&y, h)).collect();
    let eta = 0.5f64.max((n as f64 / nu).ln() / (tol / 2.0));
    let smallest = std::cell::Cell::new(1.0);
    let (upper, gap) = (std::cell::Cell::new(1.0), std::cell::Cell::new(2.0));
    // margins of the combination so far
    let combined: RefCell<Vec<f64>> = RefCell::default();
    let wl = Probe::new(|k, d| {
        if k == 0 {
            check("first-distribution-uniform", same(d, &uniform(n)));
        } else {
            check("distribution", is_distribution(d));
            check("capped", all(n, |i| le(d[i] * nu, 1.0 + 1e-9)));
            // no capped distribution has a regularised edge that is smaller by
            // more than a fraction of the tolerance (entropies from below)
            let other = capped_simplex("other", n, nu);
            let low: Vec<f64> = other.iter().map(|o| entropy_from_below(*o)).collect();
            let ent = sum(&low) / eta;
            let own = (0..n).fold(0.0, |a, i| if d[i] > 0.0 { a + d[i] * d[i].ln() } else { a }) / eta;
            // (for arbitrary confidences these bounds are too weak)
            for m in ms[..k].iter().filter(|_| kind != Kind::Reals) {
                let e = dot(d, m);
                check(
                    "least-regularised-edge",
                    any_of(k, |j| le(e + own, dot(&other, &ms[j]) + ent + 0.2 * tol)),
                );
            }
            // the combination and the distribution prove each other optimal
            if kind != Kind::Reals {
                let least = highest(d, &ms[..k]) + (n as f64).ln() / eta + own - 0.6 * tol;
                check("combination-as-good-as-the-distribution", soft_margin_at_least(&combined.borrow(), nu, least));
            }
            cover("went on");
            observe("d", d[0]);
        }
        if k > 0 {
            check("goes-on-only-while-the-gap-is-open", gt(gap.get(), tol / 2.0 - 1e-6));
        }
        if k == t {
            finish()
        }
        let e = dot(d, &ms[k]);
        let reg = (0..n).fold((n as f64).ln(), |a, i| if d[i] > 0.0 { a + d[i] * d[i].ln() } else { a }) / eta;
        if e + reg < upper.get() {
            upper.set(e + reg);
        }
        let top = highest(d, &ms[..k]);
        gap.set(upper.get() - top - reg);
        if e < smallest.get() {
            smallest.set(e);
        }
        hs[k].clone()
    });
    // the order of the settings does not matter
    let mut b = if t == 2 { ERLPBoost::init(&s).tolerance(tol).nu(nu) } else { ERLPBoost::init(&s).nu(nu).tolerance(tol) };
    b.preprocess(&wl);
    if kind == Kind::Reals {
        max_solves(2);
    }
    let mut k = 1;
    while b.boost(&wl, k).is_continue() {
        if kind != Kind::Reals {
            let (w, h) = b.current_hypothesis().decompose();
            check("weights", and(vec![close(sum(&w), 1.0, 1e-6), all(w.len(), |i| ge(w[i], 0.0))]));
            *combined.borrow_mut() =
                (0..n).map(|i| (0..w.len()).fold(0.0, |a, j| a + w[j] * h[j].conf[i] * y[i])).collect();
        }
        k += 1;
    }
    check("stops-only-when-the-gap-is-closed", le(gap.get(), tol / 2.0 + 1e-6));
    let f = b.postprocess(&wl);
    let fm: Vec<f64> = (0..n).map(|i| y[i] * f.confidence(&s, i)).collect();
    check("soft-margin-within-tolerance", soft_margin_at_least(&fm, nu, smallest.get() - tol));
    cover("stopped");
    observe("rounds", k as f64);
}

/// a second run starts afresh
fn rerun() {
    let y = vec![1.0, -1.0];
    let s = labelled(&y);
    let h: Vec<Vec<f64>> = (0..2).map(|_| any_labels(2)).collect();
    let g = any_labels(2);
    let mut b = ERLPBoost::init(&s).tolerance(0.5);
    let first = Script::open(vec![g.clone(), g]);
    b.preprocess(&first);
    let _ = rounds(&mut b, &first, 2);
    let again = Script::open(h.clone());
    b.preprocess(&again);
    let a = rounds(&mut b, &again, 2);
    let fresh = Script::open(h.clone());
    let mut c = ERLPBoost::init(&s).tolerance(0.5);
    c.preprocess(&fresh);
    let d = rounds(&mut c, &fresh, 2);
    check("as-many-rounds", a == d && again.calls() == fresh.calls());
    for (u, v) in again.dists().iter().zip(fresh.dists()) {
        check("same-distributions", all(2, |i| close(u[i], v[i], 1e-6)));
    }
    let (f, e) = (b.postprocess(&again), c.postprocess(&fresh));
    check("same-vote", all(2, |i| close(f.confidence(&s, i), e.confidence(&s, i), 1e-4)));
}
/// max(4 / (tolerance/2), 8 ln(n/nu) / (tolerance/2)^2) rounds
fn round_limit(nu: f64) {
    let y = vec![1.0, -1.0];
    let s = labelled(&y);
    let half: f64 = 0.75;
    let limit = (4.0 / half).max(8.0 * (2.0 / nu).ln() / (half * half));
    let wl = Probe::new(|_, _| vec![1.0, 1.0]);
    let mut b = ERLPBoost::init(&s).nu(nu).tolerance(2.0 * half);
    b.preprocess(&wl);
    let mut k = 1;
    while k < 40 && b.boost(&wl, k).is_continue() {
        k += 1;
    }
    check("rounds-within-the-bound", lt(wl.calls() as f64, limit + 1.0));
    b.preprocess(&wl);
    let before = wl.calls();
    let _ = b.boost(&wl, limit as usize);
    check("the-last-round-is-made", wl.calls() == before + 1);
    check("no-round-after-the-limit", b.boost(&wl, limit.ceil() as usize + 1).is_break());
}
/// hypotheses of an earlier run have no vote
fn rerun_other() {
    let y = vec![1.0, -1.0];
    let s = labelled(&y);
    let mut b = ERLPBoost::init(&s).tolerance(0.5);
    let first = Script::open(vec![any_labels(2), any_labels(2)]);
    b.preprocess(&first);
    let _ = rounds(&mut b, &first, 2);
    let h = vec![[-0.5, 0.25, 0.75][choose("first row", 3)], [-0.75, 0.5][choose("second row", 2)]];
    let second = Script::open(vec![h.clone()]);
    b.preprocess(&second);
    let _ = b.boost(&second, 1);
    let f = b.postprocess(&second);
    check("only-this-hypothesis-votes", all(2, |i| close(f.confidence(&s, i), h[i], 1e-6)));
    cover("rerun");
}
