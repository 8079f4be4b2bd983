//! SoftBoost and TotalBoost: relative entropy projections onto the capped
//! distributions on which every hypothesis so far has a small edge.
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for nu in [1.0, 1.5] {
        job(r, format!("signs-n2-t1-nu{nu}"), move || soft(2, 1, nu, 0.25, Kind::Signs));
        job(r, format!("signs-n2-t2-nu{nu}"), move || soft(2, 2, nu, 0.25, Kind::Signs));
        job(r, format!("signs-n3-t1-nu{nu}"), move || soft(3, 1, nu, 0.25, Kind::Signs));
        job(r, format!("signs-n3-t2-nu{nu}"), move || soft(3, 2, nu, 0.25, Kind::Signs));
    }
    job(r, "signs-n3-t2-nu2", || soft(3, 2, 2.0, 0.25, Kind::Signs));
    job(r, "halves-n2-t1", || soft(2, 1, 1.5, 0.125, Kind::Halves));
    job(r, "total-n2-t2", || total(2, 2, 0.25));
    job(r, "total-n3-t1", || total(3, 1, 0.25));
    job(r, "reals-n2-t1-exact", || soft(2, 1, 1.5, 0.0009765625, Kind::Reals));
    job(r, "reals-n2-t1", || soft(2, 1, 1.5, 0.25, Kind::Reals));
    job(r, "rerun-n2", rerun);
    job(r, "rerun-after-other", rerun_other);
    for (nu, tol) in [(1.0, 0.5), (2.0, 0.25), (3.0, 0.5)] {
        job(r, format!("round-limit-nu{nu}"), move || round_limit(nu, tol));
    }
    if thorough {
        job(r, "total-n3-t2", || total(3, 2, 0.25));
        for nu in [1.0, 2.0, 2.5] {
            job(r, format!("signs-n4-t1-nu{nu}"), move || soft(4, 1, nu, 0.125, Kind::Signs));
            job(r, format!("halves-n3-t1-nu{nu}"), move || soft(3, 1, nu, 0.125, Kind::Halves));
        }
    }
}
fn soft(n: usize, t: usize, nu: f64, tol: f64, kind: Kind) {
    let y = pos_first(n);
    let s = labelled(&y);
    // the order of the settings does not matter
    let b = if t == 2 { SoftBoost::init(&s).tolerance(tol).nu(nu) } else { SoftBoost::init(&s).nu(nu).tolerance(tol) };
    go(b, &s, &y, t, nu, tol, kind)
}
fn total(n: usize, t: usize, tol: f64) {
    let y = pos_first(n);
    let s = labelled(&y);
    go(TotalBoost::init(&s).tolerance(tol), &s, &y, t, 1.0, tol, Kind::Signs)
}
fn go<Bo>(mut b: Bo, s: &Sample, y: &[f64], t: usize, nu: f64, tol: f64, kind: Kind)
where
    Bo: Booster<Table, Output = WeightedMajority<Table>>,
{
    let n = y.len();
    let hs: Vec<Vec<f64>> = (0..t).map(|_| kind.hypothesis(n)).collect();
    let ms: Vec<Vec<f64>> = hs.iter().map(|h| margins(y, h)).collect();
    let smallest = std::cell::Cell::new(1.0);
    let wl = Probe::new(|k, d| {
        if k == 0 {
            check("first-distribution-uniform", same(d, &uniform(n)));
        } else {
            check("distribution", is_distribution(d));
            check("capped", all(n, |i| le(d[i] * nu, 1.0)));
            for m in &ms[..k] {
                check("edges-below-the-smallest-minus-tolerance", le(dot(d, m), smallest.get() - tol));
            }
            if k == 1 && kind == Kind::Signs {
                // no other feasible distribution has a larger entropy (first
                // order condition of a convex program)
                let other = capped_simplex("other", n, nu);
                let gap = (0..n).fold(0.0, |a, i| a + d[i].ln() * (d[i] - other[i]));
                check("largest-entropy", or(vec![gt(dot(&other, &ms[0]), smallest.get() - tol), le(gap, 1e-6)]));
            }
            cover("went on");
            observe("d", d[0]);
        }
        if k == t {
            finish()
        }
        let e = dot(d, &ms[k]);
        if e < smallest.get() {
            smallest.set(e);
        }
        hs[k].clone()
    });
    b.preprocess(&wl);
    if kind == Kind::Reals {
        max_solves(2);
    }
    let mut k = 1;
    while b.boost(&wl, k).is_continue() {
        k += 1;
    }
    // no distribution without zeros meets the constraints any more
    let other = capped_simplex("other", n, nu);
    check(
        "stops-only-when-infeasible",
        or(vec![
            any_of(n, |i| le(other[i], 0.0)),
            any_of(k, |j| gt(dot(&other, &ms[j]), smallest.get() - tol)),
        ]),
    );
    let f = b.postprocess(&wl);
    let fm: Vec<f64> = (0..n).map(|i| y[i] * f.confidence(s, i)).collect();
    check("soft-margin-within-tolerance", soft_margin_at_least(&fm, nu, smallest.get() - tol));
    let w = simplex("w", k);
    let om: Vec<f64> = (0..n).map(|i| (0..k).fold(0.0, |a, j| a + w[j] * ms[j][i])).collect();
    for d in capped_vertices(n, nu) {
        check("soft-margin-optimal", soft_margin_at_most(&om, nu, dot(&d, &fm)));
    }
    cover("stopped");
    observe("rounds", k as f64);
}
/// a second run starts afresh
fn rerun() {
    let y = vec![1.0, -1.0];
    let s = labelled(&y);
    let mut b = SoftBoost::init(&s).tolerance(0.25);
    let first = Script::open(vec![vec![-1.0, 0.0], vec![1.0, -1.0]]);
    b.preprocess(&first);
    let _ = b.boost(&first, 1);
    let _ = b.boost(&first, 2);
    let second = Script::open(vec![vec![1.0, 0.0], vec![1.0, -1.0]]);
    b.preprocess(&second);
    // margins (1, 0): an edge of 1/2 under the uniform distribution
    let a = b.boost(&second, 1).is_continue();
    check("goes-on", a);
    check("first-distribution-uniform", same(&second.dists()[0], &uniform(2)));
    let _ = b.boost(&second, 2);
    let d = &second.dists()[1];
    check("only-the-hypotheses-of-this-run", and(vec![eq(d[0], 0.25), eq(d[1], 0.75)]));
    cover("rerun");
}
/// 2 ln(n/nu) / tolerance^2 rounds, and at least one
fn round_limit(nu: f64, tol: f64) {
    let y = vec![1.0, -1.0, -1.0];
    let s = labelled(&y);
    let limit = 2.0 * (3.0 / nu).ln() / (tol * tol);
    let h = Table { conf: vec![1.0, 1.0, -1.0] };
    let asked = std::cell::Cell::new(0usize);
    let wl = Probe::new(|k, _| {
        asked.set(k + 1);
        check("rounds-within-the-bound", or(vec![lt(k as f64, limit), (k == 0).into()]));
        if k == 1 {
            finish()
        }
        h.conf.clone()
    });
    let mut b = SoftBoost::init(&s).nu(nu).tolerance(tol);
    let full = Script::open(vec![vec![1.0; 3]]);
    b.preprocess(&full);
    let _ = b.boost(&full, (limit as usize).max(1));
    check("the-last-round-is-made", full.calls() == 1);
    check("no-round-after-the-limit", b.boost(&full, (limit.ceil() as usize).max(1) + 1).is_break());
    let f = b.run(&wl);
    check("asks-at-least-once", asked.get() > 0);
    check("votes", all(3, |i| eq(f.confidence(&s, i), h.conf[i])));
    cover("ran");
}
/// hypotheses of an earlier run have no vote
fn rerun_other() {
    let y = vec![1.0, -1.0];
    let s = labelled(&y);
    let mut b = SoftBoost::init(&s).tolerance(0.25);
    let first = Script::open(vec![any_labels(2), any_labels(2)]);
    b.preprocess(&first);
    let _ = rounds(&mut b, &first, 2);
    let h = vec![[-0.5, 0.25, 0.75][choose("first row", 3)], [-0.75, 0.5][choose("second row", 2)]];
    let second = Script::open(vec![h.clone()]);
    b.preprocess(&second);
    let _ = b.boost(&second, 1);
    let f = b.postprocess(&second);
    check("only-this-hypothesis-votes", all(2, |i| close(f.confidence(&s, i), h[i], 1e-6)));
    cover("rerun");
}
