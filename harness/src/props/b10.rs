//! CERLPBoost: corrective updates by a Frank-Wolfe rule.
use crate::util::*;
use miniboosts::research::Research;
use miniboosts::*;
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, PartialEq)]
enum Rule {
    Classic,
    Short,
    Line,
    Blended,
}
impl Rule {
    fn fw(self) -> FWType {
        match self {
            Rule::Classic => FWType::Classic,
            Rule::Short => FWType::ShortStep,
            Rule::Line => FWType::LineSearch,
            Rule::Blended => FWType::BlendedPairwise,
        }
    }
}
pub fn jobs(r: &mut Reg, thorough: bool) {
    job(r, "rerun-n2", rerun);
    job(r, "rerun-after-other", rerun_other);
    for nu in [1.0, 1.5, 2.0] {
        job(r, format!("round-limit-nu{nu}"), move || round_limit(nu));
    }
    for case in 0..4 {
        job(r, format!("blended-pairwise-shift-{case}"), move || pairwise(case));
    }
    for (name, rule) in [
        ("classic", Rule::Classic),
        ("short-step", Rule::Short),
        ("line-search", Rule::Line),
        ("blended-pairwise", Rule::Blended),
    ] {
        for nu in [1.0, 1.5] {
            job(r, format!("{name}-signs-n2-t2-nu{nu}"), move || go(2, 2, nu, 0.5, Kind::Signs, rule));
            job(r, format!("{name}-signs-n3-t2-nu{nu}"), move || go(3, 2, nu, 0.25, Kind::Signs, rule));
        }
        job(r, format!("{name}-halves-n2-t2"), move || go(2, 2, 1.0, 0.5, Kind::Halves, rule));
        job(r, format!("{name}-reals-n2-t1"), move || go(2, 1, 1.0, 0.5, Kind::Reals, rule));
        job(r, format!("{name}-signs-n2-t2-nu2"), move || go(2, 2, 2.0, 0.5, Kind::Signs, rule));
        if rule == Rule::Classic {
            job(r, "classic-reals-n2-t2", move || go(2, 2, 1.0, 0.5, Kind::Reals, rule));
            job(r, "classic-reals-n2-t1-nu1.5", move || go(2, 1, 1.5, 0.5, Kind::Reals, rule));
            job(r, "classic-reals-n3-t1", move || go(3, 1, 1.0, 0.5, Kind::Reals, rule));
            job(r, "classic-reals-n3-t1-nu1.25", move || go(3, 1, 1.25, 0.5, Kind::Reals, rule));
        }
        if matches!(rule, Rule::Classic | Rule::Blended) {
            job(r, format!("{name}-signs-n2-t3-nu1"), move || go(2, 3, 1.0, 0.5, Kind::Signs, rule));
            job(r, format!("{name}-signs-n3-t3-nu1"), move || go(3, 3, 1.0, 0.25, Kind::Signs, rule));
        }
        if thorough {
            job(r, format!("{name}-signs-n3-t3-nu2"), move || go(3, 3, 2.0, 0.25, Kind::Signs, rule));
            job(r, format!("{name}-signs-n4-t2-nu1.25"), move || go(4, 2, 1.25, 0.1, Kind::Signs, rule));
            job(r, format!("{name}-halves-n3-t1"), move || go(3, 1, 1.5, 0.5, Kind::Halves, rule));
        }
    }
}

fn go(n: usize, t: usize, nu: f64, tol: f64, kind: Kind, rule: Rule) {
    let y = pos_first(n);
    let hs: Vec<Vec<f64>> = (0..t).map(|_| kind.hypothesis(n)).collect();
    play(y, nu, tol, hs, rule)
}
/// margins for which the fourth round shifts weight between two hypotheses:
/// all of it (2, 3) or a part (0, 1)
fn pairwise(case: usize) {
    let (nu, tol, m) = match case {
        0 => (1.5, 0.125, [[-0.5, -0.5, -0.5], [-0.25, -0.75, 1.0], [-0.5, 0.75, -0.5], [-0.25, 0.0, -0.25]]),
        1 => (1.0, 0.25, [[-0.75, 0.25, -0.75], [0.0, 1.0, -1.0], [-0.75, 0.5, 0.75], [-0.25, 0.0, -1.0]]),
        2 => (1.0, 0.25, [[0.25, -0.5, -1.0], [0.0, -0.5, 0.25], [0.75, 0.0, -0.75], [-0.75, 0.0, -0.25]]),
        _ => (1.5, 0.125, [[-0.75, -1.0, 0.25], [-1.0, 0.75, 0.5], [1.0, -0.75, 1.0], [0.25, 0.0, -0.5]]),
    };
    let y = pos_first(3);
    let hs = m.iter().map(|v| (0..3).map(|i| v[i] * y[i]).collect()).collect();
    play(y, nu, tol, hs, Rule::Blended)
}
fn play(y: Vec<f64>, nu: f64, tol: f64, hs: Vec<Vec<f64>>, rule: Rule) {
    let (n, t) = (y.len(), hs.len());
    let s = labelled(&y);
    let ms: Vec<Vec<f64>> = hs.iter().map(|h| margins(&y, h)).collect();
    let eta = (n as f64 / nu).ln() / (tol / 2.0);
    // margins of the combination before and after the latest update
    let old: RefCell<Vec<f64>> = RefCell::new(vec![0.0; n]);
    let u: RefCell<Vec<f64>> = RefCell::new(vec![0.0; n]);
    // the other end of the segment on which the latest update was to search
    let end: RefCell<Vec<f64>> = RefCell::new(vec![0.0; n]);
    let active: RefCell<Vec<(f64, Vec<f64>)>> = RefCell::default();
    let (smallest, gap) = (Cell::new(1.0), Cell::new(2.0));
    let wl = Probe::new(|k, d| {
        let u = u.borrow();
        if k == 0 {
            check("first-distribution-uniform", all(n, |i| close(d[i] * n as f64, 1.0, 1e-9)));
        } else {
            check("distribution", and(vec![close(sum(d), 1.0, 1e-9), all(n, |i| ge(d[i], 0.0))]));
            check("capped", all(n, |i| le(d[i] * nu, 1.0 + 1e-9)));
            let low = u.iter().fold(9.0, |a: f64, v| a.min(*v));
            let ex: Vec<f64> = u.iter().map(|v| (-eta * (*v - low)).exp()).collect();
            check("follows-the-margins", all(n, |j| {
                or(vec![ge(d[j] * nu, 1.0 - 1e-9), all(n, |i| ge(d[j] * ex[i], d[i] * ex[j] - 1e-9))])
            }));
            if matches!(rule, Rule::Line | Rule::Blended) && k > 1 {
                // no other step length is better
                let (old, end) = (old.borrow(), end.borrow());
                let to: f64 = (0..n).fold(0.0, |a, i| a + d[i] * (end[i] - u[i]));
                let back: f64 = (0..n).fold(0.0, |a, i| a + d[i] * (old[i] - u[i]));
                check("best-step", and(vec![le(to, 1e-6), le(back, 1e-6)]));
            }
            cover("went on");
            observe("d", d[0]);
        }
        if k == t {
            finish()
        }
        let e = dot(d, &ms[k]);
        if e < smallest.get() {
            smallest.set(e);
        }
        *end.borrow_mut() = ms[k].clone();
        if rule == Rule::Blended && k > 0 {
            // shift weight among the hypotheses in use if that promises more
            let active = active.borrow();
            let es: Vec<f64> = active.iter().map(|(_, m)| dot(d, m)).collect();
            let (mut best, mut worst) = (0, 0);
            for j in 0..es.len() {
                if es[j] > es[best] {
                    best = j
                }
                if es[j] < es[worst] {
                    worst = j
                }
            }
            if es[best] - es[worst] >= e.max(es[best]) - dot(d, &u) {
                cover("pairwise step");
                if active.len() > 2 {
                    cover("pairwise step among three");
                }
                let (w, from) = &active[worst];
                let to = &active[best].1;
                *end.borrow_mut() = (0..n).map(|i| u[i] + *w * (to[i] - from[i])).collect();
            }
        }
        gap.set(if k == 0 { 2.0 } else { e - dot(d, &u) });
        hs[k].clone()
    });
    // the order of the settings does not matter, and there are two names for the rule
    let mut b = if t == 2 {
        CERLPBoost::init(&s).variant(rule.fw()).tolerance(tol).nu(nu)
    } else {
        CERLPBoost::init(&s).nu(nu).tolerance(tol).fw_type(rule.fw())
    };
    b.preprocess(&wl);
    let mut k = 1;
    while b.boost(&wl, k).is_continue() {
        check("goes-on-only-while-the-gap-is-open", gt(gap.get(), tol / 2.0 - 1e-9));
        let (w, h) = b.current_hypothesis().decompose();
        check("weights", and(vec![close(sum(&w), 1.0, 1e-9), all(w.len(), |i| ge(w[i], 0.0))]));
        let parts: Vec<(f64, Vec<f64>)> = (0..w.len()).map(|j| (w[j], margins(&y, &h[j].conf))).collect();
        let new: Vec<f64> = (0..n).map(|i| parts.iter().fold(0.0, |a, (w, m)| a + *w * m[i])).collect();
        *active.borrow_mut() = parts;
        let was = u.borrow().clone();
        let m = &ms[k - 1];
        if k == 1 {
            check("first-hypothesis-alone", all(n, |i| close(new[i], m[i], 1e-9)));
        } else {
            let step = match rule {
                Rule::Classic => Some(2.0 / (k + 1) as f64),
                Rule::Short => {
                    let far = (0..n).fold(0.0, |a: f64, i| a.max((m[i] - was[i]).abs()));
                    Some((gap.get() / (eta * far * far)).min(1.0))
                }
                _ => None,
            };
            if let Some(step) = step {
                check("step", all(n, |i| close(new[i], was[i] + step * (m[i] - was[i]), 1e-6)));
            } else {
                let end = end.borrow();
                let (by, far): (Vec<f64>, Vec<f64>) = (0..n).map(|i| (new[i] - was[i], end[i] - was[i])).unzip();
                check("on-the-segment", all(n, |i| {
                    and(vec![
                        all(i, |j| close(by[i] * far[j], by[j] * far[i], 1e-6)),
                        ge(by[i] * far[i], -1e-6),
                        le(by[i] * far[i], far[i] * far[i] + 1e-6),
                    ])
                }));
            }
        }
        *old.borrow_mut() = was;
        *u.borrow_mut() = new;
        k += 1;
    }
    if nu < n as f64 {
        check("stops-only-when-the-gap-is-closed", le(gap.get(), tol / 2.0 + 1e-9));
    }
    let f = b.postprocess(&wl);
    let fm: Vec<f64> = (0..n).map(|i| y[i] * f.confidence(&s, i)).collect();
    check("soft-margin-within-tolerance", soft_margin_at_least(&fm, nu, smallest.get() - tol - 1e-9));
    cover("stopped");
    observe("rounds", k as f64);
}

/// a second run starts afresh
fn rerun() {
    let y = vec![1.0, -1.0];
    let s = labelled(&y);
    let h: Vec<Vec<f64>> = (0..2).map(|_| any_labels(2)).collect();
    let g = any_labels(2);
    let mut b = CERLPBoost::init(&s).tolerance(0.5);
    let first = Script::open(vec![g.clone(), g]);
    b.preprocess(&first);
    let _ = rounds(&mut b, &first, 2);
    let again = Script::open(h.clone());
    b.preprocess(&again);
    let a = rounds(&mut b, &again, 2);
    let fresh = Script::open(h);
    let mut c = CERLPBoost::init(&s).tolerance(0.5);
    c.preprocess(&fresh);
    let d = rounds(&mut c, &fresh, 2);
    check("as-many-rounds", a == d && again.calls() == fresh.calls());
    for (u, v) in again.dists().iter().zip(fresh.dists()) {
        check("same-distributions", all(2, |i| close(u[i], v[i], 1e-9)));
    }
    let (f, e) = (b.postprocess(&again), c.postprocess(&fresh));
    check("same-vote", all(2, |i| close(f.confidence(&s, i), e.confidence(&s, i), 1e-9)));
}
/// 8 ln(n/nu) / (tolerance/2)^2 rounds, but at least one
fn round_limit(nu: f64) {
    let y = vec![1.0, -1.0];
    let s = labelled(&y);
    let half: f64 = 0.25;
    let limit = (8.0 * (2.0 / nu).ln() / (half * half)).ceil().max(1.0) as usize;
    let wl = Probe::new(|k, _| if k % 2 == 0 { vec![1.0, 1.0] } else { vec![-1.0, -1.0] });
    let mut b = CERLPBoost::init(&s).nu(nu).tolerance(2.0 * half);
    b.preprocess(&wl);
    check("first-round", b.boost(&wl, 1).is_continue());
    let before = wl.calls();
    if limit > 1 {
        let _ = b.boost(&wl, limit);
        check("last-round-is-made", wl.calls() == before + 1);
    }
    let before = wl.calls();
    check("no-round-after-the-limit", b.boost(&wl, limit + 1).is_break());
    check("no-call-after-the-limit", wl.calls() == before);
}
/// hypotheses of an earlier run have no vote
fn rerun_other() {
    let y = vec![1.0, -1.0];
    let s = labelled(&y);
    let mut b = CERLPBoost::init(&s).tolerance(0.5);
    let first = Script::open(vec![any_labels(2), any_labels(2)]);
    b.preprocess(&first);
    let _ = rounds(&mut b, &first, 2);
    let h = vec![[-0.5, 0.25, 0.75][choose("first row", 3)], [-0.75, 0.5][choose("second row", 2)]];
    let second = Script::open(vec![h.clone()]);
    b.preprocess(&second);
    let _ = b.boost(&second, 1);
    let f = b.postprocess(&second);
    check("only-this-hypothesis-votes", all(2, |i| close(f.confidence(&s, i), h[i], 1e-6)));
    cover("rerun");
}
