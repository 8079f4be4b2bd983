//! MLPBoost: the better of a Frank-Wolfe and a linear programming step.
use crate::util::*;
use miniboosts::research::Research;
use miniboosts::*;
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, PartialEq)]
enum Rule {
    Classic,
    Short,
    Line,
    Blended,
}
impl Rule {
    fn fw(self) -> FWType {
        match self {
            Rule::Classic => FWType::Classic,
            Rule::Short => FWType::ShortStep,
            Rule::Line => FWType::LineSearch,
            Rule::Blended => FWType::BlendedPairwise,
        }
    }
}
pub fn jobs(r: &mut Reg, thorough: bool) {
    job(r, "rerun-n2", rerun);
    job(r, "rerun-after-other", rerun_other);
    job(r, "inexact-solver", inexact);
    for nu in [1.0, 1.5, 2.0] {
        job(r, format!("round-limit-nu{nu}"), move || round_limit(nu));
    }
    for (name, rule) in [
        ("short-step", Rule::Short),
        ("classic", Rule::Classic),
        ("line-search", Rule::Line),
        ("blended-pairwise", Rule::Blended),
    ] {
        job(r, format!("{name}-signs-n2-t2-nu1"), move || go(2, 2, 1.0, 0.5, Kind::Signs, rule, true));
        job(r, format!("{name}-signs-n3-t2-nu1.5"), move || go(3, 2, 1.5, 0.25, Kind::Signs, rule, true));
    }
    for nu in [1.0, 1.5] {
        job(r, format!("signs-n2-t3-nu{nu}"), move || go(2, 3, nu, 0.5, Kind::Signs, Rule::Short, true));
        job(r, format!("signs-n2-t2-nu{nu}-perturbed"), move || go(2, 2, nu, 0.5, Kind::Signs, Rule::Short, false));
    }
    job(r, "signs-n3-t2-nu1.25", || go(3, 2, 1.25, 0.25, Kind::Signs, Rule::Short, true));
    job(r, "signs-n2-t2-nu2", || go(2, 2, 2.0, 0.5, Kind::Signs, Rule::Short, true));
    job(r, "reals-n2-t1", || go(2, 1, 1.5, 0.5, Kind::Reals, Rule::Short, true));
    job(r, "reals-n3-t1", || go(3, 1, 1.25, 0.5, Kind::Reals, Rule::Short, true));
    for (name, rule) in [("short-step", Rule::Short), ("line-search", Rule::Line), ("blended-pairwise", Rule::Blended)] {
        for case in 0..4 {
            job(r, format!("{name}-better-than-the-linear-program-{case}"), move || primary(rule, case));
        }
    }
    for (name, rule) in [("short-step", Rule::Short), ("classic", Rule::Classic), ("blended-pairwise", Rule::Blended)] {
        job(r, format!("{name}-repeats-n3-t4-nu1"), move || repeats(3, 1.0, 0.125, rule, 4));
    }
    if thorough {
        job(r, "signs-n3-t2-nu1", || go(3, 2, 1.0, 0.25, Kind::Signs, Rule::Short, true));
        job(r, "signs-n3-t2-nu2", || go(3, 2, 2.0, 0.25, Kind::Signs, Rule::Short, true));
        job(r, "halves-n2-t2-nu1.25", || go(2, 2, 1.25, 0.2, Kind::Halves, Rule::Short, true));
        job(r, "signs-n3-t3-nu1", || go(3, 3, 1.0, 0.25, Kind::Signs, Rule::Short, true));
        job(r, "signs-n3-t3-nu1.5", || go(3, 3, 1.5, 0.25, Kind::Signs, Rule::Short, true));
        job(r, "halves-n3-t2-nu1.5", || go(3, 2, 1.5, 0.25, Kind::Halves, Rule::Short, true));
        job(r, "signs-n3-t2-nu1.5-perturbed", || go(3, 2, 1.5, 0.25, Kind::Signs, Rule::Short, false));
    }
}

/// the least d.u + (relative entropy of d)/eta over the capped distributions
fn smoothed(u: &[f64], nu: f64, eta: f64) -> f64 {
    let n = u.len();
    let mut v = u.to_vec();
    for i in 0..n {
        for j in 0..i {
            if v[i] < v[j] {
                v.swap(i, j)
            }
        }
    }
    for c in 0..n {
        let left = 1.0 - c as f64 / nu;
        let ex: Vec<f64> = v[c..].iter().map(|x| (-eta * (*x - v[c])).exp()).collect();
        let z = sum(&ex);
        if left * nu <= z {
            let d: Vec<f64> = (0..n).map(|i| if i < c { 1.0 / nu } else { left * ex[i - c] / z }).collect();
            return value(&d, &v, eta);
        }
    }
    value(&vec![1.0 / nu; n], &v, eta)
}
fn value(d: &[f64], u: &[f64], eta: f64) -> f64 {
    let n = d.len();
    let ent = (0..n).fold((n as f64).ln(), |a, i| if d[i] > 0.0 { a + d[i] * d[i].ln() } else { a });
    dot(d, u) + ent / eta
}

fn go(n: usize, t: usize, nu: f64, tol: f64, kind: Kind, rule: Rule, exact: bool) {
    let hs: Vec<Vec<f64>> = (0..t).map(|_| kind.hypothesis(n)).collect();
    play(nu, tol, hs, rule, exact, kind == Kind::Reals)
}
/// the least edge of u over the capped distributions
fn soft_margin(u: &[f64], nu: f64) -> f64 {
    capped_vertices(u.len(), nu).iter().fold(9.0, |a: f64, d| a.min(dot(d, u)))
}
/// the smoothed objective of the combination of two hypotheses of largest
/// soft margin (the least one if several are best)
fn program(a: &[f64], b: &[f64], nu: f64, eta: f64) -> f64 {
    let n = a.len();
    let mut steps = vec![0.0, 1.0];
    for i in 0..n {
        for j in 0..i {
            // (1 - s) a + s b agree on the two rows
            let (x, y) = (a[j] - a[i], (b[i] - a[i]) - (b[j] - a[j]));
            if y != 0.0 && x / y > 0.0 && x / y < 1.0 {
                steps.push(x / y);
            }
        }
    }
    let at = |s: f64| -> Vec<f64> { (0..n).map(|i| a[i] + s * (b[i] - a[i])).collect() };
    let values: Vec<f64> = steps.iter().map(|s| soft_margin(&at(*s), nu)).collect();
    let best = values.iter().fold(-9.0, |a: f64, v| a.max(*v));
    let mut least = 9.0;
    for (s, v) in steps.iter().zip(&values) {
        if *v >= best {
            least = smoothed(&at(*s), nu, eta).min(least);
        }
    }
    least
}
/// the multipliers of an interior point solver are off by a rounding error
fn inexact() {
    fix_draws(Some((-1.0f64).exp()));
    let y = pos_first(3);
    let s = labelled(&y);
    let wrong = |i: usize| -> Vec<f64> { (0..3).map(|j| if i == j { -y[j] } else { y[j] }).collect() };
    let second = match choose("second hypothesis", 3) {
        0 => wrong(1),
        1 => y.clone(),
        _ => wrong(2),
    };
    let wl = Script::open(vec![wrong(0), second.clone(), wrong(choose("third", 2)), y.clone()]);
    let mut b = MLPBoost::init(&s).tolerance(0.125).frank_wolfe(FWType::Classic);
    b.preprocess(&wl);
    let last = 2 + choose("last round", 2);
    for k in 1..=last {
        // only the latest solution is inexact
        solver_error(if k == last { Some(1e-7) } else { None });
        if b.boost(&wl, k).is_break() {
            break;
        }
    }
    let w = b.current_hypothesis().decompose().0;
    check("weights", and(vec![close(sum(&w), 1.0, 1e-6), all(w.len(), |i| ge(w[i], -1e-6))]));
    cover("inexact");
}
/// margins for which the Frank-Wolfe step is better than the linear program
fn primary(rule: Rule, case: usize) {
    let (nu, tol, m) = match case {
        0 => (1.0, 0.5, vec![vec![-0.75, 0.5, -0.75], vec![-1.0, 0.0, 0.75]]),
        1 => (1.0, 0.75, vec![vec![-1.0, 0.75], vec![1.0, 0.5]]),
        2 => (1.5, 0.25, vec![vec![-0.75, -0.75, 1.0], vec![0.0, -1.0, -0.75]]),
        _ => (1.0, 0.5, vec![vec![-1.0, -0.75, 0.5], vec![0.75, 0.75, 0.25]]),
    };
    let y = pos_first(m[0].len());
    let hs = m.iter().map(|v| (0..y.len()).map(|i| v[i] * y[i]).collect()).collect();
    play_on(y, nu, tol, hs, rule, true, false)
}
/// hypotheses wrong on one row each, then some of them again
fn repeats(n: usize, nu: f64, tol: f64, rule: Rule, t: usize) {
    let y = pos_first(n);
    let wrong = |i: usize| -> Vec<f64> { (0..n).map(|j| if i == j { -y[j] } else { y[j] }).collect() };
    let mut hs = vec![wrong(0), wrong(1)];
    while hs.len() < t {
        hs.push(wrong(choose("wrong row", n)));
    }
    play_on(y, nu, tol, hs, rule, true, false)
}
fn play(nu: f64, tol: f64, hs: Vec<Vec<f64>>, rule: Rule, exact: bool, reals: bool) {
    play_on(pos_first(hs[0].len()), nu, tol, hs, rule, exact, reals)
}
fn play_on(y: Vec<f64>, nu: f64, tol: f64, hs: Vec<Vec<f64>>, rule: Rule, exact: bool, reals: bool) {
    let (n, t) = (hs[0].len(), hs.len());
    if exact {
        // the perturbation ln ln (1/r) of the linear program vanishes
        fix_draws(Some((-1.0f64).exp()));
    }
    let s = labelled(&y);
    let ms: Vec<Vec<f64>> = hs.iter().map(|h| margins(&y, h)).collect();
    let eta = 0.5f64.max((n as f64 / nu).ln() / (tol / 2.0));
    let single = nu == n as f64;
    // nothing symbolic: more points for the line search
    let fine = hs.iter().flatten().all(|v| is_constant(*v));
    let u: RefCell<Vec<f64>> = RefCell::new(vec![0.0; n]);
    let (smallest, gap, objective) = (Cell::new(1.0), Cell::new(2.0), Cell::new(-2.0));
    // smoothed objectives the latest combination has to reach
    let reach: RefCell<Vec<f64>> = RefCell::default();
    let wl = Probe::new(|k, d| {
        let u = u.borrow();
        if k == 0 {
            check("first-distribution-uniform", all(n, |i| close(d[i] * n as f64, 1.0, 1e-9)));
        } else {
            // (weights left open by the perturbation: only for their sum)
            if !exact && k > 1 {
                finish()
            }
            check("distribution", and(vec![close(sum(d), 1.0, 1e-9), all(n, |i| ge(d[i], 0.0))]));
            check("capped", all(n, |i| le(d[i] * nu, 1.0 + 1e-9)));
            let low = u.iter().fold(9.0, |a: f64, v| a.min(*v));
            let ex: Vec<f64> = u.iter().map(|v| (-eta * (*v - low)).exp()).collect();
            check("follows-the-margins", all(n, |j| {
                or(vec![ge(d[j] * nu, 1.0 - 1e-9), all(n, |i| ge(d[j] * ex[i], d[i] * ex[j] - 1e-9))])
            }));
            objective.set(value(d, &u, eta));
            for v in reach.borrow().iter().filter(|_| exact) {
                check("no-worse-than-either-step", ge(objective.get(), *v - 1e-6));
            }
            if exact && k > 1 {
                let w = simplex("w", k);
                let om: Vec<f64> = (0..n).map(|i| (0..k).fold(0.0, |a, j| a + w[j] * ms[j][i])).collect();
                check("no-worse-than-the-linear-program", soft_margin_at_most(&om, nu, objective.get() + tol / 2.0 + 1e-6));
            }
            cover("went on");
            observe("d", d[0]);
        }
        if k == t {
            finish()
        }
        let e = dot(d, &ms[k]);
        if e < smallest.get() {
            smallest.set(e);
        }
        if k > 0 {
            gap.set(smallest.get() - objective.get());
            let m = &ms[k];
            let steps = match rule {
                Rule::Classic => vec![2.0 / (k + 2) as f64],
                Rule::Short => {
                    let far = (0..n).fold(0.0, |a: f64, i| a.max((m[i] - u[i]).abs()));
                    let step = if far > 0.0 { (e - dot(d, &u)) / (eta * far * far) } else { 0.0 };
                    vec![step.max(0.0).min(1.0), 0.0]
                }
                Rule::Line if fine => (0..=16).map(|i| i as f64 / 16.0).collect(),
                Rule::Line => vec![0.0, 0.25, 0.5, 0.75, 1.0],
                // with one hypothesis so far this is a line search as well
                Rule::Blended if fine && k == 1 => (0..=16).map(|i| i as f64 / 16.0).collect(),
                Rule::Blended => vec![0.0],
            };
            *reach.borrow_mut() = steps
                .iter()
                .map(|st| {
                    let at: Vec<f64> = (0..n).map(|i| u[i] + *st * (m[i] - u[i])).collect();
                    smoothed(&at, nu, eta)
                })
                .collect();
            if fine && exact && k == 1 {
                reach.borrow_mut().push(program(&ms[0], m, nu, eta));
            }
        }
        hs[k].clone()
    });
    // the order of the settings does not matter
    let mut b = if t == 2 {
        MLPBoost::init(&s).frank_wolfe(rule.fw()).tolerance(tol).nu(nu)
    } else {
        MLPBoost::init(&s).nu(nu).tolerance(tol).frank_wolfe(rule.fw())
    };
    b.preprocess(&wl);
    if reals {
        max_solves(2);
    }
    let mut k = 1;
    while b.boost(&wl, k).is_continue() {
        if !single {
            check("goes-on-only-while-the-gap-is-open", gt(gap.get(), tol / 2.0 - 1e-9));
        }
        let (w, h) = b.current_hypothesis().decompose();
        check("weights", and(vec![close(sum(&w), 1.0, 1e-9), all(w.len(), |i| ge(w[i], 0.0))]));
        let new: Vec<f64> = (0..n).map(|i| (0..w.len()).fold(0.0, |a, j| a + w[j] * h[j].conf[i] * y[i])).collect();
        if k == 1 {
            check("first-hypothesis-alone", all(n, |i| close(new[i], ms[0][i], 1e-9)));
        }
        *u.borrow_mut() = new;
        k += 1;
    }
    if !single {
        check("stops-only-when-the-gap-is-closed", le(gap.get(), tol / 2.0 + 1e-9));
    }
    let f = b.postprocess(&wl);
    let fm: Vec<f64> = (0..n).map(|i| y[i] * f.confidence(&s, i)).collect();
    check("soft-margin-within-tolerance", soft_margin_at_least(&fm, nu, smallest.get() - tol - 1e-9));
    cover("stopped");
    observe("rounds", k as f64);
}

/// a second run starts afresh
fn rerun() {
    fix_draws(Some((-1.0f64).exp()));
    let y = vec![1.0, -1.0];
    let s = labelled(&y);
    let h: Vec<Vec<f64>> = (0..2).map(|_| any_labels(2)).collect();
    let g = any_labels(2);
    let mut b = MLPBoost::init(&s).tolerance(0.5);
    let first = Script::open(vec![g.clone(), g]);
    b.preprocess(&first);
    let _ = rounds(&mut b, &first, 2);
    let again = Script::open(h.clone());
    b.preprocess(&again);
    let a = rounds(&mut b, &again, 2);
    let fresh = Script::open(h);
    let mut c = MLPBoost::init(&s).tolerance(0.5);
    c.preprocess(&fresh);
    let d = rounds(&mut c, &fresh, 2);
    check("as-many-rounds", a == d && again.calls() == fresh.calls());
    for (u, v) in again.dists().iter().zip(fresh.dists()) {
        check("same-distributions", all(2, |i| close(u[i], v[i], 1e-6)));
    }
}
/// 8 ln(n/nu) / (tolerance/2)^2 rounds, but at least one
fn round_limit(nu: f64) {
    fix_draws(Some((-1.0f64).exp()));
    let y = vec![1.0, -1.0];
    let s = labelled(&y);
    let half: f64 = 0.25;
    let limit = (8.0 * (2.0 / nu).ln() / (half * half)).ceil().max(1.0) as usize;
    let wl = Probe::new(|_, _| vec![1.0, 1.0]);
    let mut b = MLPBoost::init(&s).nu(nu).tolerance(2.0 * half);
    b.preprocess(&wl);
    check("first-round", b.boost(&wl, 1).is_continue());
    let before = wl.calls();
    if limit > 1 {
        let _ = b.boost(&wl, limit);
        check("last-round-is-made", wl.calls() == before + 1);
    }
    let before = wl.calls();
    check("no-round-after-the-limit", b.boost(&wl, limit + 1).is_break());
    check("no-call-after-the-limit", wl.calls() == before);
    let _ = b.postprocess(&wl).confidence(&s, 0);
}
/// hypotheses of an earlier run have no vote
fn rerun_other() {
    fix_draws(Some((-1.0f64).exp()));
    let y = vec![1.0, -1.0];
    let s = labelled(&y);
    let mut b = MLPBoost::init(&s).tolerance(0.5);
    let first = Script::open(vec![any_labels(2), any_labels(2)]);
    b.preprocess(&first);
    let _ = rounds(&mut b, &first, 2);
    let h = vec![[-0.5, 0.25, 0.75][choose("first row", 3)], [-0.75, 0.5][choose("second row", 2)]];
    let second = Script::open(vec![h.clone()]);
    b.preprocess(&second);
    let _ = b.boost(&second, 1);
    let f = b.postprocess(&second);
    check("only-this-hypothesis-votes", all(2, |i| close(f.confidence(&s, i), h[i], 1e-6)));
    cover("rerun");
}
