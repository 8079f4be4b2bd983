//! Objective functions of the research module.
use crate::util::*;
use miniboosts::research::ObjectiveFunction;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for n in 2..=if thorough { 5 } else { 4usize } {
        job(r, format!("hard-margin-n{n}"), move || hard(n));
        job(r, format!("exponential-n{n}"), move || exponential(n));
        for nu in [1.0, 1.5, 2.0, 2.75, 4.0, 5.0] {
            if nu <= n as f64 {
                job(r, format!("soft-margin-n{n}-nu{nu}"), move || soft(n, nu));
            }
        }
        job(r, format!("capping-n{n}"), move || capping(n));
    }
    job(r, "weighted-majority", weighted);
}
fn margins_of(n: usize) -> (Sample, Table, Vec<f64>) {
    let y = two_class_labels(n);
    let h = Table { conf: confs("h", n) };
    let m = margins(&y, &h.conf);
    (labelled(&y), h, m)
}
/// the least mean margin over the capped distributions
fn soft(n: usize, nu: f64) {
    let (s, h, m) = margins_of(n);
    let v = SoftMarginObjective::new(nu).eval(&s, &h);
    observe("objective", v);
    check("no-capped-distribution-is-worse", soft_margin_at_least(&m, nu, v - 1e-9));
    check("a-capped-distribution-attains-it", soft_margin_at_most(&m, nu, v + 1e-9));
}
fn hard(n: usize) {
    let (s, h, m) = margins_of(n);
    let v = HardMarginObjective::new().eval(&s, &h);
    observe("objective", v);
    check("no-margin-is-smaller", all(n, |i| ge(m[i], v)));
    check("a-margin-attains-it", any_of(n, |i| eq(m[i], v)));
    check("soft-margin-without-capping", eq(SoftMarginObjective::new(1.0).eval(&s, &h), v));
    check("default", eq(HardMarginObjective::default().eval(&s, &h), v));
}
/// for hypotheses which predict +1 or -1
fn exponential(n: usize) {
    let y = two_class_labels(n);
    let h = Table { conf: any_labels(n) };
    let s = labelled(&y);
    let v = ExponentialLoss::new().eval(&s, &h);
    observe("objective", v);
    let mut want = 0.0;
    for m in margins(&y, &h.conf) {
        want = want + (-m).exp();
    }
    check("mean-of-exponentials", close(v * n as f64, want, 1e-9));
}
/// every capping parameter in [1, n] is accepted
fn capping(n: usize) {
    let y = pos_first(n);
    let s = labelled(&y);
    let h = Table { conf: y.iter().map(|v| *v * 0.5).collect() };
    let nu = any_in("nu", 1.0, n as f64, false, false);
    let v = SoftMarginObjective::new(nu).eval(&s, &h);
    check("constant-margins", close(v, 0.5, 1e-9));
}
/// the objective of a combined hypothesis uses its (normalised) confidences
fn weighted() {
    let n = 3;
    let y = pos_first(n);
    let s = labelled(&y);
    let (g, h) = (Table { conf: any_labels(n) }, Table { conf: any_labels(n) });
    let (u, v) = (any_in("w", 0.0, 4.0, true, false), any_in("w", 0.0, 4.0, true, false));
    let f = WeightedMajority::from_slices(&[u, v], &[g.clone(), h.clone()]);
    let m: Vec<f64> = (0..n).map(|i| y[i] * (u * g.conf[i] + v * h.conf[i])).collect();
    let o = SoftMarginObjective::new(1.5).eval(&s, &f);
    check("normalised-margins", and(vec![soft_margin_at_least(&m, 1.5, o * (u + v) - 1e-6), soft_margin_at_most(&m, 1.5, o * (u + v) + 1e-6)]));
}
