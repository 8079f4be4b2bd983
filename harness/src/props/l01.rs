//! Losses: value, gradient, curvature and the best coefficient.
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for l1 in [true, false] {
        let nm = if l1 { "l1" } else { "l2" };
        for n in 1..=(if thorough { 5usize } else { 4 }) {
            job(r, format!("{nm}-value-n{n}"), move || value(l1, n));
            job(r, format!("{nm}-gradient-n{n}"), move || gradient(l1, n));
            job(r, format!("{nm}-coefficient-n{n}"), move || coefficient(l1, n));
        }
    }
}
fn loss(l1: bool) -> GBMLoss {
    if l1 { GBMLoss::L1 } else { GBMLoss::L2 }
}
fn point(l1: bool, p: f64, y: f64) -> f64 {
    let d = p - y;
    if l1 {
        if d < 0.0 { -d } else { d }
    } else {
        d * d
    }
}
fn value(l1: bool, n: usize) {
    let p: Vec<f64> = (0..n).map(|_| any("p")).collect();
    let y: Vec<f64> = (0..n).map(|_| any("y")).collect();
    let l = loss(l1);
    let mut tot = 0.0;
    for i in 0..n {
        check("pointwise", eq(l.eval_at_point(p[i], y[i]), point(l1, p[i], y[i])));
        tot = tot + point(l1, p[i], y[i]);
    }
    check("mean", eq(l.eval(&p, &y) * n as f64, tot));
}
fn gradient(l1: bool, n: usize) {
    let p: Vec<f64> = (0..n).map(|_| any("p")).collect();
    let y: Vec<f64> = (0..n).map(|_| any("y")).collect();
    let l = loss(l1);
    let g = l.gradient(&p, &y);
    let h = l.hessian(&p, &y);
    check("one-entry-per-row", g.len() == n && h.len() == n);
    for i in 0..n {
        // half the squared error is what the second-order expansion uses
        if l1 {
            let q = any("q");
            // a subgradient of |p - y|
            let lhs = if q < y[i] { y[i] - q } else { q - y[i] };
            let rhs = if p[i] < y[i] { y[i] - p[i] } else { p[i] - y[i] };
            check("subgradient", ge(lhs, rhs + g[i] * (q - p[i])));
            check("curvature", eq(h[i], 0.0));
        } else {
            check("gradient", eq(g[i], p[i] - y[i]));
            check("curvature", eq(h[i], 1.0));
        }
    }
}
fn coefficient(l1: bool, n: usize) {
    let r: Vec<f64> = (0..n).map(|_| any("r")).collect();
    let p: Vec<f64> = (0..n).map(|_| any("p")).collect();
    let l = loss(l1);
    let c = l.best_coefficient(&r, &p);
    let q = any("other");
    if l1 {
        // the weight |p| of the kinks r/p on either side of c never exceeds one half
        let mut left = 0.0;
        let mut right = 0.0;
        let mut total = 0.0;
        let mut zero = true;
        for i in 0..n {
            if p[i] == 0.0 {
                continue;
            }
            zero = false;
            let a = if p[i] > 0.0 { p[i] } else { -p[i] };
            let k = r[i] / p[i];
            total = total + a;
            if k < c {
                left = left + a;
            }
            if k > c {
                right = right + a;
            }
        }
        check("median", and(vec![le(2.0 * left, total), le(2.0 * right, total)]));
        if zero {
            check("zero-prediction", is_finite(c));
        }
        if n <= 2 {
            let mut a = 0.0;
            let mut b = 0.0;
            for i in 0..n {
                a = a + point(true, c * p[i], r[i]);
                b = b + point(true, q * p[i], r[i]);
            }
            check("minimises", le(a, b));
        }
    } else {
        // stationary point of a convex function
        let mut d = 0.0;
        for i in 0..n {
            d = d + p[i] * (c * p[i] - r[i]);
        }
        check("stationary", eq(d, 0.0));
        check("finite", is_finite(c));
    }
    observe("c", c);
}
