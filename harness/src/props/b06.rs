//! LPBoost: column generation for the soft margin problem.
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for nu in [1.0, 1.5, 2.0] {
        job(r, format!("signs-n2-t1-nu{nu}"), move || run(2, 1, nu, 0.25, Kind::Signs));
        job(r, format!("signs-n2-t2-nu{nu}"), move || run(2, 2, nu, 0.25, Kind::Signs));
        job(r, format!("reals-n2-t1-nu{nu}"), move || run(2, 1, nu, 0.25, Kind::Reals));
    }
    for nu in [1.0, 1.5, 2.0, 3.0] {
        job(r, format!("signs-n3-t2-nu{nu}"), move || run(3, 2, nu, 0.25, Kind::Signs));
    }
    job(r, "signs-n2-t3-nu1", || run(2, 3, 1.0, 0.25, Kind::Signs));
    job(r, "halves-n2-t3-nu1.5", || run(2, 3, 1.5, 0.125, Kind::Halves));
    job(r, "rerun-n2", || rerun());
    job(r, "rerun-after-other", rerun_other);
    job(r, "reals-n2-t1-exact", || run(2, 1, 1.5, 0.0009765625, Kind::Reals));
    if thorough {
        for nu in [1.0, 2.0, 2.5] {
            job(r, format!("signs-n3-t3-nu{nu}"), move || run(3, 3, nu, 0.25, Kind::Signs));
            job(r, format!("signs-n4-t2-nu{nu}"), move || run(4, 2, nu, 0.25, Kind::Signs));
            job(r, format!("reals-n3-t1-nu{nu}"), move || run(3, 1, nu, 0.25, Kind::Reals));
        }
    }
}

fn run(n: usize, t: usize, nu: f64, tol: f64, kind: Kind) {
    let pos = 1 + choose("positive rows", n - 1);
    let y: Vec<f64> = (0..n).map(|i| if i < pos { 1.0 } else { -1.0 }).collect();
    let s = labelled(&y);
    let hs: Vec<Vec<f64>> = (0..t).map(|_| kind.hypothesis(n)).collect();
    let ms: Vec<Vec<f64>> = hs.iter().map(|h| margins(&y, h)).collect();
    let smallest = std::cell::Cell::new(1.0);
    let wl = Probe::new(|k, d| {
        if k == 0 {
            check("first-distribution-uniform", same(d, &uniform(n)));
        } else {
            // minimises the largest edge over all capped distributions
            check("distribution", is_distribution(d));
            check("capped", all(n, |i| le(d[i] * nu, 1.0)));
            let es: Vec<f64> = ms[..k].iter().map(|m| dot(d, m)).collect();
            let other = capped_simplex("other", n, nu);
            for e in &es {
                check("minimises-the-largest-edge", any_of(k, |j| le(*e, dot(&other, &ms[j]))));
                check("goes-on-only-below-the-tolerance", lt(*e, smallest.get() - tol));
            }
            cover("went on");
            observe("round", k as f64);
        }
        if k == t {
            finish()
        }
        let e = dot(d, &ms[k]);
        if e < smallest.get() {
            smallest.set(e);
        }
        hs[k].clone()
    });
    // the order of the settings does not matter
    let mut b = if t == 2 { LPBoost::init(&s).tolerance(tol).nu(nu) } else { LPBoost::init(&s).nu(nu).tolerance(tol) };
    b.preprocess(&wl);
    let mut k = 1;
    while b.boost(&wl, k).is_continue() {
        k += 1;
    }
    // a convex combination whose soft margin is within the tolerance of the
    // smallest edge, and optimal among the combinations of these hypotheses
    let f = b.postprocess(&wl);
    let fm: Vec<f64> = (0..n).map(|i| y[i] * f.confidence(&s, i)).collect();
    check("soft-margin-within-tolerance", soft_margin_at_least(&fm, nu, smallest.get() - tol));
    let w = simplex("w", k);
    let om: Vec<f64> = (0..n).map(|i| (0..k).fold(0.0, |a, j| a + w[j] * ms[j][i])).collect();
    for d in capped_vertices(n, nu) {
        check("soft-margin-optimal", soft_margin_at_most(&om, nu, dot(&d, &fm)));
    }
    cover("stopped");
    observe("rounds", k as f64);
}
/// a second run starts afresh
fn rerun() {
    let n = 2;
    let y = vec![1.0, -1.0];
    let s = labelled(&y);
    let mut b = LPBoost::init(&s).tolerance(0.25);
    // its smallest edge is far below that of the second run
    let first = Script::open(vec![vec![-1.0, 0.0], vec![1.0, -1.0]]);
    b.preprocess(&first);
    let _ = b.boost(&first, 1);
    let second = Script::new(vec![vec![1.0, 0.0], vec![1.0, -1.0]]);
    b.preprocess(&second);
    let a = b.boost(&second, 1).is_continue();
    check("smallest-edge-starts-afresh", a);
    check("first-distribution-uniform", same(&second.dists()[0], &uniform(n)));
    let c = b.boost(&second, 2).is_continue();
    let d = &second.dists()[1];
    check("only-the-hypotheses-of-this-run", and(vec![eq(d[0], 0.0), eq(d[1], 1.0)]));
    let _ = c;
}
/// hypotheses of an earlier run have no vote
fn rerun_other() {
    let y = vec![1.0, -1.0];
    let s = labelled(&y);
    let mut b = LPBoost::init(&s).tolerance(0.25);
    let first = Script::open(vec![any_labels(2), any_labels(2)]);
    b.preprocess(&first);
    let _ = rounds(&mut b, &first, 2);
    let h = vec![[-0.5, 0.25, 0.75][choose("first row", 3)], [-0.75, 0.5][choose("second row", 2)]];
    let second = Script::open(vec![h.clone()]);
    b.preprocess(&second);
    let _ = b.boost(&second, 1);
    let f = b.postprocess(&second);
    check("only-this-hypothesis-votes", all(2, |i| close(f.confidence(&s, i), h[i], 1e-6)));
    cover("rerun");
}
