//! Ranges of parameters.
use crate::util::*;
use miniboosts::research::ObjectiveFunction;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for n in 2..=if thorough { 5 } else { 4usize } {
        for (k, name) in NU.iter().enumerate() {
            job(r, format!("nu-{name}-n{n}"), move || nu(k, n));
        }
        job(r, format!("trains-n{n}"), move || ready(n));
        job(r, format!("gamma-n{n}"), move || gamma(n));
        job(r, format!("kappa-n{n}"), move || kappa(n));
        job(r, format!("gamma-and-kappa-n{n}"), move || gamma_and_kappa(n));
        job(r, format!("ratio-n{n}"), move || ratio(n));
    }
    job(r, "depth", depth);
}
const NU: [&str; 7] = ["lpboost", "softboost", "erlpboost", "mlpboost", "cerlpboost", "bad-learner", "soft-margin"];

fn sample(n: usize) -> Sample {
    labelled(&(0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect::<Vec<f64>>())
}
fn accepts(f: impl FnOnce()) -> bool {
    let a = catching(f).is_some();
    observe("accepted", if a { 1.0 } else { 0.0 });
    a
}
fn nu(which: usize, n: usize) {
    let s = sample(n);
    let nu = any_in("nu", -2.0, n as f64 + 2.0, false, false);
    let wl = Script::open(vec![]);
    let accepted = accepts(|| match which {
        // the number of rounds does not depend on nu: also get ready to train
        0 => LPBoost::init(&s).nu(nu).preprocess(&wl),
        1 => {
            SoftBoost::<Table>::init(&s).nu(nu);
        }
        2 => {
            ERLPBoost::<Table>::init(&s).nu(nu);
        }
        3 => {
            MLPBoost::<Table>::init(&s).nu(nu);
        }
        4 => {
            CERLPBoost::<Table>::init(&s).nu(nu);
        }
        5 => {
            BadBaseLearnerBuilder::new(&s).nu(nu).build();
        }
        _ => {
            SoftMarginObjective::new(nu).eval(&s, &Table { conf: vec![0.5; n] });
        }
    });
    check("accepts-exactly-one-to-n", accepted == (1.0 <= nu && nu <= n as f64));
}
/// every capping parameter in the range can be trained with, for any tolerance
fn ready(n: usize) {
    let s = sample(n);
    let nu = [1.0, 1.0 + (n as f64 - 1.0) / 4.0, n as f64 - 0.5, n as f64][choose("nu", 4)];
    let tol = [0.0625, 0.5, 0.75][choose("tolerance", 3)];
    let order = choose("order", 2) == 0;
    let wl = Script::open(vec![]);
    let k = choose("booster", 5);
    let accepted = accepts(|| match (k, order) {
        (0, true) => LPBoost::init(&s).nu(nu).tolerance(tol).preprocess(&wl),
        (0, false) => LPBoost::init(&s).tolerance(tol).nu(nu).preprocess(&wl),
        (1, true) => SoftBoost::init(&s).nu(nu).tolerance(tol).preprocess(&wl),
        (1, false) => SoftBoost::init(&s).tolerance(tol).nu(nu).preprocess(&wl),
        (2, true) => ERLPBoost::init(&s).nu(nu).tolerance(tol).preprocess(&wl),
        (2, false) => ERLPBoost::init(&s).tolerance(tol).nu(nu).preprocess(&wl),
        (3, true) => MLPBoost::init(&s).nu(nu).tolerance(tol).preprocess(&wl),
        (3, false) => MLPBoost::init(&s).tolerance(tol).nu(nu).preprocess(&wl),
        (_, true) => CERLPBoost::init(&s).nu(nu).tolerance(tol).preprocess(&wl),
        (_, false) => CERLPBoost::init(&s).tolerance(tol).nu(nu).preprocess(&wl),
    });
    check("can-be-trained-with", accepted);
}
fn gamma(n: usize) {
    let s = sample(n);
    let g = any_in("gamma", -1.0, 1.0, false, false);
    let accepted = accepts(|| {
        let _ = SmoothBoost::<Table>::init(&s).gamma(g);
    });
    check("accepts-exactly-zero-to-a-half", accepted == (0.0 <= g && g < 0.5));
}
fn kappa(n: usize) {
    let s = sample(n);
    // the number of rounds is rounded up, one path for each: not too small
    let k = if choose("sign", 2) == 0 { any_in("kappa", -1.0, 0.0, false, false) } else { any_in("kappa", 0.25, 2.0, false, false) };
    let wl = Script::open(vec![]);
    let accepted = accepts(|| SmoothBoost::init(&s).tolerance(k).gamma(0.4375).preprocess(&wl));
    check("accepts-exactly-the-open-unit-interval", accepted == (0.0 < k && k < 1.0));
}
fn gamma_and_kappa(n: usize) {
    let s = sample(n);
    let k = [-0.5, 0.0, 0.5, 0.75, 1.0, 1.5][choose("kappa", 6)];
    let g = if choose("zero", 2) == 0 { 0.0 } else { any_in("gamma", 0.375, 0.5, false, true) };
    let wl = Script::open(vec![]);
    let accepted = accepts(|| {
        if choose("order", 2) == 0 {
            SmoothBoost::init(&s).tolerance(k).gamma(g).preprocess(&wl)
        } else {
            SmoothBoost::init(&s).gamma(g).tolerance(k).preprocess(&wl)
        }
    });
    check("accepts-exactly-the-open-unit-interval", accepted == (0.0 < k && k < 1.0));
}
fn ratio(n: usize) {
    let s = sample(n);
    let r = any_in("ratio", -1.0, 2.0, false, false);
    let accepted = accepts(|| {
        let _ = CrossValidation::new(&s).train_ratio(r);
    });
    check("accepts-exactly-the-open-unit-interval", accepted == (0.0 < r && r < 1.0));
}
fn depth() {
    let s = sample(3);
    let d = choose("depth", 4);
    let a = accepts(|| {
        DecisionTreeBuilder::new(&s).max_depth(d).build();
    });
    let b = accepts(|| {
        RegressionTreeBuilder::new(&s).max_depth(d).loss(GBMLoss::L2).build();
    });
    check("accepts-exactly-positive-depths", a == (d > 0) && b == (d > 0));
}
