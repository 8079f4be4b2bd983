//! Validation of samples for binary classification.
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for n in 2..=if thorough { 4 } else { 3usize } {
        job(r, format!("targets-n{n}"), move || targets(n));
    }
    for (k, name) in BOOSTERS.iter().enumerate() {
        job(r, format!("{name}-n3"), move || booster(k));
    }
}
const BOOSTERS: [&str; 11] = [
    "adaboost", "adaboostv", "madaboost", "smoothboost", "lpboost", "softboost", "totalboost", "erlpboost", "mlpboost", "cerlpboost",
    "graphsepboost",
];

fn target() -> f64 {
    let base = [0.0, 3e9][choose("magnitude", 2)];
    any_in("y", -2.5, 2.5, false, false) + base
}
/// exactly two kinds of integers
fn valid(y: &[f64]) -> bool {
    for v in y {
        if *v != v.trunc() {
            return false;
        }
    }
    let mut kinds: Vec<f64> = vec![];
    for v in y {
        if !kinds.iter().any(|k| *k == *v) {
            kinds.push(*v);
        }
    }
    kinds.len() == 2
}
fn targets(n: usize) {
    let y: Vec<f64> = (0..n).map(|_| target()).collect();
    let s = labelled(&y);
    let accepted = catching(|| s.is_valid_binary_instance()).is_some();
    observe("accepted", if accepted { 1.0 } else { 0.0 });
    observe("valid", if valid(&y) { 1.0 } else { 0.0 });
    check("accepts-exactly-two-integer-classes", accepted == valid(&y));
}
fn booster(which: usize) {
    let n = 3;
    let y: Vec<f64> = (0..n).map(|_| any_in("y", -1.5, 1.5, false, false)).collect();
    let s = labelled(&y);
    let wl = Script::open(vec![]);
    let accepted = catching(|| match which {
        0 => AdaBoost::init(&s).preprocess(&wl),
        1 => AdaBoostV::init(&s).preprocess(&wl),
        2 => MadaBoost::init(&s).preprocess(&wl),
        3 => SmoothBoost::init(&s).gamma(0.25).preprocess(&wl),
        4 => LPBoost::init(&s).preprocess(&wl),
        5 => SoftBoost::init(&s).preprocess(&wl),
        6 => TotalBoost::init(&s).preprocess(&wl),
        7 => ERLPBoost::init(&s).preprocess(&wl),
        8 => MLPBoost::init(&s).preprocess(&wl),
        9 => CERLPBoost::init(&s).preprocess(&wl),
        _ => GraphSepBoost::init(&s).preprocess(&wl),
    })
    .is_some();
    check("accepts-exactly-two-integer-classes", accepted == valid(&y));
}
