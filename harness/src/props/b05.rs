//! Graph separation boosting.
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    job(r, "signs-n2-t1", || signs(2, 1));
    job(r, "signs-n3-t2", || signs(3, 2));
    job(r, "signs-n4-t1", || signs(4, 1));
    job(r, "confidences-n3-t1", || confidences(3, 1));
    job(r, "confidences-n2-t2", || confidences(2, 2));
    job(r, "rerun-n3", || rerun(3));
    job(r, "signs-n4-t2", || signs(4, 2));
    job(r, "signs-n3-t3", || signs(3, 3));
    job(r, "signs-n5-t1", || signs(5, 1));
    job(r, "confidences-n3-t2", || confidences(3, 2));
    if thorough {
        job(r, "signs-n5-t2", || signs(5, 2));
        job(r, "signs-n4-t3", || signs(4, 3));
        job(r, "signs-n3-t4", || signs(3, 4));
        job(r, "confidences-n4-t1", || confidences(4, 1));
    }
}
fn signs(n: usize, t: usize) {
    let hs: Vec<Vec<f64>> = (0..t).map(|_| any_labels(n)).collect();
    go(n, hs)
}
fn confidences(n: usize, t: usize) {
    let hs: Vec<Vec<f64>> = (0..t).map(|_| confs("h", n)).collect();
    go(n, hs)
}
/// pairs with different labels on which no hypothesis so far disagrees
fn open_pairs(y: &[f64], hs: &[Vec<f64>]) -> Vec<Vec<bool>> {
    let n = y.len();
    let pred: Vec<Vec<bool>> = hs.iter().map(|h| h.iter().map(|v| *v >= 0.0).collect()).collect();
    (0..n).map(|i| (0..n).map(|j| y[i] != y[j] && pred.iter().all(|p| p[i] == p[j])).collect()).collect()
}
fn degrees(p: &[Vec<bool>]) -> (Vec<usize>, usize) {
    let d: Vec<usize> = p.iter().map(|r| r.iter().filter(|x| **x).count()).collect();
    let z = d.iter().sum();
    (d, z)
}
fn go(n: usize, hs: Vec<Vec<f64>>) {
    let y = two_class_labels(n);
    let s = labelled(&y);
    let t = hs.len();
    let wl = Script::new(hs.clone());
    let mut b = GraphSepBoost::init(&s);
    b.preprocess(&wl);
    let mut before = degrees(&open_pairs(&y, &[]));
    for k in 1..=t {
        let brk = b.boost(&wl, k).is_break();
        check("asks-while-pairs-are-open", wl.calls() == k);
        let d = &wl.dists()[k - 1];
        check("mass-proportional-to-open-pairs", all(n, |i| eq(d[i] * before.1 as f64, before.0[i] as f64)));
        for x in d.iter() {
            observe("d", *x);
        }
        let after = degrees(&open_pairs(&y, &hs[..k]));
        // a hypothesis that separates nothing ends the run
        check("goes-on-while-pairs-get-separated", brk == (after.1 == before.1));
        before = after;
        if brk || before.1 == 0 {
            break;
        }
    }
    let used = wl.calls();
    if before.1 == 0 {
        check("ends-when-all-is-separated", b.boost(&wl, used + 1).is_break());
        check("no-further-call", wl.calls() == used);
        let f = b.postprocess(&wl);
        for i in 0..n {
            check("no-training-error", eq(f.confidence(&s, i), y[i]));
        }
        cover("separated");
    }
}
fn rerun(n: usize) {
    let y = two_class_labels(n);
    let s = labelled(&y);
    let h: Vec<f64> = any_labels(n);
    let script = || Script::new(vec![h.clone(), y.clone(), vec![1.0; n]]);
    let mut b = GraphSepBoost::init(&s);
    let first = script();
    let f = b.run(&first);
    let second = script();
    let g = b.run(&second);
    check("as-many-rounds", first.calls() == second.calls());
    check("same-first-distribution", same(&first.dists()[0], &second.dists()[0]));
    check("same-output", all(n, |i| eq(f.confidence(&s, i), g.confidence(&s, i))));
}
