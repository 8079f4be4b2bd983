//! Naive aggregation: positive iff the votes coincide with those on a
//! positive training row.
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for t in 1..=(if thorough { 4usize } else { 3 }) {
        job(r, format!("aggregate-t{t}-n2"), move || aggregate(t, 2));
    }
    job(r, "aggregate-t1-n3", || aggregate(1, 3));
    job(r, "aggregate-t2-n3", || aggregate(2, 3));
    if thorough {
        job(r, "aggregate-t3-n3", || aggregate(3, 3));
        job(r, "aggregate-t1-n4", || aggregate(1, 4));
    }
}

fn aggregate(t: usize, n: usize) {
    let y = any_labels(n);
    // row n is a new instance
    let hs: Vec<Table> = (0..t).map(|_| Table { conf: confs("h", n + 1) }).collect();
    let s = labelled(&y);
    let more = labelled(&vec![1.0; n + 1]);
    let f = if choose("constructor", 2) == 0 {
        NaiveAggregation::new(hs.clone(), &s)
    } else {
        NaiveAggregation::from_slice(&hs, &s)
    };
    for row in 0..=n {
        let same_votes = |k: usize| all(t, |j| iff(ge(hs[j].conf[k], 0.0), ge(hs[j].conf[row], 0.0)));
        let pos = or((0..n).filter(|k| y[*k] > 0.0).map(|k| same_votes(k)).collect());
        let c = f.confidence(&more, row);
        check("aggregation-rule", or(vec![and(vec![pos.clone(), eq(c, 1.0)]), and(vec![not(pos.clone()), eq(c, -1.0)])]));
        check("predicted-label", iff(pos, Classifier::predict(&f, &more, row) == 1));
        if row < n && y[row] > 0.0 {
            check("positive-rows-are-positive", eq(c, 1.0));
        }
    }
}
