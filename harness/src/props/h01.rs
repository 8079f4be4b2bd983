//! Weighted majority: the normalised vote over the hypotheses with a positive weight.
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for t in 1..=(if thorough { 5usize } else { 4 }) {
        job(r, format!("vote-t{t}"), move || vote(t, 2));
        job(r, format!("signed-vote-t{t}"), move || signed_vote(t));
    }
    job(r, "push-normalize", push_normalize);
    job(r, "predict-sign", predict_sign);
}

/// all weights positive
fn vote(t: usize, rows: usize) {
    let w: Vec<f64> = (0..t).map(|_| any_in("w", 0.0, f64::INFINITY, true, true)).collect();
    let hs: Vec<Table> = (0..t).map(|_| Table { conf: confs("h", rows) }).collect();
    let s = labelled(&vec![1.0; rows]);
    let f = WeightedMajority::from_slices(&w, &hs);
    check("keeps-every-hypothesis", f.hypotheses.len() == t && f.weights.len() == t);
    check("weights-are-a-distribution", is_distribution(&f.weights));
    let z = sum(&w);
    for row in 0..rows {
        let mut want = 0.0;
        for k in 0..t {
            want = want + w[k] * hs[k].conf[row] / z;
        }
        check("confidence", eq(f.confidence(&s, row), want));
        let reg: f64 = Regressor::predict(&f, &s, row);
        check("regression", eq(reg, want));
        check("range", and(vec![le(f.confidence(&s, row), 1.0), ge(f.confidence(&s, row), -1.0)]));
        observe("f", want);
    }
    let all_c = f.confidence_all(&s);
    check("all-rows", all_c.len() == rows);
    check("all-rows", and((0..rows).map(|i| eq(all_c[i], f.confidence(&s, i))).collect()));
    let all_r = Regressor::predict_all(&f, &s);
    check("all-rows", all_r.len() == rows);
    check("all-rows", and((0..rows).map(|i| eq(all_r[i], Regressor::predict(&f, &s, i))).collect()));
    let all_p = Classifier::predict_all(&f, &s);
    check("all-rows", all_p.len() == rows);
    for i in 0..rows {
        check("label-follows-the-vote", and(vec![implies(gt(all_c[i], 0.0), all_p[i] == 1), implies(lt(all_c[i], 0.0), all_p[i] == -1)]));
    }
}

/// arbitrary weights, at least one different from zero
fn signed_vote(t: usize) {
    let w: Vec<f64> = (0..t).map(|_| any("w")).collect();
    assume(any_of(t, |i| ne(w[i], 0.0)));
    let hs: Vec<Table> = (0..t).map(|_| Table { conf: confs("h", 1) }).collect();
    let s = labelled(&[1.0]);
    let f = WeightedMajority::from_slices(&w, &hs);
    let z = sum(&w.iter().map(|x| if *x < 0.0 { -*x } else { *x }).collect::<Vec<f64>>());
    let zz = sum(&f.weights.iter().map(|x| if *x < 0.0 { -*x } else { *x }).collect::<Vec<f64>>());
    check("absolute-weights-sum-to-one", eq(zz, 1.0));
    let mut num = 0.0;
    for k in 0..t {
        num = num + w[k] * hs[k].conf[0];
    }
    check("confidence", eq(f.confidence(&s, 0) * z, num));
}

fn push_normalize() {
    let w1 = any_in("w", 0.0, f64::INFINITY, true, true);
    let w2 = any_in("w", 0.0, f64::INFINITY, true, true);
    let h1 = Table { conf: confs("h", 1) };
    let h2 = Table { conf: confs("h", 1) };
    let s = labelled(&[1.0]);
    let mut f = WeightedMajority { weights: vec![w1], hypotheses: vec![h1.clone()] };
    f.push(w2, h2.clone());
    check("unnormalised-vote", eq(f.confidence(&s, 0), w1 * h1.conf[0] + w2 * h2.conf[0]));
    f.normalize();
    check("weights-are-a-distribution", is_distribution(&f.weights));
    check("vote", eq(f.confidence(&s, 0) * (w1 + w2), w1 * h1.conf[0] + w2 * h2.conf[0]));
    let (w, h) = f.decompose();
    check("decompose", w.len() == 2 && h.len() == 2);
    check("decompose-weights", and(vec![eq(w[0] * w2, w[1] * w1), eq(h[0].conf[0], h1.conf[0]), eq(h[1].conf[0], h2.conf[0])]));
}

fn predict_sign() {
    let h = Table { conf: confs("h", 3) };
    let s = labelled(&[1.0, -1.0, 1.0]);
    let p = h_predict(&h, &s);
    for i in 0..3 {
        check("label-is-plus-or-minus-one", p[i] == 1 || p[i] == -1);
        check("positive-confidence", implies(gt(h.conf[i], 0.0), p[i] == 1));
        check("negative-confidence", implies(lt(h.conf[i], 0.0), p[i] == -1));
        check("row-by-row", p[i] == Classifier::predict(&h, &s, i));
    }
}
fn h_predict(h: &Table, s: &Sample) -> Vec<i64> {
    Classifier::predict_all(h, s)
}
