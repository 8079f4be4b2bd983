//! Binning of features for trees: arbitrary feature values, dense or sparse.
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    let top = if thorough { 4 } else { 3 };
    for n in 2..=top {
        job(r, format!("classification-n{n}"), move || pair(n, None));
        job(r, format!("regression-n{n}"), move || regression(n, None));
    }
    for k in if thorough { vec![1, 2, 3, 4, 5] } else { vec![1, 2, 4] } {
        job(r, format!("classification-n3-bins{k}"), move || pair(3, Some(k)));
        job(r, format!("regression-n3-bins{k}"), move || regression(3, Some(k)));
    }
    for n in 2..=top {
        job(r, format!("sparse-classification-n{n}"), move || sparse(n, false, false));
        job(r, format!("sparse-regression-n{n}"), move || sparse(n, true, false));
        job(r, format!("listed-zero-classification-n{}", n + 1), move || sparse(n + 1, false, true));
        job(r, format!("listed-zero-regression-n{}", n + 1), move || sparse(n + 1, true, true));
    }
    for d in 1..=2 {
        job(r, format!("thresholds-n3-depth{d}"), move || thresholds(3, d));
    }
}

fn column(n: usize) -> Vec<f64> {
    (0..n).map(|_| any_in("x", -1e9, 1e9, false, false)).collect()
}
fn spread(x: &[f64]) -> f64 {
    let hi = x.iter().fold(x[0], |a, b| a.max(*b));
    let lo = x.iter().fold(x[0], |a, b| a.min(*b));
    hi - lo
}
fn distinct(x: &[f64]) -> usize {
    (0..x.len()).filter(|i| !(0..*i).any(|j| x[j] == x[*i])).count()
}

/// all the weight on two rows of different classes
fn pair(n: usize, bins: Option<usize>) {
    let x = column(n);
    let i = choose("first", n);
    let j = choose("second", n);
    if i >= j {
        prune("i < j");
    }
    let s_i = if choose("label", 2) == 0 { 1.0 } else { -1.0 };
    let y: Vec<f64> = (0..n).map(|k| if k == j { -s_i } else { s_i }).collect();
    let s = dense_sample(vec![("f", x.clone())], y.clone());
    let mut b = DecisionTreeBuilder::new(&s).max_depth(1);
    if let Some(k) = bins {
        b.set_nbins("f", k);
    }
    let mut w = vec![0.0; n];
    (w[i], w[j]) = (0.25, 0.75);
    let h = b.build().produce(&s, &w);
    let width = spread(&x) / bins.unwrap_or_else(|| distinct(&x)) as f64;
    let (ci, cj) = (h.confidence(&s, i), h.confidence(&s, j));
    observe("first", ci);
    observe("second", cj);
    let apart = or(vec![gt(x[i] - x[j], width), gt(x[j] - x[i], width)]);
    let told = and(vec![eq(ci, s_i), eq(cj, -s_i)]);
    let merged = and(vec![eq(ci, -0.5 * s_i), eq(cj, -0.5 * s_i)]);
    check("rows-a-bin-apart-are-told-apart", implies(apart, told.clone()));
    check("equal-rows-are-not", implies(eq(x[i], x[j]), merged.clone()));
    check("leaf-values", or(vec![told, merged]));
    // rows outside of the range of the training data go to the outer leaves
    let (lo, hi) = if x[i] < x[j] { (i, j) } else { (j, i) };
    let q = dense_sample(vec![("f", vec![x[lo] - any_in("down", 0.0, 1e9, false, false), x[hi] + any_in("up", 0.0, 1e9, false, false)])], vec![1.0, 1.0]);
    check("below-all", eq(h.confidence(&q, 0), if lo == i { ci } else { cj }));
    check("above-all", eq(h.confidence(&q, 1), if lo == i { cj } else { ci }));
}

/// L2 loss: the gradient at 0 is minus the target
fn regression(n: usize, bins: Option<usize>) {
    let x = column(n);
    let i = choose("special", n);
    let y: Vec<f64> = (0..n).map(|k| if k == i { 4.0 } else { 1.0 }).collect();
    let s = dense_sample(vec![("f", x.clone())], y.clone());
    let mut b = RegressionTreeBuilder::new(&s).max_depth(2).loss(GBMLoss::L2).lambda_l2(1.0);
    if let Some(k) = bins {
        b.set_nbins("f", k);
    }
    let h = b.build().produce(&s, &vec![0.0; n]);
    let width = spread(&x) / bins.unwrap_or_else(|| distinct(&x)) as f64;
    let p: Vec<f64> = (0..n).map(|k| h.predict(&s, k)).collect();
    for v in &p {
        observe("prediction", *v);
    }
    let others: Vec<usize> = (0..n).filter(|k| *k != i).collect();
    let far = and(others.iter().map(|k| gt(x[*k] - x[i], width)).collect());
    let below = and(others.iter().map(|k| gt(x[i] - x[*k], width)).collect());
    let told = and(vec![
        eq(p[i], 2.0),
        and(others.iter().map(|k| eq(p[*k], (n as f64 - 1.0) / n as f64)).collect()),
    ]);
    if n <= 3 {
        check(
            "a-row-a-bin-away-from-the-others-is-told-apart",
            implies(or(vec![far, below]), told),
        );
    }
    for a in 0..n {
        for b in 0..n {
            check("same-value-same-prediction", implies(eq(x[a], x[b]), eq(p[a], p[b])));
        }
    }
    // every prediction is that of the leaf: -G/(H + 1)
    check(
        "leaf-values",
        and((0..n)
            .map(|a| {
                let leaf: Vec<usize> = (0..n).filter(|b| p[a] == p[*b]).collect();
                let g: f64 = leaf.iter().map(|b| y[*b]).fold(0.0, |a, b| a + b);
                eq(p[a], g / (leaf.len() as f64 + 1.0))
            })
            .collect()),
    );
}

/// the representation of a column does not matter
fn sparse(n: usize, reg: bool, listed: bool) {
    let (cells, present) = if listed {
        // the first row lists a zero, the last one is not listed
        let mut cells: Vec<Vec<f64>> = (0..n).map(|_| vec![any("cell")]).collect();
        let mut present = vec![vec![true]; n];
        (cells[0][0], cells[n - 1][0], present[n - 1][0]) = (0.0, 0.0, false);
        (cells, present)
    } else {
        let (cells, present, _) = sparse_table(n, 1);
        (cells, present)
    };
    let y = any_labels(n);
    for c in &cells {
        assume_fast(and(vec![ge(c[0], -1e9), le(c[0], 1e9)]));
    }
    if !present.iter().any(|p| p[0]) {
        prune("the column occurs");
    }
    let sp = read_svmlight(&cells, &present, &y, 0);
    let de = dense_sample(vec![("0", cells.iter().map(|c| c[0]).collect())], y.clone());
    for i in 0..n {
        let (a, b) = if reg {
            let d = vec![0.25; n];
            let t = |s: &Sample| {
                RegressionTreeBuilder::new(s).max_depth(2).loss(GBMLoss::L2).lambda_l2(0.5).build().produce(s, &d).predict(s, i)
            };
            (t(&sp), t(&de))
        } else {
            let d = uniform(n);
            let t = |s: &Sample| DecisionTreeBuilder::new(s).max_depth(1).build().produce(s, &d).confidence(s, i);
            (t(&sp), t(&de))
        };
        observe("sparse", a);
        observe("dense", b);
        check("sparse-as-dense", eq(a, b));
    }
}

/// confidences follow the order of the values: at most 2^depth pieces
fn thresholds(n: usize, depth: usize) {
    let x = column(n);
    let y = any_labels(n);
    let s = dense_sample(vec![("f", x.clone())], y);
    let h = DecisionTreeBuilder::new(&s).max_depth(depth).criterion(Criterion::Edge).build().produce(&s, &uniform(n));
    let c: Vec<f64> = (0..n).map(|i| h.confidence(&s, i)).collect();
    for i in 0..n {
        for j in 0..n {
            check("same-value-same-confidence", implies(eq(x[i], x[j]), eq(c[i], c[j])));
            for k in 0..n {
                if depth == 1 {
                    check(
                        "one-threshold",
                        implies(and(vec![lt(x[i], x[j]), lt(x[j], x[k])]), or(vec![eq(c[j], c[i]), eq(c[j], c[k])])),
                    );
                }
            }
        }
    }
}
