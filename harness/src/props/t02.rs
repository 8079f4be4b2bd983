//! Regression trees: leaves minimise the regularised second-order objective,
//! splits maximise its decrease over single thresholds.
use crate::util::*;
use miniboosts::*;

/// a loss with the given derivatives
struct Given {
    g: Vec<f64>,
    h: Vec<f64>,
}
impl LossFunction for Given {
    fn name(&self) -> &str {
        "given"
    }
    fn eval_at_point(&self, _p: f64, _y: f64) -> f64 {
        0.0
    }
    fn gradient(&self, _p: &[f64], _y: &[f64]) -> Vec<f64> {
        self.g.clone()
    }
    fn hessian(&self, _p: &[f64], _y: &[f64]) -> Vec<f64> {
        self.h.clone()
    }
    fn best_coefficient(&self, _r: &[f64], _p: &[f64]) -> f64 {
        1.0
    }
}
type Cols = &'static [&'static [f64]];
const LINE2: Cols = &[&[0.0, 1.0]];
const LINE3: Cols = &[&[0.0, 1.0, 2.0]];
const LINE4: Cols = &[&[0.0, 1.0, 2.0, 3.0]];
const MIXED4: Cols = &[&[3.0, -1.0, 1.0, -3.0]];
const TIES4: Cols = &[&[1.0, 0.0, 1.0, 2.0]];
/// rows exactly at the boundaries of the bins
const BOUNDARY4: Cols = &[&[2.0, 0.0, 4.0, 1.0]];
const TWO3: Cols = &[&[0.0, 1.0, 2.0], &[1.0, 0.0, 1.0]];
const XOR4: Cols = &[&[0.0, 0.0, 1.0, 1.0], &[0.0, 1.0, 0.0, 1.0]];
/// three bins, the middle one with two rows
const SHARED4: Cols = &[&[0.0, 1.125, 1.875, 3.0]];

#[derive(Clone, Copy, PartialEq)]
enum Loss {
    L1,
    L2,
    Any,
}

pub fn jobs(r: &mut Reg, thorough: bool) {
    for (name, cols) in [("line2", LINE2), ("line3", LINE3), ("two3", TWO3)] {
        for loss in [Loss::L1, Loss::L2, Loss::Any] {
            let l = ["l1", "l2", "any"][loss as usize];
            for lambda in [0.01, 1.0] {
                if loss == Loss::Any && (lambda < 1.0 || name == "two3" && !thorough) {
                    continue;
                }
                job(r, format!("{name}-{l}-lambda{lambda}-depth2"), move || tree(cols, None, 2, loss, lambda));
            }
        }
        job(r, format!("{name}-any-depth1"), move || tree(cols, None, 1, Loss::Any, 1.0));
    }
    for (name, cols) in [("ties4", TIES4), ("mixed4", MIXED4), ("xor4", XOR4)] {
        job(r, format!("{name}-l1-depth3"), move || tree(cols, None, 3, Loss::L1, 0.01));
    }
    job(r, "boundary4-l1-depth3", || tree(BOUNDARY4, None, 3, Loss::L1, 0.01));
    job(r, "shared4-l1-depth2", || tree(SHARED4, Some(3), 2, Loss::L1, 0.01));
    job(r, "ties4-l2-depth2", || tree(TIES4, None, 2, Loss::L2, 1.0));
    job(r, "line3-l2-depth3", || tree(LINE3, None, 3, Loss::L2, 1.0));
    job(r, "line3-l2-unregularised", || tree(LINE3, None, 2, Loss::L2, 0.0));
    if thorough {
        job(r, "boundary4-l2-depth2", || tree(BOUNDARY4, None, 2, Loss::L2, 1.0));
        job(r, "line3-l2-depth4", || tree(LINE3, None, 4, Loss::L2, 1.0));
        job(r, "line4-l2-depth2", || tree(LINE4, None, 2, Loss::L2, 1.0));
        job(r, "line4-l2-depth3", || tree(LINE4, None, 3, Loss::L2, 1.0));
        job(r, "xor4-l2-depth3", || tree(XOR4, None, 3, Loss::L2, 0.5));
        job(r, "mixed4-any-depth2", || tree(MIXED4, None, 2, Loss::Any, 1.0));
        job(r, "line3-any-depth3", || tree(LINE3, None, 3, Loss::Any, 1.0));
    }
}

fn tree(cols: Cols, bins: Option<usize>, depth: usize, loss: Loss, lambda: f64) {
    let n = cols[0].len();
    // the derivatives at the predictions, by what the losses are
    let (p, y): (Vec<f64>, Vec<f64>);
    let (g, h): (Vec<f64>, Vec<f64>);
    match loss {
        Loss::L1 => {
            g = any_labels(n);
            h = vec![0.0; n];
            p = (0..n).map(|_| any_in("prediction", -10.0, 10.0, false, false)).collect();
            y = (0..n).map(|i| p[i] - g[i] * any_in("distance", 0.0, 10.0, true, false)).collect();
        }
        Loss::L2 => {
            let free = n == 2;
            p = (0..n).map(|_| if free { any_in("prediction", -10.0, 10.0, false, false) } else { 0.0 }).collect();
            y = (0..n).map(|_| any_in("target", -10.0, 10.0, false, false)).collect();
            g = (0..n).map(|i| p[i] - y[i]).collect();
            h = vec![1.0; n];
        }
        Loss::Any => {
            p = vec![0.0; n];
            y = vec![0.0; n];
            g = (0..n).map(|_| any_in("gradient", -10.0, 10.0, false, false)).collect();
            h = (0..n)
                .map(|_| if n == 2 { any_in("hessian", 0.0, 10.0, false, false) } else { [0.0, 1.0, 3.0][choose("hessian", 3)] })
                .collect();
        }
    }
    let s = dense_sample(named(cols), y);
    let produce = |s: &Sample| match loss {
        Loss::Any => grow(s, bins, Given { g: g.clone(), h: h.clone() }, depth, lambda, &p),
        Loss::L1 => grow(s, bins, GBMLoss::L1, depth, lambda, &p),
        Loss::L2 => grow(s, bins, GBMLoss::L2, depth, lambda, &p),
    };
    let t = produce(&s);
    let got: Vec<f64> = (0..n).map(|i| t.predict(&s, i)).collect();
    for v in &got {
        observe("prediction", *v);
    }
    let truth = Truth { cols, bins, g: &g, h: &h, lambda };
    let rows: Vec<usize> = (0..n).collect();
    check(
        "optimal-splits-and-leaves",
        or(truth
            .outcomes(&rows, depth - 1)
            .iter()
            .map(|o| and(vec![o.when.clone(), all(n, |i| eq(got[i], o.pred[i]))]))
            .collect()),
    );
    // the objective never exceeds that of the zero prediction
    let mut obj = 0.0;
    for i in 0..n {
        obj = obj + g[i] * got[i] + 0.5 * h[i] * got[i] * got[i];
    }
    if lambda > 0.0 && loss == Loss::L2 && n <= 3 {
        check("improves-on-zero", le(obj, 0.0));
    }
}
fn grow<L: LossFunction>(s: &Sample, bins: Option<usize>, l: L, depth: usize, lambda: f64, p: &[f64]) -> RegressionTreeRegressor {
    let mut b = RegressionTreeBuilder::new(s).max_depth(depth).loss(l).lambda_l2(lambda);
    if let Some(k) = bins {
        b.set_nbins("f0", k);
    }
    b.build().produce(s, p)
}
fn named(cols: Cols) -> Vec<(&'static str, Vec<f64>)> {
    const NAMES: [&str; 2] = ["f0", "f1"];
    cols.iter().enumerate().map(|(k, c)| (NAMES[k], c.to_vec())).collect()
}

struct Outcome {
    when: B,
    pred: Vec<f64>,
}
struct Truth<'a> {
    cols: Cols,
    bins: Option<usize>,
    g: &'a [f64],
    h: &'a [f64],
    lambda: f64,
}
type Split = (Vec<usize>, Vec<usize>);
impl Truth<'_> {
    fn sums(&self, rows: &[usize]) -> (f64, f64) {
        let g: Vec<f64> = rows.iter().map(|i| self.g[*i]).collect();
        let h: Vec<f64> = rows.iter().map(|i| self.h[*i]).collect();
        (sum(&g), sum(&h) + self.lambda)
    }
    fn leaf(&self, rows: &[usize]) -> Vec<f64> {
        let (g, h) = self.sums(rows);
        (0..self.g.len()).map(|i| if rows.contains(&i) { -g / h } else { 0.0 }).collect()
    }
    fn splits(&self, rows: &[usize]) -> Vec<Split> {
        let mut out: Vec<Split> = vec![(vec![], rows.to_vec())];
        for c in self.cols {
            let bin = |v: f64| match self.bins {
                None => v,
                Some(k) => (v / 3.0 * k as f64).floor(),
            };
            let mut vals: Vec<f64> = rows.iter().map(|i| bin(c[*i])).collect();
            vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
            vals.dedup();
            for v in vals.into_iter().skip(1) {
                out.push(rows.iter().partition(|i| bin(c[**i]) < v));
            }
        }
        out
    }
    fn score(&self, s: &Split) -> f64 {
        let part = |rows: &[usize]| {
            if rows.is_empty() {
                return 0.0;
            }
            let (g, h) = self.sums(rows);
            g * g / h
        };
        part(&s.0) + part(&s.1)
    }
    fn outcomes(&self, rows: &[usize], depth: usize) -> Vec<Outcome> {
        if depth == 0 {
            return vec![Outcome { when: true.into(), pred: self.leaf(rows) }];
        }
        let all = self.splits(rows);
        let mut out = vec![];
        for s in &all {
            let best = and(all.iter().map(|o| ge(self.score(s), self.score(o))).collect());
            if s.0.is_empty() {
                out.push(Outcome { when: best, pred: self.leaf(rows) });
                continue;
            }
            for l in self.outcomes(&s.0, depth - 1) {
                for r in self.outcomes(&s.1, depth - 1) {
                    let pred = (0..self.g.len()).map(|i| if s.0.contains(&i) { l.pred[i] } else { r.pred[i] }).collect();
                    out.push(Outcome { when: and(vec![best.clone(), l.when.clone(), r.when.clone()]), pred });
                }
            }
        }
        out
    }
}
