//! Decision trees: leaves vote for the weighted majority, splits are optimal
//! for the criterion, over single thresholds, up to the stated depth.
use crate::util::*;
use miniboosts::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Weights {
    /// arbitrary probability vector without zeros
    Positive,
    /// arbitrary probability vector
    Any,
    Uniform,
}
/// columns of the training data; the equal-width bins tell all values of a
/// column apart
type Cols = &'static [&'static [f64]];

const LINE3: Cols = &[&[0.0, 1.0, 2.0]];
const LINE4: Cols = &[&[0.0, 1.0, 2.0, 3.0]];
const MIXED4: Cols = &[&[3.0, -1.0, 1.0, -3.0]];
const TIES4: Cols = &[&[1.0, 0.0, 1.0, 2.0]];
/// rows exactly at the boundaries of the bins
const BOUNDARY4: Cols = &[&[2.0, 0.0, 4.0, 1.0]];
const TWO3: Cols = &[&[0.0, 1.0, 2.0], &[1.0, 0.0, 1.0]];
const XOR4: Cols = &[&[0.0, 0.0, 1.0, 1.0], &[0.0, 1.0, 0.0, 1.0]];

pub fn jobs(r: &mut Reg, thorough: bool) {
    for c in [Criterion::Edge, Criterion::Gini, Criterion::Twoing, Criterion::Entropy] {
        let name = format!("{c:?}").to_lowercase();
        let any = if c == Criterion::Entropy { Weights::Positive } else { Weights::Any };
        job(r, format!("{name}-line3-depth1"), move || tree(LINE3, 1, c, any));
        job(r, format!("{name}-two3-depth1"), move || tree(TWO3, 1, c, any));
        job(r, format!("{name}-ties4-depth1"), move || tree(TIES4, 1, c, Weights::Positive));
        job(r, format!("{name}-boundary4-depth1"), move || tree(BOUNDARY4, 1, c, Weights::Positive));
        job(r, format!("{name}-boundary4-depth2-uniform"), move || tree(BOUNDARY4, 2, c, Weights::Uniform));
        job(r, format!("{name}-line3-depth2"), move || tree(LINE3, 2, c, Weights::Positive));
        job(r, format!("{name}-xor4-depth2-uniform"), move || tree(XOR4, 2, c, Weights::Uniform));
        job(r, format!("{name}-mixed4-depth3-uniform"), move || tree(MIXED4, 3, c, Weights::Uniform));
        if c == Criterion::Edge || thorough {
            job(r, format!("{name}-line4-depth1"), move || tree(LINE4, 1, c, Weights::Positive));
            job(r, format!("{name}-line4-depth2"), move || tree(LINE4, 2, c, Weights::Positive));
        }
        if thorough {
            job(r, format!("{name}-mixed4-depth1"), move || tree(MIXED4, 1, c, Weights::Any));
            job(r, format!("{name}-xor4-depth2"), move || tree(XOR4, 2, c, Weights::Positive));
            job(r, format!("{name}-mixed4-depth3"), move || tree(MIXED4, 3, c, Weights::Positive));
        }
    }
}

fn weights(kind: Weights, n: usize) -> Vec<f64> {
    if kind == Weights::Uniform {
        return uniform(n);
    }
    let strict = kind == Weights::Positive;
    let mut w: Vec<f64> = (1..n).map(|_| any_in("w", 0.0, 1.0, strict, strict)).collect();
    let last = 1.0 - sum(&w);
    assume_fast(if strict { gt(last, 0.0) } else { ge(last, 0.0) });
    w.push(last);
    w
}

fn tree(cols: Cols, depth: usize, c: Criterion, kind: Weights) {
    let n = cols[0].len();
    let y = pos_any(n);
    let w = weights(kind, n);
    let s = dense_sample(named(cols), y.clone());
    let h = DecisionTreeBuilder::new(&s).max_depth(depth).criterion(c).build().produce(&s, &w);
    let conf: Vec<f64> = (0..n).map(|i| h.confidence(&s, i)).collect();
    for v in &conf {
        check("confidence-in-range", and(vec![ge(*v, -1.0), le(*v, 1.0)]));
        observe("confidence", *v);
    }
    let rows: Vec<usize> = (0..n).filter(|i| branch(gt(w[*i], 0.0))).collect();
    let t = Truth { cols, y: &y, w: &w, c };
    let want = t.outcomes(&rows, depth);
    check(
        "optimal-splits-and-majority-leaves",
        or(want
            .iter()
            .map(|o| and(vec![o.when.clone(), and(rows.iter().map(|i| eq(conf[*i], o.conf[*i])).collect())]))
            .collect()),
    );
    // an unseen row gets the answer of its neighbours
    if cols.len() == 1 {
        let x = any("x");
        let q = dense_sample(vec![("f0", vec![x])], vec![1.0]);
        let got = h.confidence(&q, 0);
        let mut order = rows.clone();
        order.sort_by(|a, b| cols[0][*a].partial_cmp(&cols[0][*b]).unwrap());
        let low = order.iter().rev().find(|i| branch(le(cols[0][**i], x)));
        let high = order.iter().find(|i| branch(ge(cols[0][**i], x)));
        check(
            "between-neighbours",
            or(low.into_iter().chain(high).map(|i| eq(got, conf[*i])).collect()),
        );
    }
}
fn pos_any(n: usize) -> Vec<f64> {
    // a tree which swaps the classes gives the opposite confidences, and the
    // first row may be taken to be positive only if that is assumed; it is not
    any_labels(n)
}
fn named(cols: Cols) -> Vec<(&'static str, Vec<f64>)> {
    const NAMES: [&str; 2] = ["f0", "f1"];
    cols.iter().enumerate().map(|(k, c)| (NAMES[k], c.to_vec())).collect()
}

struct Outcome {
    when: B,
    conf: Vec<f64>,
}
struct Truth<'a> {
    cols: Cols,
    y: &'a [f64],
    w: &'a [f64],
    c: Criterion,
}
impl Truth<'_> {
    /// mass of the positive and of the negative rows
    fn mass(&self, rows: &[usize]) -> (f64, f64) {
        let side = |s: f64| sum(&rows.iter().filter(|i| self.y[**i] == s).map(|i| self.w[*i]).collect::<Vec<_>>());
        (side(1.0), side(-1.0))
    }
    fn pure(&self, rows: &[usize]) -> bool {
        rows.iter().all(|i| self.y[*i] == self.y[rows[0]])
    }
    fn leaf(&self, rows: &[usize]) -> Vec<f64> {
        let (p, m) = self.mass(rows);
        let v = (p - m) / (p + m);
        (0..self.y.len()).map(|i| if rows.contains(&i) { v } else { 0.0 }).collect()
    }
    /// all ways to cut `rows` by a threshold on one column
    fn splits(&self, rows: &[usize]) -> Vec<(Vec<usize>, Vec<usize>)> {
        let mut out = vec![(vec![], rows.to_vec())];
        for c in self.cols {
            let mut vals: Vec<f64> = rows.iter().map(|i| c[*i]).collect();
            vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
            vals.dedup();
            for v in vals.into_iter().skip(1) {
                out.push(rows.iter().partition(|i| c[**i] < v));
            }
        }
        out
    }
    /// the score, small is good; except for the edge
    fn score(&self, s: &(Vec<usize>, Vec<usize>)) -> f64 {
        let (a, b) = self.mass(&s.0);
        let (c, d) = self.mass(&s.1);
        let (l, r) = (a + b, c + d);
        let none = s.0.is_empty();
        match self.c {
            Criterion::Edge => unreachable!(),
            Criterion::Gini => (if none { 0.0 } else { a * b / l }) + c * d / r,
            Criterion::Twoing => {
                if none {
                    0.0
                } else {
                    let x = a / l - c / r;
                    -(x * x * l * r) / ((l + r) * (l + r))
                }
            }
            Criterion::Entropy => {
                let h = |p: f64, t: f64, rows: &[usize]| {
                    if self.pure(rows) {
                        0.0
                    } else {
                        -(p * (p / t).ln())
                    }
                };
                let left = if none { 0.0 } else { h(a, l, &s.0) + h(b, l, &s.0) };
                left + h(c, r, &s.1) + h(d, r, &s.1)
            }
        }
    }
    fn at_least_as_good(&self, s: &(Vec<usize>, Vec<usize>), o: &(Vec<usize>, Vec<usize>)) -> B {
        if self.c != Criterion::Edge {
            return le(self.score(s), self.score(o));
        }
        // smallest training error: sum over the leaves of |mass(+) - mass(-)|
        let gap = |rows: &[usize]| {
            let (p, m) = self.mass(rows);
            p - m
        };
        let all_signs = |a: f64, b: f64| vec![a + b, a - b, b - a, -a - b];
        let mine = all_signs(gap(&s.0), gap(&s.1));
        let its = all_signs(gap(&o.0), gap(&o.1));
        and(its.iter().map(|t| or(mine.iter().map(|m| ge(*m, *t)).collect())).collect())
    }
    fn outcomes(&self, rows: &[usize], depth: usize) -> Vec<Outcome> {
        if depth == 0 || self.pure(rows) {
            return vec![Outcome { when: true.into(), conf: self.leaf(rows) }];
        }
        let all = self.splits(rows);
        let mut out = vec![];
        for s in &all {
            let best = and(all.iter().map(|o| self.at_least_as_good(s, o)).collect());
            if s.0.is_empty() {
                out.push(Outcome { when: best, conf: self.leaf(rows) });
                continue;
            }
            for l in self.outcomes(&s.0, depth - 1) {
                for r in self.outcomes(&s.1, depth - 1) {
                    let conf = (0..self.y.len()).map(|i| if s.0.contains(&i) { l.conf[i] } else { r.conf[i] }).collect();
                    out.push(Outcome { when: and(vec![best.clone(), l.when.clone(), r.when.clone()]), conf });
                }
            }
        }
        out
    }
}
