//! Cross validation: every fold is an exact partition of the rows.
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    for n in if thorough { vec![2usize, 3, 4, 5, 6, 7, 10, 11] } else { vec![3usize, 4, 5, 6, 11] } {
        job(r, format!("default-n{n}"), move || folds(n, 5, None, false, false));
        job(r, format!("sparse-default-n{n}"), move || folds(n, 5, None, false, true));
    }
    long_jobs(r);
    for n in [3usize, 4] {
        job(r, format!("shuffled-n{n}"), move || folds(n, 2, Some(0.5), true, false));
        job(r, format!("sparse-shuffled-n{n}"), move || folds(n, 2, Some(0.5), true, true));
        for k in 1..=if thorough { 6 } else { 4 } {
            for ratio in [0.25, 0.5, 0.75] {
                job(r, format!("ratio{ratio}-k{k}-n{n}"), move || folds(n, k, Some(ratio), false, false));
            }
        }
    }
}

fn long_jobs(r: &mut Reg) {
    for (n, k, ratio) in [(25usize, 10usize, 0.9), (40, 7, 0.8), (70, 3, 0.5), (130, 2, 0.75)] {
        job(r, format!("long-k{k}-n{n}"), move || folds(n, k, Some(ratio), false, false));
        job(r, format!("sparse-long-k{k}-n{n}"), move || folds(n, k, Some(ratio), false, true));
    }
}
fn folds(n: usize, k: usize, ratio: Option<f64>, shuffle: bool, sparse: bool) {
    // rows are identified by an arbitrary label and an arbitrary second cell
    let y: Vec<f64> = (0..n).map(|_| any("y")).collect();
    let id: Vec<f64> = (0..n).map(|i| i as f64 + 1.0).collect();
    let mut v: Vec<f64> = (0..n).map(|i| if n > 20 && i > 1 && i < n - 2 { (i % 5) as f64 } else { any("v") }).collect();
    let s = if sparse {
        let z = if n > 20 { n / 2 } else { choose("zero row", n) };
        v[z] = 0.0;
        for i in (0..n).filter(|i| n > 20 && i % 5 == 0) {
            v[i] = 0.0;
        }
        let cells: Vec<Vec<f64>> = (0..n).map(|i| vec![id[i], v[i]]).collect();
        let present: Vec<Vec<bool>> = (0..n).map(|i| vec![true, i != z && (n <= 20 || i % 5 != 0)]).collect();
        read_svmlight(&cells, &present, &y, 0)
    } else {
        dense_sample(vec![("id", id.clone()), ("v", v.clone())], y.clone())
    };
    let mut cv = CrossValidation::new(&s).n_folds(k).seed(7);
    if let Some(q) = ratio {
        cv = cv.train_ratio(q);
    }
    if shuffle {
        cv = cv.shuffle();
    }
    if let Some(q) = ratio {
        if ((q * n as f64) as usize) == 0 {
            prune("the ratio leaves a training row");
        }
    }
    let mut tested = vec![0usize; n];
    let mut count = 0;
    for (train, test) in cv {
        count += 1;
        let mut role = vec![0usize; n];
        for (which, part) in [(1usize, &train), (2, &test)] {
            check("rows-and-labels-agree", part.shape().0 == part.target().len());
            check("columns-kept", part.shape().1 == 2 && part.features().len() == 2);
            for j in 0..2 {
                check("column-order-kept", part.features()[j].name() == s.features()[j].name());
            }
            for i in 0..part.shape().0 {
                let (x, t) = part.at(i);
                check("row-is-known", any_of(n, |r| eq(x[0], id[r])));
                let r = (0..n).find(|r| x[0] == id[*r]);
                if let Some(r) = r {
                    check("row-appears-once", role[r] == 0);
                    role[r] = which;
                    check("row-content", eq(x[1], v[r]));
                    check("row-label", eq(t, y[r]));
                    check("cell-by-name", eq(part[s.features()[1].name()][i], v[r]));
                    observe("v", x[1]);
                }
            }
            for f in part.features() {
                if let Feature::Sparse(sp) = f {
                    let m = part.shape().0;
                    check("sparse-rows-in-range", sp.iter().all(|p| p.0 < m) && sp.zero_counts() + sp.len() == m);
                    let nz = (0..m).filter(|i| f[*i] == 0.0).count();
                    check("sparse-zero-count", sp.zero_counts() == nz);
                }
            }
        }
        check("partition", role.iter().all(|r| *r != 0));
        // the requested share of the rows, except in an incomplete last fold
        let size = (ratio.unwrap_or(0.8) * n as f64) as usize;
        let m = train.shape().0;
        check("training-size", m == size || (m > size && tested.iter().filter(|t| **t > 0).count() + n - m == n));
        check("both-parts-nonempty", train.shape().0 > 0 && test.shape().0 > 0);
        for r in 0..n {
            if role[r] == 2 {
                tested[r] += 1;
            }
        }
    }
    check("at-most-k-folds", count <= k && (count == k || tested.iter().all(|t| *t == 1)));
    check("tested-at-most-once", tested.iter().all(|t| *t <= 1));
    cover("a full cross validation was run");
}
