//! SVMlight ingestion and the sparse representation.
use crate::util::*;
use miniboosts::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    let sizes: Vec<(usize, usize, usize)> =
        if thorough { vec![(2, 2, 0), (3, 2, 1), (2, 3, 1), (3, 3, 1), (2, 4, 0), (4, 3, 0), (3, 4, 1)] } else { vec![(2, 2, 0), (3, 2, 1), (2, 3, 1), (3, 3, 1), (2, 4, 0)] };
    for (n, d, base) in sizes {
        job(r, format!("svmlight-{n}x{d}-base{base}"), move || svmlight(n, d, base));
    }
    job(r, "svmlight-long", || long());
    job(r, "svmlight-wide", || wide());
    job(r, "distinct-names", || names());
}

fn svmlight(n: usize, d: usize, base: usize) {
    let (mut cells, present, y) = sparse_table(n, d);
    // a zero may be listed, too
    for i in 0..n {
        if present[i][0] {
            cells[i][0] = any("first");
        }
    }
    let s = read_svmlight(&cells, &present, &y, base);
    // columns which never occur are dropped
    let kept: Vec<usize> = (0..d).filter(|j| (0..n).any(|i| present[i][*j])).collect();
    check("shape", s.shape() == (n, kept.len()));
    check("target", same(s.target(), &y));
    check("columns", s.features().len() == kept.len());
    for i in 0..n {
        let (x, t) = s.at(i);
        check("row-label", eq(t, y[i]));
        let want: Vec<f64> = kept.iter().map(|j| cells[i][*j]).collect();
        check("row", same(&x, &want));
        for v in &x {
            observe("x", *v);
        }
    }
    for (k, j) in kept.iter().enumerate() {
        let f = &s.features()[k];
        let nnz = (0..n).filter(|i| present[*i][*j]).count();
        check("stored-entries", f.len() == nnz);
        if let Feature::Sparse(sp) = f {
            check("zero-count", sp.zero_counts() == n - nnz && sp.has_zero() == (nnz < n));
        } else {
            check("zero-count", false);
        }
        for i in 0..n {
            check("cell-by-position", eq(f[i], cells[i][*j]));
            check("cell-by-name", eq(s[f.name()][i], cells[i][*j]));
        }
    }
}

/// 300 rows, of which arbitrary ones list arbitrary values
fn long() {
    let n = 300;
    let mut cells = vec![vec![0.0; 2]; n];
    let mut present = vec![vec![false; 2]; n];
    let mut y: Vec<f64> = (0..n).map(|i| (i % 7) as f64).collect();
    for i in 0..n {
        present[i] = vec![i % 2 == 0, i % 3 == 1];
        cells[i] = vec![if i % 2 == 0 { i as f64 + 1.0 } else { 0.0 }, if i % 3 == 1 { -(i as f64) - 1.0 } else { 0.0 }];
    }
    for i in [0, 1, 128, 255, 256, 299] {
        y[i] = any("y");
        let j = i % 2;
        present[i][j] = choose("present", 2) == 1;
        cells[i][j] = if present[i][j] { any("cell") } else { 0.0 };
    }
    let s = read_svmlight(&cells, &present, &y, 1);
    check("shape", s.shape() == (n, 2));
    check("target", same(s.target(), &y));
    for j in 0..2 {
        let f = &s.features()[j];
        let nnz = (0..n).filter(|i| present[*i][j]).count();
        check("stored-entries", f.len() == nnz);
        check("cell-by-position", all(n, |i| eq(f[i], cells[i][j])));
    }
    for i in 0..n {
        check("row", same(&s.at(i).0, &cells[i]));
    }
}
/// indices up to 40, most of which never occur
fn wide() {
    let at = [choose("first", 3), 9 + choose("second", 3), 38 + choose("third", 3)];
    let v: Vec<f64> = (0..3).map(|_| any("cell")).collect();
    let mut cells = vec![vec![0.0; 41]; 2];
    let mut present = vec![vec![false; 41]; 2];
    for (k, j) in at.iter().enumerate() {
        cells[k % 2][*j] = v[k];
        present[k % 2][*j] = true;
    }
    let s = read_svmlight(&cells, &present, &vec![1.0, -1.0], 0);
    check("shape", s.shape() == (2, 3));
    check("row", same(&s.at(0).0, &vec![v[0], 0.0, v[2]]));
    check("row", same(&s.at(1).0, &vec![0.0, v[1], 0.0]));
    for k in 0..3 {
        let f = &s.features()[k];
        check("cell-by-name", and(vec![eq(s[f.name()][k % 2], v[k]), eq(s[f.name()][1 - k % 2], 0.0)]));
    }
}

fn names() {
    let (cells, present, y) = sparse_table(2, 3);
    let s = read_svmlight(&cells, &present, &y, 0);
    let mut v: Vec<String> = s.features().iter().map(|f| f.name().to_string()).collect();
    let k = v.len();
    v.sort();
    v.dedup();
    check("names-distinct", v.len() == k);
}
