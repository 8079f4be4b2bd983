//! Dense ingestion: the sample is the table it was read from.
use crate::util::*;
use miniboosts::*;
use polars::prelude::*;

pub fn jobs(r: &mut Reg, thorough: bool) {
    let sizes: Vec<(usize, usize)> =
        if thorough { vec![(1, 2), (2, 2), (3, 3), (4, 4), (5, 3), (6, 5)] } else { vec![(1, 2), (2, 2), (3, 3), (4, 4), (5, 3)] };
    for (n, d) in sizes {
        job(r, format!("dataframe-{n}x{d}"), move || dataframe(n, d));
        job(r, format!("csv-header-{n}x{d}"), move || csv(n, d, true));
        job(r, format!("csv-plain-{n}x{d}"), move || csv(n, d, false));
        job(r, format!("rename-{n}x{d}"), move || rename(n, d));
    }
    job(r, "csv-header-1x12", || csv(1, 12, true));
    job(r, "csv-plain-1x12", || csv(1, 12, false));
    for header in [true, false] {
        job(r, format!("csv-long-{header}"), move || long(header));
    }
    job(r, "dataframe-long", || long_frame());
    job(r, "unique-target-n2", || unique(2));
    job(r, "unique-target-n3", || unique(3));
    job(r, "unique-target-n4", || unique(4));
    if thorough {
        job(r, "unique-target-n5", || unique(5));
    }
}

fn table(n: usize, d: usize) -> Vec<Vec<f64>> {
    // column major
    (0..d).map(|_| (0..n).map(|_| any("cell")).collect()).collect()
}

fn same_table(s: &Sample, cols: &[Vec<f64>], names: &[String], target: &[f64]) {
    let n = target.len();
    let d = cols.len();
    check("shape", s.shape() == (n, d));
    check("target", same(s.target(), target));
    check("columns", s.features().len() == d);
    for i in 0..n {
        let (x, y) = s.at(i);
        check("row-label", eq(y, target[i]));
        let want: Vec<f64> = cols.iter().map(|c| c[i]).collect();
        check("row", same(&x, &want));
    }
    for j in 0..d {
        check("column-name", s.features()[j].name() == names[j]);
        check("column-length", s.features()[j].len() == n);
        for i in 0..n {
            check("cell-by-position", eq(s.features()[j][i], cols[j][i]));
            check("cell-by-name", eq(s[&names[j]][i], cols[j][i]));
        }
    }
}

fn dataframe(n: usize, d: usize) {
    let cols = table(n, d);
    let y: Vec<f64> = (0..n).map(|_| any("y")).collect();
    let names: Vec<String> = (0..d).map(|j| format!("c{j}")).collect();
    let df = DataFrame::new(names.iter().zip(&cols).map(|(a, c)| Series::new(a.as_str(), c.clone())).collect()).unwrap();
    let s = Sample::from_dataframe(df, Series::new("y", y.clone())).unwrap();
    same_table(&s, &cols, &names, &y);
    // choosing a column as the target removes it from the features
    let t = choose("target column", d);
    if d >= 2 {
        let s = s.set_target(names[t].as_str());
        let rest: Vec<usize> = (0..d).filter(|j| *j != t).collect();
        let c2: Vec<Vec<f64>> = rest.iter().map(|j| cols[*j].clone()).collect();
        let n2: Vec<String> = rest.iter().map(|j| names[*j].clone()).collect();
        same_table(&s, &c2, &n2, &cols[t]);
    }
}

fn csv(n: usize, d: usize, header: bool) {
    let cols = table(n, d);
    let t = choose("target column", d);
    let mut text = String::new();
    let names = column_names(d, header);
    if header {
        text += &names.join(",");
        text += "\n";
    }
    let sep = [",", ", ", " ,"][choose("separator", 3)];
    for i in 0..n {
        let row: Vec<String> = (0..d).map(|j| format!("{}", cols[j][i])).collect();
        text += &row.join(sep);
        text += "\n";
    }
    let dir = scratch_dir();
    let p = dir.join("data.csv");
    std::fs::write(&p, text).unwrap();
    let s = SampleReader::default().file(p.clone()).has_header(header).target_feature(names[t].as_str()).read();
    std::fs::remove_dir_all(&dir).unwrap();
    let s = s.unwrap();
    let rest: Vec<usize> = (0..d).filter(|j| *j != t).collect();
    let c2: Vec<Vec<f64>> = rest.iter().map(|j| cols[*j].clone()).collect();
    let n2: Vec<String> = rest.iter().map(|j| names[*j].clone()).collect();
    same_table(&s, &c2, &n2, &cols[t]);
}

/// words, or numbers (as data would look like)
fn column_names(d: usize, header: bool) -> Vec<String> {
    let words = header && choose("names are words", 2) == 1;
    (0..d)
        .map(|j| match (header, words) {
            (true, true) => format!("col {}", d - j),
            (true, false) => format!("{}.5", j),
            (false, _) => format!("Feat. [{}]", j + 1),
        })
        .collect()
}
const LONG: usize = 300;
/// 300 rows with arbitrary values in a few of them
fn long_table() -> Vec<Vec<f64>> {
    let mut cols: Vec<Vec<f64>> = (0..3).map(|j| (0..LONG).map(|i| (i * 3 + j) as f64).collect()).collect();
    for i in [0, 1, 63, 64, 127, 128, 255, 256, 257, LONG - 1] {
        cols[i % 3][i] = any("cell");
    }
    cols
}
fn long(header: bool) {
    let cols = long_table();
    let names = column_names(3, header);
    let mut text = String::new();
    if header {
        text += &names.join(",");
        text += "\n";
    }
    for i in 0..LONG {
        text += &format!("{},{},{}\n", cols[0][i], cols[1][i], cols[2][i]);
    }
    let dir = scratch_dir();
    let p = dir.join("data.csv");
    std::fs::write(&p, text).unwrap();
    let s = SampleReader::default().file(p.clone()).has_header(header).target_feature(names[1].as_str()).read();
    std::fs::remove_dir_all(&dir).unwrap();
    let rest = [names[0].clone(), names[2].clone()];
    same_table(&s.unwrap(), &[cols[0].clone(), cols[2].clone()], &rest, &cols[1]);
}
fn long_frame() {
    let cols = long_table();
    let names = column_names(3, true);
    let df = DataFrame::new(names.iter().zip(&cols).map(|(a, c)| Series::new(a.as_str(), c.clone())).collect()).unwrap();
    let y: Vec<f64> = (0..LONG).map(|i| -(i as f64)).collect();
    let s = Sample::from_dataframe(df, Series::new("y", y.clone())).unwrap();
    same_table(&s, &cols, &names, &y);
    let u = s.unique_target();
    check("unique-complete", and(vec![(u.len() == LONG).into(), all(u.len(), |i| eq(u[i], i as f64 - (LONG - 1) as f64))]));
}

fn rename(n: usize, d: usize) {
    let cols = table(n, d);
    let y: Vec<f64> = (0..n).map(|_| any("y")).collect();
    let old: Vec<String> = (0..d).map(|j| format!("old{j}")).collect();
    let df = DataFrame::new(old.iter().zip(&cols).map(|(a, c)| Series::new(a.as_str(), c.clone())).collect()).unwrap();
    let mut s = Sample::from_dataframe(df, Series::new("y", y.clone())).unwrap();
    // new names, the old ones in another order, one old name for another column
    let new: Vec<String> = match choose("new names", 3) {
        0 => (0..d).map(|j| format!("new{}", (j * 7 + 3) % 11)).collect(),
        1 => (0..d).map(|j| old[(j + 1) % d].clone()).collect(),
        _ => (0..d).map(|j| if j == 0 { old[d - 1].clone() } else { format!("new{j}") }).collect(),
    };
    let back = s.replace_names(&new);
    check("old-names-returned", back == old);
    same_table(&s, &cols, &new, &y);
    let back = s.replace_names(&old);
    check("new-names-returned", back == new);
    same_table(&s, &cols, &old, &y);
}

fn unique(n: usize) {
    let y: Vec<f64> = (0..n).map(|_| any("y")).collect();
    let s = dense_sample(vec![("f", y.clone())], y.clone());
    let u = s.unique_target();
    observe("kinds", u.len() as f64);
    check("unique-increasing", all(u.len().max(1) - 1, |k| lt(u[k], u[k + 1])));
    for k in 0..u.len() {
        check("unique-from-target", any_of(n, |i| eq(u[k], y[i])));
    }
    for i in 0..n {
        check("unique-complete", any_of(u.len(), |k| eq(u[k], y[i])));
    }
}
