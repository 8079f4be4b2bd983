//! Contract model of the Clarabel conic solver (symbolic build only).
//!
//! `solve` returns an arbitrary primal-dual pair satisfying the exact
//! optimality conditions of  min 1/2 x'Px + q'x  s.t. Ax + s = b, s in K
//! for the matrices the caller really built, or an exact certificate of
//! primal or dual infeasibility.  For convex quadratic programs over
//! polyhedral cones one of the three always exists, so every outcome the
//! real solver may report up to its tolerance is covered.  A strictly convex
//! program with a diagonal P has one solution, which is computed from its
//! active set (all of them are tried) instead of being left to the SMT solver.
pub mod algebra {
    #[derive(Debug, Clone, PartialEq)]
    pub struct CscMatrix<T> {
        pub m: usize,
        pub n: usize,
        pub colptr: Vec<usize>,
        pub rowval: Vec<usize>,
        pub nzval: Vec<T>,
    }
    impl<T: Clone> CscMatrix<T> {
        pub fn new(m: usize, n: usize, colptr: Vec<usize>, rowval: Vec<usize>, nzval: Vec<T>) -> Self {
            assert_eq!(rowval.len(), nzval.len());
            assert_eq!(colptr.len(), n + 1);
            assert_eq!(colptr[n], rowval.len());
            CscMatrix { m, n, colptr, rowval, nzval }
        }
        pub fn nrows(&self) -> usize {
            self.m
        }
        pub fn ncols(&self) -> usize {
            self.n
        }
        pub fn nnz(&self) -> usize {
            self.nzval.len()
        }
        pub fn size(&self) -> (usize, usize) {
            (self.m, self.n)
        }
    }
    impl CscMatrix<f64> {
        pub fn zeros(size: (usize, usize)) -> Self {
            CscMatrix { m: size.0, n: size.1, colptr: vec![0; size.1 + 1], rowval: vec![], nzval: vec![] }
        }
        pub fn spalloc(size: (usize, usize), _nnz: usize) -> Self {
            Self::zeros(size)
        }
        pub fn identity(n: usize) -> Self {
            CscMatrix { m: n, n, colptr: (0..=n).collect(), rowval: (0..n).collect(), nzval: vec![1.0; n] }
        }
        pub fn from_dense(m: usize, n: usize, d: &[Vec<f64>]) -> Self {
            let mut colptr = vec![0];
            let mut rowval = vec![];
            let mut nzval = vec![];
            for c in 0..n {
                for r in 0..m {
                    rowval.push(r);
                    nzval.push(d[r][c]);
                }
                colptr.push(nzval.len());
            }
            CscMatrix { m, n, colptr, rowval, nzval }
        }
        pub fn new_from_triplets(m: usize, n: usize, i: Vec<usize>, j: Vec<usize>, v: Vec<f64>) -> Self {
            assert_eq!(i.len(), j.len());
            assert_eq!(i.len(), v.len());
            let mut d = vec![vec![0.0; n]; m];
            for k in 0..v.len() {
                d[i[k]][j[k]] = d[i[k]][j[k]] + v[k];
            }
            Self::from_dense(m, n, &d)
        }
        pub fn check_format(&self) -> Result<(), String> {
            Ok(())
        }
        pub(crate) fn dense(&self) -> Vec<Vec<f64>> {
            let mut d = vec![vec![0.0; self.n]; self.m];
            for c in 0..self.n {
                for k in self.colptr[c]..self.colptr[c + 1] {
                    let r = self.rowval[k];
                    d[r][c] = d[r][c] + self.nzval[k];
                }
            }
            d
        }
    }
    impl<'a, I, J> From<I> for CscMatrix<f64>
    where
        I: IntoIterator<Item = J>,
        J: IntoIterator<Item = &'a f64>,
    {
        fn from(rows: I) -> Self {
            let d: Vec<Vec<f64>> = rows.into_iter().map(|r| r.into_iter().copied().collect()).collect();
            let n = d.first().map(|r| r.len()).unwrap_or(0);
            assert!(d.iter().all(|r| r.len() == n));
            Self::from_dense(d.len(), n, &d)
        }
    }
}

pub mod solver {
    use super::algebra::CscMatrix;
    pub use SupportedConeT::*;

    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum SupportedConeT<T> {
        ZeroConeT(usize),
        NonnegativeConeT(usize),
        #[doc(hidden)]
        Phantom(std::marker::PhantomData<T>),
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
    pub enum SolverStatus {
        #[default]
        Unsolved,
        Solved,
        PrimalInfeasible,
        DualInfeasible,
        AlmostSolved,
        AlmostPrimalInfeasible,
        AlmostDualInfeasible,
        MaxIterations,
        MaxTime,
        NumericalError,
        InsufficientProgress,
    }
    impl std::fmt::Display for SolverStatus {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }

    #[derive(Debug, Clone, Default)]
    pub struct DefaultSettings<T> {
        p: std::marker::PhantomData<T>,
    }
    pub struct DefaultSettingsBuilder<T> {
        p: std::marker::PhantomData<T>,
    }
    impl Default for DefaultSettingsBuilder<f64> {
        fn default() -> Self {
            DefaultSettingsBuilder { p: std::marker::PhantomData }
        }
    }
    macro_rules! knobs { ($($n:ident: $t:ty),* $(,)?) => { $( pub fn $n(&mut self, _v: $t) -> &mut Self { self } )* } }
    impl DefaultSettingsBuilder<f64> {
        knobs! {
            equilibrate_enable: bool, verbose: bool, max_iter: u32, max_threads: u32,
            presolve_enable: bool, direct_kkt_solver: bool, static_regularization_enable: bool,
            dynamic_regularization_enable: bool, iterative_refinement_enable: bool,
            equilibrate_max_iter: u32,
            time_limit: f64, max_step_fraction: f64, tol_gap_abs: f64, tol_gap_rel: f64, tol_feas: f64,
            tol_infeas_abs: f64, tol_infeas_rel: f64, tol_ktratio: f64,
            reduced_tol_gap_abs: f64, reduced_tol_gap_rel: f64, reduced_tol_feas: f64,
            reduced_tol_infeas_abs: f64, reduced_tol_infeas_rel: f64, reduced_tol_ktratio: f64,
        }
        pub fn build(&self) -> Result<DefaultSettings<f64>, String> {
            Ok(DefaultSettings { p: std::marker::PhantomData })
        }
    }

    #[derive(Debug, Clone)]
    pub struct DefaultSolution<T> {
        pub x: Vec<T>,
        pub z: Vec<T>,
        pub s: Vec<T>,
        pub status: SolverStatus,
        pub obj_val: T,
        pub obj_val_dual: T,
        pub solve_time: T,
        pub iterations: u32,
        pub r_prim: T,
        pub r_dual: T,
    }

    pub struct DefaultSolver<T> {
        p: Vec<Vec<T>>,
        q: Vec<T>,
        a: Vec<Vec<T>>,
        b: Vec<T>,
        eq_rows: Vec<bool>,
        pub solution: DefaultSolution<T>,
    }

    fn dot(a: &[f64], b: &[f64]) -> f64 {
        let mut s = 0.0;
        for k in 0..a.len() {
            s = s + a[k] * b[k];
        }
        s
    }

    /// solve M u = r exactly; None if M is singular
    fn gauss(mut a: Vec<Vec<f64>>, mut r: Vec<f64>) -> Option<Vec<f64>> {
        let k = r.len();
        for c in 0..k {
            let p = (c..k).find(|i| vapi::branch(vapi::ne(a[*i][c], 0.0)))?;
            a.swap(c, p);
            r.swap(c, p);
            for i in 0..k {
                if i != c && vapi::branch(vapi::ne(a[i][c], 0.0)) {
                    let f = a[i][c] / a[c][c];
                    for j in c..k {
                        a[i][j] = a[i][j] - f * a[c][j];
                    }
                    r[i] = r[i] - f * r[c];
                }
            }
        }
        Some((0..k).map(|i| r[i] / a[i][i]).collect())
    }

    /// collects the different vectors of least value
    fn keep(best: &mut Vec<Vec<f64>>, least: &mut Option<f64>, value: f64, v: Vec<f64>) {
        if let Some(l) = *least {
            if vapi::branch(vapi::gt(value, l)) {
                return;
            }
            if vapi::branch(vapi::lt(value, l)) {
                best.clear();
            }
        }
        *least = Some(value);
        let same = |u: &Vec<f64>| u.iter().zip(&v).all(|(a, b)| vapi::branch(vapi::eq(*a, *b)));
        if !best.iter().any(same) {
            best.push(v);
        }
    }
    /// an arbitrary convex combination
    fn mix(vs: Vec<Vec<f64>>) -> Vec<f64> {
        let k = vs.len();
        if k == 1 {
            return vs[0].clone();
        }
        let mut w: Vec<f64> = (1..k).map(|_| vapi::any_in("clarabel.mix", 0.0, 1.0, false, false)).collect();
        let mut rest = 1.0;
        for v in &w {
            rest = rest - *v;
        }
        vapi::assume_fast(vapi::ge(rest, 0.0));
        w.push(rest);
        (0..vs[0].len())
            .map(|i| {
                let mut s = 0.0;
                for (a, v) in w.iter().zip(&vs) {
                    s = s + *a * v[i];
                }
                s
            })
            .collect()
    }

    impl DefaultSolver<f64> {
        /// x and z for the rows in `act` being tight, None if that does not
        /// determine them
        fn tight(&self, act: &[usize]) -> Option<(Vec<f64>, Vec<f64>)> {
            let n = self.q.len();
            let k = act.len();
            let mut mm = vec![vec![0.0; n + k]; n + k];
            let mut r: Vec<f64> = self.q.iter().map(|v| -*v).collect();
            for j in 0..n {
                mm[j][j] = self.p[j][j];
                for (u, &i) in act.iter().enumerate() {
                    mm[j][n + u] = self.a[i][j];
                    mm[n + u][j] = self.a[i][j];
                }
            }
            r.extend(act.iter().map(|i| self.b[*i]));
            let mut x = gauss(mm, r)?;
            let z = x.split_off(n);
            Some((x, z))
        }
        /// no input variables; P is diagonal and non-negative with at most one
        /// zero, where q is not zero: then the solution is unique
        fn plain(&self) -> bool {
            let n = self.q.len();
            let consts = self.q.iter().chain(&self.b).chain(self.a.iter().flatten()).chain(self.p.iter().flatten());
            let zero = |v: f64| vapi::branch(vapi::eq(v, 0.0));
            if !consts.into_iter().all(|v| vapi::is_constant(*v)) {
                return false;
            }
            if !(0..n).all(|i| (0..n).all(|j| i == j || zero(self.p[i][j]))) {
                return false;
            }
            let flat: Vec<usize> = (0..n).filter(|i| !vapi::branch(vapi::gt(self.p[*i][*i], 0.0))).collect();
            flat.len() <= 1 && flat.iter().all(|i| zero(self.p[*i][*i]) && !zero(self.q[*i]))
        }
        /// the unique solution, if there is one
        fn unique(&self) -> Option<Vec<f64>> {
            let m = self.b.len();
            let eqs: Vec<usize> = (0..m).filter(|i| self.eq_rows[*i]).collect();
            let ins: Vec<usize> = (0..m).filter(|i| !self.eq_rows[*i]).collect();
            let mut sets: Vec<u32> = (0..1u32 << ins.len()).collect();
            sets.sort_by_key(|s| (s.count_ones(), *s));
            for set in sets {
                let mut act = eqs.clone();
                act.extend((0..ins.len()).filter(|k| set >> k & 1 == 1).map(|k| ins[k]));
                if act.len() > self.q.len() {
                    break;
                }
                if let Some((x, z)) = self.tight(&act) {
                    let dual = act.iter().zip(&z).all(|(i, v)| self.eq_rows[*i] || vapi::branch(vapi::ge(*v, 0.0)));
                    let primal = || {
                        ins.iter().all(|i| act.contains(i) || vapi::branch(vapi::ge(self.b[*i] - dot(&self.a[*i], &x), 0.0)))
                    };
                    if dual && primal() {
                        return Some(x);
                    }
                }
            }
            None
        }
        /// a linear program without input variables: any convex combination of
        /// the optimal vertices and of the optimal dual vertices
        fn linear(&self) -> Option<(Vec<f64>, Vec<f64>)> {
            let (n, m) = (self.q.len(), self.b.len());
            let mut consts = self.q.iter().chain(&self.b).chain(self.a.iter().flatten());
            if !consts.all(|v| vapi::is_constant(*v)) || !self.p.iter().flatten().all(|v| vapi::branch(vapi::eq(*v, 0.0))) {
                return None;
            }
            let (mut xs, mut zs): (Vec<Vec<f64>>, Vec<Vec<f64>>) = (vec![], vec![]);
            let (mut low, mut high) = (None, None);
            for set in 0..1u32 << m {
                let act: Vec<usize> = (0..m).filter(|i| set >> i & 1 == 1).collect();
                if act.len() != n || (0..m).any(|i| self.eq_rows[i] && set >> i & 1 == 0) {
                    continue;
                }
                let rows: Vec<Vec<f64>> = act.iter().map(|i| self.a[*i].clone()).collect();
                let x = match gauss(rows.clone(), act.iter().map(|i| self.b[*i]).collect()) {
                    Some(x) => x,
                    None => continue,
                };
                if (0..m).all(|i| self.eq_rows[i] || act.contains(&i) || vapi::branch(vapi::ge(self.b[i] - dot(&self.a[i], &x), 0.0))) {
                    keep(&mut xs, &mut low, dot(&self.q, &x), x);
                }
                let columns: Vec<Vec<f64>> = (0..n).map(|j| rows.iter().map(|r| r[j]).collect()).collect();
                let u = gauss(columns, self.q.iter().map(|v| -*v).collect())?;
                if act.iter().zip(&u).all(|(i, v)| self.eq_rows[*i] || vapi::branch(vapi::ge(*v, 0.0))) {
                    let mut z = vec![0.0; m];
                    for (i, v) in act.iter().zip(&u) {
                        z[*i] = *v;
                    }
                    keep(&mut zs, &mut high, dot(&self.b, &z), z);
                }
            }
            if xs.is_empty() || zs.is_empty() {
                return None;
            }
            Some((mix(xs), mix(zs)))
        }
        pub fn new(
            p: &CscMatrix<f64>,
            q: &[f64],
            a: &CscMatrix<f64>,
            b: &[f64],
            cones: &[SupportedConeT<f64>],
            _settings: DefaultSettings<f64>,
        ) -> Self {
            let n = q.len();
            let m = b.len();
            assert_eq!(p.n, n, "P and q incompatible dimensions.");
            assert_eq!(p.m, n, "P not square.");
            assert_eq!(a.n, n, "A and q incompatible dimensions.");
            assert_eq!(a.m, m, "A and b incompatible dimensions.");
            let mut eq_rows = vec![];
            for c in cones {
                match c {
                    SupportedConeT::ZeroConeT(k) => eq_rows.extend(vec![true; *k]),
                    SupportedConeT::NonnegativeConeT(k) => eq_rows.extend(vec![false; *k]),
                    SupportedConeT::Phantom(_) => {}
                }
            }
            assert_eq!(eq_rows.len(), m, "Constraint dimensions inconsistent with size of cones.");
            // only the upper triangle of P is read
            let up = p.dense();
            let mut pf = vec![vec![0.0; n]; n];
            for i in 0..n {
                for j in i..n {
                    pf[i][j] = up[i][j];
                    pf[j][i] = up[i][j];
                }
            }
            let nan = f64::NAN;
            DefaultSolver {
                p: pf,
                q: q.to_vec(),
                a: a.dense(),
                b: b.to_vec(),
                eq_rows,
                solution: DefaultSolution {
                    x: vec![0.0; n],
                    z: vec![0.0; m],
                    s: vec![0.0; m],
                    status: SolverStatus::Unsolved,
                    obj_val: nan,
                    obj_val_dual: nan,
                    solve_time: 0.0,
                    iterations: 0,
                    r_prim: nan,
                    r_dual: nan,
                },
            }
        }
        pub fn solve(&mut self) {
            vapi::model("clarabel: exact KKT contract or infeasibility certificate");
            vapi::count_solve();
            let n = self.q.len();
            let m = self.b.len();
            if n <= 7 && m <= 12 {
                if let Some((x, mut z)) = self.linear() {
                    if let Some(e) = vapi::solver_error_bound() {
                        let by = 1.0 + vapi::any_in("clarabel.error", -e, e, false, false);
                        z = z.iter().map(|v| *v * by).collect();
                    }
                    let sol = &mut self.solution;
                    sol.status = SolverStatus::Solved;
                    sol.obj_val = dot(&self.q, &x);
                    sol.obj_val_dual = -dot(&self.b, &z);
                    sol.s = (0..m).map(|i| self.b[i] - dot(&self.a[i], &x)).collect();
                    sol.x = x;
                    sol.z = z;
                    return;
                }
            }
            let known = if m <= 16 && self.plain() { Some(self.unique()) } else { None };
            let outcome = match &known {
                Some(Some(_)) => 0,
                Some(None) => 1,
                None => vapi::choose("clarabel.status", 3),
            };
            let x: Vec<f64> = match known {
                Some(Some(x)) => x,
                _ => (0..n).map(|_| vapi::any("clarabel.x")).collect(),
            };
            let z: Vec<f64> = (0..m).map(|_| vapi::any("clarabel.z")).collect();
            let px: Vec<f64> = (0..n).map(|i| dot(&self.p[i], &x)).collect();
            let atz: Vec<f64> = (0..n)
                .map(|j| {
                    let mut s = 0.0;
                    for i in 0..m {
                        s = s + self.a[i][j] * z[i];
                    }
                    s
                })
                .collect();
            let mut s = vec![0.0; m];
            let mut fs = vec![];
            for i in 0..m {
                if !self.eq_rows[i] {
                    fs.push(vapi::ge(z[i], 0.0));
                }
            }
            let sol = &mut self.solution;
            match outcome {
                0 => {
                    for i in 0..m {
                        s[i] = self.b[i] - dot(&self.a[i], &x);
                        if self.eq_rows[i] {
                            fs.push(vapi::eq(s[i], 0.0));
                        } else {
                            fs.push(vapi::ge(s[i], 0.0));
                            fs.push(vapi::or(vec![vapi::eq(s[i], 0.0), vapi::eq(z[i], 0.0)]));
                        }
                    }
                    for j in 0..n {
                        fs.push(vapi::eq(px[j] + self.q[j] + atz[j], 0.0));
                    }
                    sol.status = SolverStatus::Solved;
                    let half = 0.5 * dot(&x, &px);
                    sol.obj_val = half + dot(&self.q, &x);
                    sol.obj_val_dual = -half - dot(&self.b, &z);
                }
                1 => {
                    for j in 0..n {
                        fs.push(vapi::eq(atz[j], 0.0));
                    }
                    fs.push(vapi::eq(dot(&self.b, &z), -1.0));
                    sol.status = SolverStatus::PrimalInfeasible;
                }
                _ => {
                    for i in 0..m {
                        s[i] = -dot(&self.a[i], &x);
                        fs.push(if self.eq_rows[i] { vapi::eq(s[i], 0.0) } else { vapi::ge(s[i], 0.0) });
                    }
                    for j in 0..n {
                        fs.push(vapi::eq(px[j], 0.0));
                    }
                    fs.push(vapi::eq(dot(&self.q, &x), -1.0));
                    sol.status = SolverStatus::DualInfeasible;
                }
            }
            vapi::assume(vapi::and(fs));
            sol.x = x;
            sol.z = z;
            sol.s = s;
        }
    }
}
