//! SMT-LIB emission and solver processes.
use crate::form::*;
use crate::poly::*;
use crate::rat::Q;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Res {
    Sat(BTreeMap<String, f64>),
    Unsat,
    Unknown,
}

/// exp/ln point used for refinement lemmas
pub type Lemma = (u32, f64);

pub static QUERIES: AtomicU64 = AtomicU64::new(0);
pub static N_SAT: AtomicU64 = AtomicU64::new(0);
pub static N_UNSAT: AtomicU64 = AtomicU64::new(0);
pub static N_UNKNOWN: AtomicU64 = AtomicU64::new(0);
pub static N_CVC5: AtomicU64 = AtomicU64::new(0);
pub static SOLVER_US: AtomicU64 = AtomicU64::new(0);

pub struct Text {
    pub s: String,
    pub vars: Vec<(u32, String)>,
}

struct Em {
    decl: String,
    ax: String,
    order: Vec<u32>,
    seen: std::collections::BTreeSet<u32>,
    vals: BTreeMap<PId, String>,
    /// argument = constant factor of known sign * rest
    facs: BTreeMap<PId, (Poly, bool, String)>,
    nonlinear: bool,
    level: u8,
}

fn sum_txt(p: &Poly, e: &mut Em) -> String {
    let mut parts = vec![];
    for (m, q) in &p.t {
        let deg: i32 = m.iter().map(|x| x.1).sum();
        if deg > 1 {
            e.nonlinear = true;
        }
        let mut f = vec![];
        if !q.is_one() || m.is_empty() {
            f.push(q.smt());
        }
        for &(a, k) in m {
            for _ in 0..k {
                f.push(format!("v{a}"));
            }
            if k < 0 {
                e.nonlinear = true;
                for _ in 0..-k {
                    f.push(format!("(/ 1.0 v{a})"));
                }
            }
        }
        parts.push(if f.len() == 1 { f.pop().unwrap() } else { format!("(* {})", f.join(" ")) });
    }
    match parts.len() {
        0 => "0.0".into(),
        1 => parts.pop().unwrap(),
        _ => format!("(+ {})", parts.join(" ")),
    }
}

impl Em {
    fn atoms_of(&mut self, p: &Poly, lem: &[Lemma]) {
        for (m, _) in &p.t {
            for &(a, _) in m {
                self.atom(a, lem);
            }
        }
    }
    fn value(&mut self, p: PId, lem: &[Lemma]) -> String {
        if let Some(s) = self.vals.get(&p) {
            return s.clone();
        }
        let pl = get(p);
        let (num, den) = pl.clear();
        if den.is_empty() {
            let groups = ground_groups(&num);
            let enc: Vec<Option<(f64, f64)>> = groups
                .iter()
                .map(|g| if g.0.as_const().is_some() { None } else { enclosure(&g.0) })
                .collect();
            if enc.iter().any(|e| e.is_some()) {
                let mut parts = vec![];
                for (k, ((g, rest), e)) in groups.iter().zip(&enc).enumerate() {
                    self.atoms_of(rest, lem);
                    let r = sum_txt(rest, self);
                    let Some((lo, hi)) = *e else {
                        if g.as_const().is_none() {
                            self.atoms_of(g, lem);
                            let g = sum_txt(g, self);
                            self.nonlinear = true;
                            parts.push(format!("(* {g} {r})"));
                        } else {
                            parts.push(r);
                        }
                        continue;
                    };
                    let v = format!("q{p}_{k}");
                    let (l, h) = (around(lo).0, around(hi).1);
                    let _ = writeln!(self.decl, "(declare-const {v} Real)");
                    if let Some(c) = rest.as_const() {
                        let (l, h) = if c.sign() >= 0 { (l, h) } else { (h, l) };
                        let _ = writeln!(self.ax, "(assert (and (<= (* {l} {r}) {v}) (<= {v} (* {h} {r}))))");
                    } else {
                        let _ = writeln!(
                            self.ax,
                            "(assert (=> (>= {r} 0.0) (and (<= (* {l} {r}) {v}) (<= {v} (* {h} {r})))))\n\
                             (assert (=> (<= {r} 0.0) (and (>= (* {l} {r}) {v}) (>= {v} (* {h} {r})))))"
                        );
                    }
                    if groups.len() == 1 && (lo > 0.0 || hi < 0.0) {
                        self.facs.insert(p, (g.clone(), lo > 0.0, r));
                    }
                    parts.push(v);
                }
                let t = if parts.len() == 1 { parts.pop().unwrap() } else { format!("(+ {})", parts.join(" ")) };
                self.vals.insert(p, t.clone());
                return t;
            }
        }
        self.atoms_of(&num, lem);
        let n = sum_txt(&num, self);
        let r = if den.is_empty() {
            n
        } else {
            // expand composite denominators
            let mut d = Poly::int(1);
            for &(a, k) in &den {
                let f = match atom(a) {
                    Atom::Den(x) => (*get(x)).clone(),
                    _ => Poly::atom(a),
                };
                for _ in 0..k {
                    d = d.mul_nored(&f);
                }
            }
            self.atoms_of(&d, lem);
            let d = sum_txt(&d, self);
            let v = format!("q{p}");
            let _ = writeln!(self.decl, "(declare-const {v} Real)");
            let _ = writeln!(self.ax, "(assert (= (* {v} {d}) {n}))");
            self.nonlinear = true;
            v
        };
        self.vals.insert(p, r.clone());
        r
    }
    fn atom(&mut self, a: u32, lem: &[Lemma]) {
        if !self.seen.insert(a) {
            return;
        }
        match atom(a) {
            Atom::Var(_) => {
                let _ = writeln!(self.decl, "(declare-const v{a} Real)");
            }
            Atom::Root(q, p) => {
                let t = self.value(p, lem);
                let _ = writeln!(self.decl, "(declare-const v{a} Real)");
                let f = vec![format!("v{a}"); q as usize].join(" ");
                let _ = writeln!(self.ax, "(assert (>= v{a} 0.0))\n(assert (= (* {f}) {t}))");
                self.nonlinear = true;
            }
            Atom::Exp(p) => {
                let t = self.value(p, lem);
                let _ = writeln!(self.decl, "(declare-const v{a} Real)");
                if let Some(c) = get(p).as_const() {
                    let x = c.to_f64();
                    let _ = if x > 600.0 {
                        writeln!(self.ax, "(assert (>= v{a} {}))", Q::from_f64(1e260).smt())
                    } else if x < -600.0 {
                        writeln!(
                            self.ax,
                            "(assert (and (> v{a} 0.0) (<= v{a} {})))",
                            Q::from_f64(1e-260).smt()
                        )
                    } else {
                        let (lo, hi) = around_exp(x);
                        writeln!(self.ax, "(assert (and (>= v{a} {lo}) (<= v{a} {hi})))")
                    };
                    return;
                }
                let _ = writeln!(self.ax, "(assert (> v{a} 0.0))");
                if self.level >= 1 {
                    let t = match self.facs.get(&p) {
                        Some((_, true, r)) => r.clone(),
                        Some((_, false, r)) => format!("(- {r})"),
                        None => t.clone(),
                    };
                    let _ = writeln!(
                        self.ax,
                        "(assert (= (> {t} 0.0) (> v{a} 1.0)))\n(assert (= (< {t} 0.0) (< v{a} 1.0)))"
                    );
                }
                if self.level >= 2 {
                    let _ = writeln!(self.ax, "(assert (>= v{a} (+ 1.0 {t})))");
                }
                for (b, x) in lem.iter().filter(|l| l.0 == a) {
                    let _ = b;
                    if !(x.abs() < 600.0) {
                        continue;
                    }
                    let xq = Q::from_f64(*x).smt();
                    let (lo, hi) = around_exp(x.to_owned());
                    let _ = writeln!(
                        self.ax,
                        "(assert (>= v{a} (* {lo} (+ 1.0 (- {t} {xq})))))\n\
                         (assert (=> (<= {t} {xq}) (<= v{a} {hi})))\n\
                         (assert (=> (>= {t} {xq}) (>= v{a} {lo})))"
                    );
                    for d in [1e-6f64, 0.05] {
                        for s in [-1.0, 1.0] {
                            let y = x + s * d;
                            let yq = Q::from_f64(y).smt();
                            let (lo, hi) = around_exp(y);
                            let _ = writeln!(
                                self.ax,
                                "(assert (=> (<= {t} {yq}) (<= v{a} {hi})))\n\
                                 (assert (=> (>= {t} {yq}) (>= v{a} {lo})))"
                            );
                        }
                    }
                }
            }
            Atom::Ln(p) => {
                let t = self.value(p, lem);
                let _ = writeln!(self.decl, "(declare-const v{a} Real)");
                if let Some(c) = get(p).as_const() {
                    let (lo, hi) = around_ln(c.to_f64());
                    let _ = writeln!(self.ax, "(assert (and (>= v{a} {lo}) (<= v{a} {hi})))");
                    return;
                }
                let _ = writeln!(
                    self.ax,
                    "(assert (= (> {t} 1.0) (> v{a} 0.0)))\n(assert (= (< {t} 1.0) (< v{a} 0.0)))"
                );
                if self.level >= 2 {
                    let _ = writeln!(self.ax, "(assert (<= v{a} (- {t} 1.0)))");
                    let _ = writeln!(self.ax, "(assert (<= (- {t} 1.0) (* {t} v{a})))");
                    self.nonlinear = true;
                }
                for (_, x) in lem.iter().filter(|l| l.0 == a) {
                    if !(*x > 1e-200 && *x < 1e200) {
                        continue;
                    }
                    for x in [*x, x * 0.999999, x * 1.000001, x * 0.95, x * 1.05] {
                        let xq = Q::from_f64(x).smt();
                        let (lo, hi) = around_ln(x);
                        let sl = Q::from_f64(1.0 / x).smt();
                        let _ = writeln!(
                            self.ax,
                            "(assert (=> (<= {t} {xq}) (<= v{a} {hi})))\n\
                             (assert (=> (>= {t} {xq}) (>= v{a} {lo})))\n\
                             (assert (<= v{a} (+ {hi} 0.000000000001 (* {sl} (- {t} {xq})))))"
                        );
                    }
                }
            }
            Atom::Den(p) => {
                // only reachable through `value` (as a denominator)
                let pl = get(p);
                self.atoms_of(&pl, lem);
                return;
            }
        }
        self.order.push(a);
    }
    fn form(&mut self, b: &B, gap: Option<&str>, lem: &[Lemma]) -> String {
        match b {
            B::T => "true".into(),
            B::F => "false".into(),
            B::L(p, m) => {
                let pl = get(*p);
                self.atoms_of(&pl, lem);
                let s = sum_txt(&pl, self);
                match (gap, *m) {
                    (_, 0) => "false".into(),
                    (_, 7) => "true".into(),
                    (_, ZERO) => format!("(= {s} 0.0)"),
                    (None, NEG) => format!("(< {s} 0.0)"),
                    (None, POS) => format!("(> {s} 0.0)"),
                    (None, 3) => format!("(<= {s} 0.0)"),
                    (None, 6) => format!("(>= {s} 0.0)"),
                    (None, 5) => format!("(not (= {s} 0.0))"),
                    (Some(g), NEG) | (Some(g), 3) => format!("(<= {s} (- {g}))"),
                    (Some(g), POS) | (Some(g), 6) => format!("(>= {s} {g})"),
                    (Some(g), 5) => format!("(or (<= {s} (- {g})) (>= {s} {g}))"),
                    _ => unreachable!(),
                }
            }
            B::And(v) => {
                let t: Vec<String> = v.iter().map(|b| self.form(b, gap, lem)).collect();
                format!("(and {})", t.join(" "))
            }
            B::Or(v) => {
                let t: Vec<String> = v.iter().map(|b| self.form(b, gap, lem)).collect();
                format!("(or {})", t.join(" "))
            }
        }
    }
}

fn around_exp(x: f64) -> (String, String) {
    let v = x.exp();
    let w = v * (1e-14 + x.abs() * 1e-15) + 1e-300;
    (Q::from_f64(v - w).smt(), Q::from_f64(v + w).smt())
}

fn around_ln(x: f64) -> (String, String) {
    let v = x.ln();
    let w = v.abs() * 1e-14 + 1e-15;
    (Q::from_f64(v - w).smt(), Q::from_f64(v + w).smt())
}

fn around(v: f64) -> (String, String) {
    let w = v.abs() * 1e-14 + 1e-300;
    (Q::from_f64(v - w).smt(), Q::from_f64(v + w).smt())
}

/// `asserts`: (formula, optional gap)
pub fn emit(asserts: &[(B, Option<String>)], lem: &[Lemma], level: u8) -> Text {
    let mut e = Em {
        decl: String::new(),
        ax: String::new(),
        order: vec![],
        seen: Default::default(),
        vals: BTreeMap::new(),
        facs: BTreeMap::new(),
        nonlinear: false,
        level,
    };
    let mut body = String::new();
    for (b, g) in asserts {
        let t = e.form(b, g.as_deref(), lem);
        if t != "true" {
            let _ = writeln!(body, "(assert {t})");
        }
    }
    if level >= 2 {
        // monotonicity between pairs of exp / ln atoms
        let order = e.order.clone();
        let exps: Vec<(u32, PId)> = order
            .iter()
            .filter_map(|&a| match atom(a) {
                Atom::Exp(p) => Some((a, p)),
                _ => None,
            })
            .collect();
        let lns: Vec<(u32, PId)> = order
            .iter()
            .filter_map(|&a| match atom(a) {
                Atom::Ln(p) => Some((a, p)),
                _ => None,
            })
            .collect();
        if level >= 3 && exps.len() <= 8 {
            // exp(x) exp(y) = exp(x + y)
            for i in 0..exps.len() {
                for j in i..exps.len() {
                    let s = get(exps[i].1).add_raw(&get(exps[j].1));
                    for k in 0..exps.len() {
                        if *get(exps[k].1) == s {
                            e.nonlinear = true;
                            let _ = writeln!(e.ax, "(assert (= v{} (* v{} v{})))", exps[k].0, exps[i].0, exps[j].0);
                        }
                    }
                }
            }
        }
        for set in [&exps, &lns] {
            if set.len() > 7 {
                continue;
            }
            for i in 0..set.len() {
                for j in i + 1..set.len() {
                    let (a, p) = set[i];
                    let (b, q) = set[j];
                    let (mut s, mut t) = (e.value(p, lem), e.value(q, lem));
                    if let (Some(x), Some(y)) = (e.facs.get(&p), e.facs.get(&q)) {
                        if x.0 == y.0 {
                            (s, t) = if x.1 { (x.2.clone(), y.2.clone()) } else { (y.2.clone(), x.2.clone()) };
                        }
                    }
                    let _ = writeln!(
                        e.ax,
                        "(assert (= (< {s} {t}) (< v{a} v{b})))\n(assert (= (> {s} {t}) (> v{a} v{b})))"
                    );
                }
            }
        }
    }
    let logic = if e.nonlinear { "QF_NRA" } else { "QF_LRA" };
    let vars: Vec<(u32, String)> = e
        .order
        .iter()
        .filter_map(|&a| match atom(a) {
            Atom::Var(n) => Some((a, n)),
            _ => None,
        })
        .collect();
    let s = format!("(set-logic {logic})\n{}{}{}", e.decl, e.ax, body);
    Text { s, vars }
}

pub struct Z3 {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    bin: String,
}

impl Z3 {
    pub fn new(bin: &str) -> Z3 {
        let mut child = Command::new(bin)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("symrt: cannot start {bin}: {e}"));
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Z3 { child, inp, out, bin: bin.into() }
    }
    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        *self = Z3::new(&self.bin.clone());
    }
    fn line(&mut self) -> Option<String> {
        let mut s = String::new();
        match self.out.read_line(&mut s) {
            Ok(0) | Err(_) => None,
            Ok(_) => Some(s.trim().to_string()),
        }
    }
    /// hard limits: solver resource timeout plus a watchdog kill
    pub fn check(&mut self, t: &Text, ms: u64, want_model: bool) -> Res {
        let start = Instant::now();
        let pid = self.child.id();
        let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let d2 = done.clone();
        // watchdog
        let limit = std::time::Duration::from_millis(ms * 2 + 3000);
        let wd = std::thread::spawn(move || {
            let s = Instant::now();
            while s.elapsed() < limit {
                if d2.load(Ordering::Relaxed) {
                    return;
                }
                std::thread::park_timeout(limit.saturating_sub(s.elapsed()));
            }
            if !d2.load(Ordering::Relaxed) {
                let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
            }
        });
        let r = self.check_inner(t, ms, want_model);
        done.store(true, Ordering::Relaxed);
        wd.thread().unpark();
        let _ = wd.join();
        SOLVER_US.fetch_add(start.elapsed().as_micros() as u64, Ordering::Relaxed);
        match r {
            Some(r) => r,
            None => {
                self.restart();
                Res::Unknown
            }
        }
    }
    fn check_inner(&mut self, t: &Text, ms: u64, want_model: bool) -> Option<Res> {
        let mut q = String::with_capacity(t.s.len() + 200);
        q.push_str("(reset)\n");
        let _ = writeln!(q, "(set-option :timeout {ms})");
        if want_model {
            q.push_str("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n");
        }
        q.push_str(&t.s);
        q.push_str("(check-sat)\n");
        self.inp.write_all(q.as_bytes()).ok()?;
        self.inp.flush().ok()?;
        let l = self.line()?;
        match l.as_str() {
            "unsat" => Some(Res::Unsat),
            "unknown" | "timeout" => Some(Res::Unknown),
            "sat" => {
                let mut m = BTreeMap::new();
                if want_model && !t.vars.is_empty() {
                    let names: Vec<String> = t.vars.iter().map(|(a, _)| format!("v{a}")).collect();
                    writeln!(self.inp, "(get-value ({}))\n(echo \"done\")", names.join(" ")).ok()?;
                    self.inp.flush().ok()?;
                    let mut txt = String::new();
                    loop {
                        let l = self.line()?;
                        if l == "done" || l == "\"done\"" {
                            break;
                        }
                        txt.push_str(&l);
                        txt.push(' ');
                    }
                    let vals = parse_values(&txt);
                    for (a, n) in &t.vars {
                        if let Some(v) = vals.get(&format!("v{a}")) {
                            m.insert(n.clone(), *v);
                        }
                    }
                }
                Some(Res::Sat(m))
            }
            other => {
                if std::env::var("SYM_DEBUG").is_ok() {
                    eprintln!("solver said: {other}\n{}", t.s);
                }
                // drain is impossible to do reliably: restart
                None
            }
        }
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Debug)]
enum Sx {
    A(String),
    L(Vec<Sx>),
}
fn parse_sx(s: &str) -> Option<Sx> {
    let mut stack: Vec<Vec<Sx>> = vec![vec![]];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | ')' | ' ' | '\n' | '\t' | '\r' => {
                if !cur.is_empty() {
                    stack.last_mut()?.push(Sx::A(std::mem::take(&mut cur)));
                }
                if c == '(' {
                    stack.push(vec![]);
                } else if c == ')' {
                    let l = stack.pop()?;
                    stack.last_mut()?.push(Sx::L(l));
                }
            }
            c => cur.push(c),
        }
    }
    stack.pop()?.into_iter().next()
}
fn sx_val(x: &Sx) -> Option<f64> {
    match x {
        Sx::A(s) => Q::parse(s).map(|q| q.to_f64()),
        Sx::L(v) => match v.as_slice() {
            [Sx::A(o), a] if o == "-" => Some(-sx_val(a)?),
            [Sx::A(o), a, b] if o == "/" => {
                if let (Sx::A(x), Sx::A(y)) = (a, b) {
                    if let (Some(x), Some(y)) = (Q::parse(x), Q::parse(y)) {
                        return Some(x.div(&y).to_f64());
                    }
                }
                Some(sx_val(a)? / sx_val(b)?)
            }
            _ => None,
        },
    }
}
pub fn parse_values(s: &str) -> BTreeMap<String, f64> {
    let mut r = BTreeMap::new();
    if let Some(Sx::L(v)) = parse_sx(s) {
        for e in v {
            if let Sx::L(p) = e {
                if let [Sx::A(n), x] = p.as_slice() {
                    if let Some(v) = sx_val(x) {
                        r.insert(n.clone(), v);
                    }
                }
            }
        }
    }
    r
}

/// one-shot cvc5 run, used when z3 gives up
pub fn cvc5(t: &Text, ms: u64) -> Res {
    let start = Instant::now();
    N_CVC5.fetch_add(1, Ordering::Relaxed);
    let r = (|| -> Option<Res> {
        let mut c = Command::new("cvc5")
            .args(["--lang", "smt2", "--produce-models", &format!("--tlimit={ms}"), "-"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        {
            let mut i = c.stdin.take()?;
            let _ = i.write_all(t.s.as_bytes());
            let _ = i.write_all(b"(check-sat)\n");
        }
        let o = c.wait_with_output().ok()?;
        let s = String::from_utf8_lossy(&o.stdout);
        if s.contains("error") {
            return Some(Res::Unknown);
        }
        Some(match s.trim() {
            "unsat" => Res::Unsat,
            _ => Res::Unknown,
        })
    })()
    .unwrap_or(Res::Unknown);
    SOLVER_US.fetch_add(start.elapsed().as_micros() as u64, Ordering::Relaxed);
    r
}
