//! The harness API, symbolic variant: inputs are solver variables, checks are
//! verification conditions.
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use symrt::engine::{self, Abort, Candidate, Job, Opts};
use symrt::form::{self, NEG, POS, ZERO};
use symrt::smt;
use symrt::Sym;

pub const SYMBOLIC: bool = true;

#[derive(Clone, Debug)]
pub struct B(form::B);
impl From<bool> for B {
    fn from(b: bool) -> B {
        B(form::B::from(b))
    }
}

pub fn any(name: &str) -> Sym {
    Sym::from_poly(engine::fresh(name))
}
pub fn any_in(name: &str, lo: impl Into<Sym>, hi: impl Into<Sym>, strict_lo: bool, strict_hi: bool) -> Sym {
    let x = any(name);
    let (lo, hi) = (lo.into(), hi.into());
    engine::assume_fast(x.rel(lo, if strict_lo { POS } else { POS | ZERO }));
    engine::assume_fast(x.rel(hi, if strict_hi { NEG } else { NEG | ZERO }));
    x
}
pub fn choose(_label: &str, n: usize) -> usize {
    engine::choose(n)
}
pub fn assume(b: impl Into<B>) {
    engine::assume(b.into().0)
}
/// assume without asking the solver whether it is consistent with the rest
pub fn assume_fast(b: impl Into<B>) {
    engine::assume_fast(b.into().0)
}
pub fn check(label: &str, b: impl Into<B>) {
    engine::check(label, b.into().0)
}
pub fn cover(label: &str) {
    engine::cover(label)
}
pub fn observe(name: &str, v: Sym) {
    engine::observe(name, v.obs())
}
pub fn prune(why: &str) -> ! {
    engine::prune(why)
}
/// the path has shown everything it is meant to show
pub fn finish() -> ! {
    engine::finish()
}
pub fn model(text: &str) {
    engine::used_model(text)
}
pub fn set_tol(_t: Sym) {}
thread_local! {
    static SOLVES: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
/// paths on which a modelled solver is called more often than this are outside
/// of the bounds of the job
pub fn max_solves(n: usize) {
    SOLVES.with(|c| c.set(n))
}
pub fn count_solve() {
    SOLVES.with(|c| {
        if c.get() == 0 {
            prune("more calls of the optimizer than the stated number")
        }
        c.set(c.get() - 1)
    })
}
/// no input variable occurs in the value
pub fn is_constant(x: Sym) -> bool {
    match x.poly() {
        Some(p) => p.as_const().is_some() || symrt::poly::enclosure(&p).is_some(),
        None => false,
    }
}
pub fn branch(b: impl Into<B>) -> bool {
    engine::decide(&b.into().0)
}
pub fn lt(a: impl Into<Sym>, b: impl Into<Sym>) -> B {
    B(a.into().rel(b.into(), NEG))
}
pub fn le(a: impl Into<Sym>, b: impl Into<Sym>) -> B {
    B(a.into().rel(b.into(), NEG | ZERO))
}
pub fn gt(a: impl Into<Sym>, b: impl Into<Sym>) -> B {
    B(a.into().rel(b.into(), POS))
}
pub fn ge(a: impl Into<Sym>, b: impl Into<Sym>) -> B {
    B(a.into().rel(b.into(), POS | ZERO))
}
pub fn eq(a: impl Into<Sym>, b: impl Into<Sym>) -> B {
    let (a, b) = (a.into(), b.into());
    B(a.rel(b, ZERO))
}
pub fn ne(a: impl Into<Sym>, b: impl Into<Sym>) -> B {
    let (a, b) = (a.into(), b.into());
    B(a.rel(b, POS | NEG))
}
pub fn and(v: Vec<B>) -> B {
    B(form::B::and(v.into_iter().map(|b| b.0).collect()))
}
pub fn or(v: Vec<B>) -> B {
    B(form::B::or(v.into_iter().map(|b| b.0).collect()))
}
pub fn not(b: impl Into<B>) -> B {
    B(b.into().0.not())
}
pub fn implies(a: impl Into<B>, b: impl Into<B>) -> B {
    or(vec![not(a), b.into()])
}
pub fn iff(a: impl Into<B>, b: impl Into<B>) -> B {
    let (a, b) = (a.into(), b.into());
    and(vec![implies(a.clone(), b.clone()), implies(b, a)])
}
/// |a - b| <= t
pub fn close(a: impl Into<Sym>, b: impl Into<Sym>, t: impl Into<Sym>) -> B {
    let d = a.into() - b.into();
    let t = t.into();
    and(vec![le(d, t), ge(d, -t)])
}
pub fn is_finite(a: Sym) -> bool {
    a.is_finite()
}
/// run code that may panic; `None` if it did
pub fn catching<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            if e.is::<Abort>() {
                resume_unwind(e)
            }
            let t = engine::with(|c| c.panic_text());
            if t.contains("symrt") {
                resume_unwind(e)
            }
            None
        }
    }
}
/// time passes (in microseconds)
pub fn pass_time(micros: u64) {
    symrt::time::pass(std::time::Duration::from_micros(micros))
}
pub fn reset_clock() {
    symrt::time::reset_clock()
}
pub fn scratch_dir() -> std::path::PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let d = std::path::PathBuf::from(base).join(format!(
        "symscratch-{}-{}",
        std::process::id(),
        N.fetch_add(1, Ordering::Relaxed)
    ));
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub type Reg = Vec<(String, std::sync::Arc<dyn Fn() + Send + Sync>)>;

fn cand_json(c: &Candidate) -> serde_json::Value {
    let num = |v: f64| {
        if v.is_finite() {
            serde_json::json!(v)
        } else {
            serde_json::json!(format!("{v}"))
        }
    };
    let obs: Vec<_> = c.obs.iter().map(|(n, v)| serde_json::json!([n, num(*v)])).collect();
    serde_json::json!({
        "job": c.job, "label": c.label, "validated": c.validated, "inputs": c.inputs,
        "choices": c.choices, "obs": obs, "note": c.note,
    })
}

/// entry point of the symbolic checker
pub fn main_with(reg: impl Fn(&str, &str) -> Reg) {
    let a: Vec<String> = std::env::args().collect();
    let (prop, tier, out) = (&a[1], &a[2], &a[3]);
    let mut jobs: Vec<Job> = reg(prop, tier).into_iter().map(|(name, f)| Job { name, f }).collect();
    if let Ok(pat) = std::env::var("SYM_ONLY") {
        jobs.retain(|j| j.name.contains(&pat));
    }
    let env = |n: &str, d: u64| std::env::var(n).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let thorough = tier == "thorough";
    let opts = Opts {
        threads: env("SYM_THREADS", 8) as usize,
        feas_ms: env("SYM_FEAS_MS", if thorough { 4000 } else { 700 }),
        check_ms: env("SYM_CHECK_MS", if thorough { 20000 } else { 4000 }),
        cvc5_ms: env("SYM_CVC5_MS", if thorough { 20000 } else { 4000 }),
        deadline_s: env("SYM_DEADLINE_S", if thorough { 3600 } else { 500 }),
        path_s: env("SYM_PATH_S", if thorough { 1200 } else { 100 }),
        max_paths: env("SYM_MAX_PATHS", if thorough { 400000 } else { 40000 }),
        ..Opts::default()
    };
    let njobs = jobs.len();
    let t0 = std::time::Instant::now();
    let r = engine::explore(jobs, opts);
    let wall = t0.elapsed().as_secs_f64();
    if std::env::var("SYM_TRACE").is_ok() {
        eprintln!("most work and terms on a path: {:?}", symrt::poly::WORST);
    }
    use std::sync::atomic::Ordering::Relaxed;
    let mut js = serde_json::Map::new();
    for (k, s) in &r.jobs {
        js.insert(
            k.clone(),
            serde_json::json!({
                "paths": s.paths, "done": s.done, "pruned": s.pruned, "infeasible": s.infeasible,
                "panics": s.panics, "decisions": s.decisions, "checks": s.checks, "trivial": s.trivial,
                "discharged": s.discharged, "undecided": s.undecided, "violated": s.violated,
                "unexplored": s.unexplored, "unsupported": s.unsupported,
            }),
        );
    }
    let mut ls = serde_json::Map::new();
    for (k, l) in &r.labels {
        ls.insert(
            k.clone(),
            serde_json::json!({"reached": l.reached, "proved": l.proved, "trivial": l.trivial,
                "violated": l.violated, "undecided": l.undecided}),
        );
    }
    let v = serde_json::json!({
        "njobs": njobs, "jobs": js, "labels": ls, "covers": r.covers,
        "cands": r.cands.iter().map(cand_json).collect::<Vec<_>>(),
        "traces": r.traces.iter().map(cand_json).collect::<Vec<_>>(),
        "fns": r.fns, "prunes": r.prunes, "unsupported": r.unsupported, "models": r.models,
        "queries": smt::QUERIES.load(Relaxed), "sat": smt::N_SAT.load(Relaxed),
        "unsat": smt::N_UNSAT.load(Relaxed), "unknown": smt::N_UNKNOWN.load(Relaxed),
        "cvc5": smt::N_CVC5.load(Relaxed), "solver_s": smt::SOLVER_US.load(Relaxed) as f64 / 1e6,
        "wall_s": wall,
    });
    std::fs::write(out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
}
pub fn show(s: Sym) -> String { symrt::sym::show(s) }

thread_local! {
    static DRAW: std::cell::Cell<Option<Sym>> = const { std::cell::Cell::new(None) };
}
thread_local! {
    static SOLVER_ERROR: std::cell::Cell<Option<Sym>> = const { std::cell::Cell::new(None) };
}
/// solutions of linear programs are off by a relative error of up to `e`
pub fn solver_error(e: Option<Sym>) {
    SOLVER_ERROR.with(|c| c.set(e))
}
pub fn solver_error_bound() -> Option<Sym> {
    SOLVER_ERROR.with(|c| c.get())
}
/// every draw from the unit interval has this value (bound of a job)
pub fn fix_draws(v: Option<Sym>) {
    DRAW.with(|c| c.set(v))
}
pub fn fixed_draw() -> Option<Sym> {
    DRAW.with(|c| c.get())
}

thread_local! {
    static NORMALS: std::cell::RefCell<(Vec<Sym>, usize)> = const { std::cell::RefCell::new((vec![], 0)) };
}
/// the next draws from normal distributions (bound of a job)
pub fn queue_normals(v: Vec<Sym>) {
    NORMALS.with(|c| *c.borrow_mut() = (v, 0))
}
pub fn queued_normal() -> Option<Sym> {
    NORMALS.with(|c| {
        let mut c = c.borrow_mut();
        c.1 += 1;
        let k = c.1 - 1;
        c.0.get(k).copied()
    })
}
