//! The harness API, native variant: replays one counterexample (or one
//! trace) of the symbolic run on the real code compiled for real f64.
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const SYMBOLIC: bool = false;

/// three valued: could it be true / could it be false, within the tolerance
#[derive(Clone, Copy, Debug)]
pub struct B {
    t: bool,
    f: bool,
}
impl From<bool> for B {
    fn from(b: bool) -> B {
        B { t: b, f: !b }
    }
}

#[derive(Default)]
struct St {
    inputs: HashMap<String, f64>,
    names: HashMap<String, u32>,
    choices: Vec<u64>,
    pos: usize,
    failed: Vec<String>,
    reached: Vec<String>,
    obs: Vec<(String, f64)>,
    tol: f64,
    missing: u32,
    stop: Option<String>,
}
thread_local! { static S: RefCell<St> = RefCell::new(St::default()); }
struct Quit;

fn quit(why: &str) -> ! {
    S.with(|s| s.borrow_mut().stop = Some(why.to_string()));
    std::panic::resume_unwind(Box::new(Quit))
}
fn tol(a: f64, b: f64) -> f64 {
    S.with(|s| s.borrow().tol) * a.abs().max(b.abs()).max(1.0)
}

pub fn any(name: &str) -> f64 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let k = s.names.entry(name.to_string()).or_insert(0);
        *k += 1;
        let n = if *k == 1 { name.to_string() } else { format!("{name}#{k}") };
        match s.inputs.get(&n) {
            Some(v) => *v,
            None => {
                s.missing += 1;
                0.0
            }
        }
    })
}
pub fn any_in(name: &str, lo: f64, hi: f64, _strict_lo: bool, _strict_hi: bool) -> f64 {
    let x = any(name);
    if x < lo {
        return lo;
    }
    if x > hi {
        return hi;
    }
    x
}
pub fn choose(_label: &str, n: usize) -> usize {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.pos;
        s.pos += 1;
        match s.choices.get(p) {
            Some(c) => (*c as usize).min(n - 1),
            None => {
                s.missing += 1;
                0
            }
        }
    })
}
pub fn assume(b: impl Into<B>) {
    if !b.into().t {
        quit("assumption does not hold")
    }
}
pub fn assume_fast(b: impl Into<B>) {
    assume(b)
}
pub fn check(label: &str, b: impl Into<B>) {
    let b = b.into();
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.reached.push(label.to_string());
        if !b.t {
            s.failed.push(label.to_string());
        }
    })
}
pub fn cover(_label: &str) {}
pub fn observe(name: &str, v: f64) {
    S.with(|s| s.borrow_mut().obs.push((name.to_string(), v)));
}
pub fn prune(why: &str) -> ! {
    quit(why)
}
pub fn finish() -> ! {
    quit("finished")
}
pub fn model(_text: &str) {}
pub fn set_tol(t: f64) {
    S.with(|s| s.borrow_mut().tol = t)
}
pub fn branch(b: impl Into<B>) -> bool {
    b.into().t
}
fn cmp3(a: f64, b: f64) -> (bool, bool, bool) {
    // may be <, =, >
    if a.is_nan() || b.is_nan() {
        return (false, false, false);
    }
    if a.is_infinite() || b.is_infinite() {
        return (a < b, a == b, a > b);
    }
    let t = tol(a, b);
    (a < b + t, (a - b).abs() <= t, a > b - t)
}
pub fn lt(a: impl Into<f64>, b: impl Into<f64>) -> B {
    let (l, e, g) = cmp3(a.into(), b.into());
    B { t: l, f: e || g || !l }
}
pub fn le(a: impl Into<f64>, b: impl Into<f64>) -> B {
    let (l, e, g) = cmp3(a.into(), b.into());
    B { t: l || e, f: g || !(l || e) }
}
pub fn gt(a: impl Into<f64>, b: impl Into<f64>) -> B {
    lt(b, a)
}
pub fn ge(a: impl Into<f64>, b: impl Into<f64>) -> B {
    le(b, a)
}
pub fn eq(a: impl Into<f64>, b: impl Into<f64>) -> B {
    let (l, e, g) = cmp3(a.into(), b.into());
    B { t: e, f: l || g || !e }
}
pub fn ne(a: impl Into<f64>, b: impl Into<f64>) -> B {
    not(eq(a, b))
}
pub fn and(v: Vec<B>) -> B {
    B { t: v.iter().all(|b| b.t), f: v.iter().any(|b| b.f) }
}
pub fn or(v: Vec<B>) -> B {
    B { t: v.iter().any(|b| b.t), f: v.iter().all(|b| b.f) }
}
pub fn not(b: impl Into<B>) -> B {
    let b = b.into();
    B { t: b.f, f: b.t }
}
pub fn implies(a: impl Into<B>, b: impl Into<B>) -> B {
    or(vec![not(a), b.into()])
}
pub fn iff(a: impl Into<B>, b: impl Into<B>) -> B {
    let (a, b) = (a.into(), b.into());
    and(vec![implies(a, b), implies(b, a)])
}
pub fn close(a: impl Into<f64>, b: impl Into<f64>, t: impl Into<f64>) -> B {
    let d = a.into() - b.into();
    let t = t.into();
    and(vec![le(d, t), ge(d, -t)])
}
pub fn is_finite(a: f64) -> bool {
    a.is_finite()
}
pub fn catching<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            if e.is::<Quit>() {
                std::panic::resume_unwind(e)
            }
            None
        }
    }
}
/// time passes (in microseconds)
pub fn pass_time(micros: u64) {
    std::thread::sleep(std::time::Duration::from_micros(micros))
}
pub fn reset_clock() {}
pub fn scratch_dir() -> std::path::PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let d = std::path::PathBuf::from(base).join(format!(
        "symscratch-{}-{}",
        std::process::id(),
        N.fetch_add(1, Ordering::Relaxed)
    ));
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub type Reg = Vec<(String, std::sync::Arc<dyn Fn() + Send + Sync>)>;

/// replay binary: PROP TIER IN.json OUT.json [INDEX]
pub fn main_with(reg: impl Fn(&str, &str) -> Reg) {
    let a: Vec<String> = std::env::args().collect();
    let jobs = reg(&a[1], &a[2]);
    let c: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[3]).unwrap()).unwrap();
    let list = match c.as_array() {
        Some(v) => v.clone(),
        None => vec![c],
    };
    let idx: Option<usize> = a.get(5).and_then(|s| s.parse().ok());
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST.lock().unwrap() = format!("{msg} at {l}");
    }));
    let mut out = vec![];
    for (k, c) in list.iter().enumerate() {
        if idx.map(|i| i != k).unwrap_or(false) {
            continue;
        }
        let job = c["job"].as_str().unwrap();
        let f = match jobs.iter().find(|j| j.0 == job) {
            Some(j) => j.1.clone(),
            None => {
                out.push(serde_json::json!({"error": format!("no job {job}")}));
                continue;
            }
        };
        S.with(|s| {
            let mut s = s.borrow_mut();
            *s = St::default();
            s.tol = 1e-6;
            for (k, v) in c["inputs"].as_object().unwrap() {
                s.inputs.insert(k.clone(), v.as_f64().unwrap_or(0.0));
            }
            s.choices = c["choices"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect();
        });
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        let mut panicked = serde_json::Value::Null;
        if let Err(e) = r {
            if !e.is::<Quit>() {
                panicked = serde_json::json!(LAST.lock().unwrap().clone());
            }
        }
        S.with(|s| {
            let s = s.borrow();
            let obs: Vec<_> = s
                .obs
                .iter()
                .map(|(n, v)| {
                    let v = if v.is_finite() { serde_json::json!(v) } else { serde_json::json!(format!("{v}")) };
                    serde_json::json!([n, v])
                })
                .collect();
            out.push(serde_json::json!({
                "job": job, "failed": s.failed, "reached": s.reached, "panicked": panicked,
                "stop": s.stop, "missing": s.missing, "obs": obs,
            }));
        });
        std::fs::write(&a[4], serde_json::to_string_pretty(&out).unwrap()).unwrap();
    }
}
static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn max_solves(_n: usize) {}
pub fn solver_error(_e: Option<f64>) {}
pub fn is_constant(_x: f64) -> bool {
    true
}

thread_local! {
    static DRAW: std::cell::Cell<Option<f64>> = const { std::cell::Cell::new(None) };
}
pub fn fix_draws(v: Option<f64>) {
    DRAW.with(|c| c.set(v))
}
pub fn fixed_draw() -> Option<f64> {
    DRAW.with(|c| c.get())
}

thread_local! {
    static NORMALS: std::cell::RefCell<(Vec<f64>, usize)> = const { std::cell::RefCell::new((vec![], 0)) };
}
/// the next draws from normal distributions (bound of a job)
pub fn queue_normals(v: Vec<f64>) {
    NORMALS.with(|c| *c.borrow_mut() = (v, 0))
}
pub fn queued_normal() -> Option<f64> {
    NORMALS.with(|c| {
        let mut c = c.borrow_mut();
        c.1 += 1;
        let k = c.1 - 1;
        c.0.get(k).copied()
    })
}
