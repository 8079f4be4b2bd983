//! Path exploration by re-execution, feasibility and verification queries.
use crate::form::*;
use crate::poly::*;
use crate::rat::Q;
use crate::smt::{self, Lemma, Res, Z3};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dec {
    pub c: u32,
    pub pay: i64,
    pub forced: bool,
}

#[derive(Debug)]
pub enum Abort {
    /// outside the stated bound
    Prune(String),
    Infeasible,
    Unsupported(String),
    Budget,
    /// path ended after a violated check
    Stop,
    /// far more calls than any terminating run of the stated size makes
    Hang,
}

pub type JobFn = std::sync::Arc<dyn Fn() + Send + Sync>;

#[derive(Clone)]
pub struct Job {
    pub name: String,
    pub f: JobFn,
}

struct Task {
    job: usize,
    prefix: Vec<Dec>,
}

#[derive(Default, Clone)]
pub struct JobStat {
    pub paths: u64,
    pub done: u64,
    pub pruned: u64,
    pub infeasible: u64,
    pub panics: u64,
    pub decisions: u64,
    pub checks: u64,
    pub trivial: u64,
    pub discharged: u64,
    pub undecided: u64,
    pub violated: u64,
    pub unexplored: u64,
    pub unsupported: u64,
}

#[derive(Default, Clone)]
pub struct LabelStat {
    pub reached: u64,
    pub proved: u64,
    pub trivial: u64,
    pub violated: u64,
    pub undecided: u64,
}

#[derive(Clone, Debug)]
pub struct Candidate {
    pub job: String,
    pub label: String,
    pub validated: bool,
    pub inputs: BTreeMap<String, f64>,
    pub choices: Vec<u64>,
    pub obs: Vec<(String, f64)>,
    pub note: String,
}

#[derive(Default)]
pub struct Results {
    pub jobs: BTreeMap<String, JobStat>,
    pub labels: BTreeMap<String, LabelStat>,
    pub covers: BTreeMap<String, u64>,
    pub cands: Vec<Candidate>,
    pub traces: Vec<Candidate>,
    pub fns: BTreeSet<&'static str>,
    pub prunes: BTreeMap<String, u64>,
    pub unsupported: BTreeSet<String>,
    pub models: BTreeSet<String>,
}

pub struct Opts {
    pub threads: usize,
    pub feas_ms: u64,
    pub check_ms: u64,
    pub cvc5_ms: u64,
    pub max_paths: u64,
    pub max_decisions: usize,
    pub deadline_s: u64,
    pub path_s: u64,
    pub traces_per_job: usize,
    pub max_cands_per_label: u64,
}
impl Default for Opts {
    fn default() -> Opts {
        Opts {
            threads: 8,
            feas_ms: 1500,
            check_ms: 6000,
            cvc5_ms: 6000,
            max_paths: 20000,
            max_decisions: 6000,
            deadline_s: 600,
            path_s: 100,
            traces_per_job: 2,
            max_cands_per_label: 6,
        }
    }
}

struct Queue {
    /// one stack of unexplored paths per job
    tasks: Vec<Vec<Task>>,
    /// time spent on each job and paths of it under way: the next path is
    /// taken from the job which had the least so far
    spent_us: Vec<u64>,
    running: Vec<u64>,
    active: usize,
}
impl Queue {
    fn pop(&mut self) -> Option<Task> {
        let k = (0..self.tasks.len())
            .filter(|k| !self.tasks[*k].is_empty())
            .min_by_key(|k| self.spent_us[*k] + 100_000 * self.running[*k])?;
        self.running[k] += 1;
        self.tasks[k].pop()
    }
}

struct Shared {
    q: Mutex<Queue>,
    cv: Condvar,
    res: Mutex<Results>,
    opts: Opts,
    jobs: Vec<Job>,
    start: Instant,
}

pub struct Ctx {
    prefix: Vec<Dec>,
    pos: usize,
    trace: Vec<Dec>,
    pub pc: Vec<B>,
    facts: HashMap<PId, u8>,
    model: Option<BTreeMap<String, f64>>,
    pub inputs: Vec<String>,
    pub choices: Vec<u64>,
    names: HashMap<String, u32>,
    fns: BTreeSet<&'static str>,
    obs: Vec<(String, ObsVal)>,
    solver: Option<Z3>,
    cache: HashMap<String, Res>,
    job: usize,
    jobname: String,
    stat: JobStat,
    labels: BTreeMap<String, LabelStat>,
    covers: BTreeMap<String, u64>,
    shared: Option<&'static Shared>,
    new_tasks: Vec<Vec<Dec>>,
    queries_off: bool,
    panic_msg: Option<String>,
    calls: u64,
    hung: bool,
    trivial_run: bool,
}

#[derive(Clone)]
pub enum ObsVal {
    P(PId),
    C(f64),
}

impl Default for Ctx {
    fn default() -> Self {
        Ctx {
            prefix: vec![],
            pos: 0,
            trace: vec![],
            pc: vec![],
            facts: HashMap::new(),
            model: None,
            inputs: vec![],
            choices: vec![],
            names: HashMap::new(),
            fns: BTreeSet::new(),
            obs: vec![],
            solver: None,
            cache: HashMap::new(),
            job: 0,
            jobname: String::new(),
            stat: JobStat::default(),
            labels: BTreeMap::new(),
            covers: BTreeMap::new(),
            shared: None,
            new_tasks: vec![],
            queries_off: false,
            panic_msg: None,
            calls: 0,
            hung: false,
            trivial_run: false,
        }
    }
}

thread_local! {
    static C: RefCell<Ctx> = RefCell::new(Ctx::default());
}

impl Ctx {
    pub fn panic_text(&mut self) -> String {
        self.panic_msg.take().unwrap_or_default()
    }
}

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    C.with(|c| f(&mut c.borrow_mut()))
}

pub fn abort(a: Abort) -> ! {
    std::panic::resume_unwind(Box::new(a))
}

pub fn enter(name: &'static str) {
    // the hot path of every transformed function
    C.with(|c| {
        if let Ok(mut c) = c.try_borrow_mut() {
            c.fns.insert(name);
            c.calls += 1;
            if c.calls > 1_500_000 && !c.hung {
                c.hung = true;
                drop(c);
                abort(Abort::Hang);
            }
        }
    });
}

/// names of environment models (stubs) that took part
pub fn used_model(name: &str) {
    let sh = with(|c| c.shared);
    if let Some(s) = sh {
        s.res.lock().unwrap().models.insert(name.to_string());
    }
}

// ------------------------------------------------------------------ signs --

fn atom_mask(c: &Ctx, a: u32) -> u8 {
    match atom(a) {
        Atom::Exp(_) | Atom::Root(..) => POS,
        Atom::Den(p) => sign_mask(c, &get(p)) & !ZERO,
        Atom::Var(_) | Atom::Ln(_) => {
            let p = intern(Poly::atom(a));
            c.facts.get(&p).copied().unwrap_or(7)
        }
    }
}
fn flip(m: u8) -> u8 {
    (m & ZERO) | ((m & NEG) << 2) | ((m & POS) >> 2)
}
fn mul_mask(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for (x, sx) in [(NEG, -1), (ZERO, 0), (POS, 1)] {
        if a & x == 0 {
            continue;
        }
        for (y, sy) in [(NEG, -1), (ZERO, 0), (POS, 1)] {
            if b & y == 0 {
                continue;
            }
            r |= match sx * sy {
                -1 => NEG,
                0 => ZERO,
                _ => POS,
            };
        }
    }
    r
}
fn mono_mask(c: &Ctx, m: &Mono) -> u8 {
    let mut r = POS;
    for &(a, e) in m {
        let s = atom_mask(c, a);
        let s = if e % 2 == 0 {
            let mut t = 0;
            if s & (NEG | POS) != 0 {
                t |= POS;
            }
            if s & ZERO != 0 && e > 0 {
                t |= ZERO;
            }
            t
        } else if e < 0 {
            s & !ZERO
        } else {
            s
        };
        r = mul_mask(r, s);
    }
    r
}
/// possible signs known without the solver
pub fn sign_mask(c: &Ctx, p: &Poly) -> u8 {
    if let Some(q) = p.as_const() {
        return match q.sign() {
            0 => ZERO,
            x if x < 0 => NEG,
            _ => POS,
        };
    }
    let mut out = 7u8;
    // facts about the polynomial itself (canonical scaling)
    let (np, fl) = canon(p);
    if let Some(&m) = c.facts.get(&intern(np)) {
        out &= if fl { flip(m) } else { m };
    }
    // sum of signs
    let mut lo = false; // some term may be negative
    let mut hi = false;
    let mut strict_pos = false;
    let mut strict_neg = false;
    for (m, q) in &p.t {
        let mut s = mono_mask(c, m);
        if q.sign() < 0 {
            s = flip(s);
        }
        if s & NEG != 0 {
            lo = true;
        }
        if s & POS != 0 {
            hi = true;
        }
        if s == POS {
            strict_pos = true;
        }
        if s == NEG {
            strict_neg = true;
        }
    }
    let mut m = 7u8;
    if !lo {
        m &= !NEG;
        if strict_pos {
            m &= !ZERO;
        }
    }
    if !hi {
        m &= !POS;
        if strict_neg {
            m &= !ZERO;
        }
    }
    let r = out & m;
    if r == 0 {
        out
    } else {
        r
    }
}

/// scale by a positive rational / flip so that the leading coefficient is 1
fn canon(p: &Poly) -> (Poly, bool) {
    let lc = p.t[0].1.clone();
    let fl = lc.sign() < 0;
    (p.scale(&lc.inv()), fl)
}

fn small_coef(q: &Q) -> Option<(i32, u32)> {
    match q.small() {
        Some((n, d)) if n.abs() <= 8 && d <= 6 => Some((n as i32, d as u32)),
        _ => None,
    }
}

// ------------------------------------------------- transcendental algebra --

pub fn ln_const(q: &Q) -> Poly {
    if q.is_one() {
        return Poly::zero();
    }
    if let Some((n, d)) = q.small() {
        if n <= 1_000_000_000 && d <= 1_000_000_000 {
            let mut r = Poly::zero();
            for (v, s) in [(n, 1i128), (d, -1)] {
                let mut v = v;
                let mut f = 2i128;
                while f * f <= v {
                    let mut k = 0;
                    while v % f == 0 {
                        v /= f;
                        k += 1;
                    }
                    if k > 0 {
                        let a = atom_id(Atom::Ln(intern(Poly::int(f))));
                        r = r.add(&Poly::atom(a).scale(&Q::int(s * k)));
                    }
                    f += 1;
                }
                if v > 1 {
                    let a = atom_id(Atom::Ln(intern(Poly::int(v))));
                    r = r.add(&Poly::atom(a).scale(&Q::int(s)));
                }
            }
            return r;
        }
    }
    Poly::atom(atom_id(Atom::Ln(intern(Poly::c(q.clone())))))
}

fn known_pos_atom(a: u32) -> bool {
    if with(|c| atom_mask(c, a)) == POS {
        return true;
    }
    let p = match atom(a) {
        Atom::Den(p) => (*get(p)).clone(),
        _ => Poly::atom(a),
    };
    ask_pos(&p)
}

fn ln_atom(a: u32) -> Poly {
    match atom(a) {
        Atom::Exp(p) => (*get(p)).clone(),
        Atom::Root(q, p) => ln_poly(&get(p)).scale(&Q::new(1, q as i128)),
        Atom::Den(p) => ln_poly(&get(p)),
        _ => Poly::atom(atom_id(Atom::Ln(intern(Poly::atom(a))))),
    }
}

/// ln of a polynomial known to be positive
pub fn ln_poly(x: &Poly) -> Poly {
    if let Some(q) = x.as_const() {
        return ln_const(&q);
    }
    let (num, den) = x.clear();
    let mut r = Poly::zero();
    let mut num = num;
    for &(a, k) in &den {
        if known_pos_atom(a) {
            r = r.sub(&ln_atom(a).scale(&Q::int(k as i128)));
        } else {
            num = num.mul(&Poly::mono(vec![(a, -k)]));
        }
    }
    // positive common factors
    let c: Mono = num.content().into_iter().filter(|&(a, e)| e > 0 && known_pos_atom(a)).collect();
    for &(a, e) in &c {
        r = r.add(&ln_atom(a).scale(&Q::int(e as i128)));
    }
    let ic: Mono = c.iter().map(|&(a, e)| (a, -e)).collect();
    let num = num.mul_nored(&Poly::mono(ic));
    if let Some(q) = num.as_const() {
        return r.add(&ln_const(&q));
    }
    let lc = num.t[0].1.abs();
    let r = r.add(&ln_const(&lc));
    let body = num.scale(&lc.inv());
    r.add(&Poly::atom(atom_id(Atom::Ln(intern(body)))))
}

fn int_root(v: i128, k: u32) -> Option<i128> {
    if v < 0 {
        return None;
    }
    let g = (v as f64).powf(1.0 / k as f64).round() as i128;
    for c in [g - 1, g, g + 1] {
        if c >= 0 && c.checked_pow(k) == Some(v) {
            return Some(c);
        }
    }
    None
}

/// k-th root of a polynomial known to be positive
pub fn root_poly(k: u32, x: &Poly) -> Poly {
    if k == 1 {
        return x.clone();
    }
    if let Some(q) = x.as_const() {
        if let Some((n, d)) = q.small() {
            if let (Some(a), Some(b)) = (int_root(n, k), int_root(d, k)) {
                return Poly::c(Q::new(a, b));
            }
            // sqrt(n/d) = sqrt(n*d)/d
            if d > 1 && k == 2 {
                if let Some(nd) = n.checked_mul(d) {
                    return root_poly(2, &Poly::int(nd)).scale(&Q::new(1, d));
                }
            }
        }
        return Poly::atom(atom_id(Atom::Root(k, intern(x.clone()))));
    }
    let (num, den) = x.clear();
    let mut num = num;
    let mut out = Poly::int(1);
    for &(a, e) in &den {
        if known_pos_atom(a) {
            // 1/a^e = a^(k*ceil - e) / (a^ceil)^k
            let up = (e + k as i32 - 1) / k as i32;
            out = out.mul(&Poly::mono(vec![(a, -up)]));
            num = num.mul_nored(&Poly::mono(vec![(a, up * k as i32 - e)]));
        } else {
            num = num.mul(&Poly::mono(vec![(a, -e)]));
        }
    }
    let mut pull: Mono = vec![];
    for (a, e) in num.content() {
        if e >= k as i32 && known_pos_atom(a) {
            pull.push((a, e / k as i32));
        }
    }
    let ic: Mono = pull.iter().map(|&(a, e)| (a, -e * k as i32)).collect();
    let num = num.mul_nored(&Poly::mono(ic));
    out = out.mul(&Poly::mono(pull));
    if num.as_const().is_some() {
        return out.mul(&root_poly(k, &num));
    }
    // single Exp monomials
    if num.t.len() == 1 && num.t[0].0.len() == 1 {
        let (a, e) = num.t[0].0[0];
        if let Atom::Exp(p) = atom(a) {
            let arg = get(p).scale(&Q::new(e as i128, k as i128));
            return out.mul(&exp_poly(&arg)).mul(&root_poly(k, &Poly::c(num.t[0].1.clone())));
        }
        if let Atom::Root(j, p) = atom(a) {
            if e == 1 && num.t[0].1.is_one() {
                return out.mul(&root_poly(j * k, &get(p)));
            }
        }
    }
    let mut body = num;
    let lc = body.t[0].1.abs();
    if let Some((n, d)) = lc.small() {
        if let (Some(a), Some(b)) = (int_root(n, k), int_root(d, k)) {
            body = body.scale(&lc.inv());
            out = out.scale(&Q::new(a, b));
        }
    }
    out.mul(&Poly::atom(atom_id(Atom::Root(k, intern(body)))))
}

pub fn exp_poly(p: &Poly) -> Poly {
    let mut r = Poly::int(1);
    for (m, q) in &p.t {
        if m.is_empty() {
            let a = atom_id(Atom::Exp(intern(Poly::c(q.abs()))));
            r = r.mul(&Poly::mono(vec![(a, q.sign())]));
            continue;
        }
        if m.len() == 1 && m[0].1 == 1 {
            if let (Atom::Ln(x), Some((n, d))) = (atom(m[0].0), small_coef(q)) {
                let x = get(x);
                r = r.mul(&root_poly(d, &x).pow(n));
                continue;
            }
        }
        let (n, inner) = match small_coef(q) {
            Some((n, d)) => (n, Q::new(1, d as i128)),
            None => (q.sign(), q.abs()),
        };
        let arg = Poly { t: vec![(m.clone(), inner)] };
        let a = atom_id(Atom::Exp(intern(arg)));
        r = r.mul(&Poly::mono(vec![(a, n)]));
    }
    r
}

// --------------------------------------------------------------- literals --

fn squared(m: &Mono) -> bool {
    m.iter().all(|&(a, _)| matches!(atom(a), Atom::Var(..))) && m.iter().map(|a| a.1).sum::<i32>() > 1
}

/// an enclosure by floats and, if that one contains zero, one with more digits
fn fine_enclosure(p: &Poly) -> Option<(f64, f64)> {
    let r = enclosure(p)?;
    if r.0 <= 0.0 && r.1 >= 0.0 && p.as_const().is_none() && p.t.len() <= 5000 {
        return crate::wide::enclosure_wide(p).or(Some(r));
    }
    Some(r)
}

/// normal form of `sign(p) in mask`
pub fn lit(p: &Poly, mask: u8) -> B {
    if mask == 7 {
        return B::T;
    }
    if mask == 0 {
        return B::F;
    }
    if let Some(q) = p.as_const() {
        let s = match q.sign() {
            0 => ZERO,
            x if x < 0 => NEG,
            _ => POS,
        };
        return B::from(s & mask != 0);
    }
    // constants: an enclosure away from zero settles the sign
    if let Some((lo, hi)) = fine_enclosure(p) {
        if lo > 0.0 {
            return B::from(mask & POS != 0);
        }
        if hi < 0.0 {
            return B::from(mask & NEG != 0);
        }
    }
    // a common constant factor of known sign is dropped
    let groups = ground_groups(p);
    if groups.len() == 1 && groups[0].0.as_const().is_none() {
        if let Some((lo, hi)) = enclosure(&groups[0].0) {
            if lo > 0.0 {
                return lit(&groups[0].1, mask);
            }
            if hi < 0.0 {
                return lit(&groups[0].1, flip(mask));
            }
        }
    }
    // comparisons between logarithms are exponentiated
    // (unless they are constants, in a comparison with a nonlinear polynomial)
    let mut has_ln = false;
    let mut ok = true;
    let mut free_ln = false;
    let mut rest = false;
    for (m, q) in &p.t {
        let ln = m.iter().any(|&(a, _)| matches!(atom(a), Atom::Ln(_)));
        for &(a, _) in m {
            if let Atom::Ln(x) = atom(a) {
                free_ln |= get(x).as_const().is_none();
            }
        }
        rest |= squared(m);
        if m.len() == 1 && m[0].1 == 1 && ln {
            has_ln = true;
            if small_coef(q).is_none() {
                ok = false;
            }
        } else if m.iter().any(|&(a, _)| matches!(atom(a), Atom::Ln(x) if get(x).as_const().is_none())) {
            ok = false;
        }
    }
    if has_ln && ok && (free_ln || !rest) {
        let e = exp_poly(p).sub(&Poly::int(1));
        if e.as_const().is_some() {
            return lit(&e, mask);
        }
        let still = e.t.iter().any(|(m, _)| {
            m.len() == 1 && m[0].1 == 1 && matches!(atom(m[0].0), Atom::Ln(_))
        });
        if !still {
            return lit(&e, mask);
        }
    }
    let mut mask = mask;
    // clear denominators
    let (mut num, den) = p.clear();
    for &(a, e) in &den {
        if e % 2 == 0 {
            continue;
        }
        match with(|c| atom_mask(c, a)) & !ZERO {
            POS => {}
            NEG => mask = flip(mask),
            _ => num = num.mul_nored(&Poly::mono(vec![(a, 1)])),
        }
    }
    if let Some(q) = num.as_const() {
        return lit(&Poly::c(q), mask);
    }
    // drop non-zero common factors of known sign
    let mut drop: Mono = vec![];
    for (a, e) in num.content() {
        let m = with(|c| atom_mask(c, a));
        if m == POS {
            drop.push((a, -e));
        } else if m == NEG {
            drop.push((a, -e));
            if e % 2 != 0 {
                mask = flip(mask);
            }
        }
    }
    if !drop.is_empty() {
        num = num.mul_nored(&Poly::mono(drop));
        if let Some(q) = num.as_const() {
            return lit(&Poly::c(q), mask);
        }
    }
    // c * exp(a) vs d * exp(b), c and d products of constants
    if num.t.len() == 2 && num.t[0].1.sign() * num.t[1].1.sign() < 0 {
        let mut d = Poly::zero();
        let mut ok = true;
        let mut rest = false;
        let mut logs = false;
        for (k, (m, q)) in num.t.iter().enumerate() {
            let mut r = Poly::zero();
            for &(a, e) in m {
                match atom(a) {
                    Atom::Exp(p) => {
                        rest |= get(p).t.iter().any(|(m, _)| squared(m));
                        r = r.add(&get(p).scale(&Q::int(e as i128)));
                    }
                    Atom::Root(n, p) if get(p).as_const().is_some_and(|c| c.sign() > 0) => {
                        logs = true;
                        r = r.add(&ln_const(&get(p).as_const().unwrap()).scale(&Q::new(e as i128, n as i128)));
                    }
                    _ => ok = false,
                }
            }
            let q = q.abs();
            if q != Q::int(1) {
                logs = true;
                r = r.add(&ln_const(&q));
            }
            d = if k == 0 { r } else { d.sub(&r) };
        }
        let plain = d.t.iter().all(|(m, _)| {
            m.iter().all(|&(a, _)| match atom(a) {
                Atom::Var(..) => true,
                Atom::Ln(p) => get(p).as_const().is_some(),
                _ => false,
            })
        });
        if ok && (!logs || (rest && plain)) {
            let d = if num.t[0].1.sign() > 0 { d } else { d.neg() };
            return lit(&d, mask);
        }
    }
    let (np, fl) = canon(&num);
    if fl {
        mask = flip(mask);
    }
    B::L(intern(np), mask)
}

// ---------------------------------------------------------------- queries --

fn b_closure(b: &B) -> BTreeSet<u32> {
    let mut ps = vec![];
    b.polys(&mut ps);
    let mut s = BTreeSet::new();
    for p in ps {
        s.extend(closure(p).iter().copied());
    }
    s
}

/// part of the path condition connected to `q`
fn slice(pc: &[B], q: &[B]) -> Vec<B> {
    let mut at: BTreeSet<u32> = BTreeSet::new();
    for b in q {
        at.extend(b_closure(b));
    }
    let cl: Vec<BTreeSet<u32>> = pc.iter().map(b_closure).collect();
    let mut used = vec![false; pc.len()];
    loop {
        let mut ch = false;
        for i in 0..pc.len() {
            if !used[i] && cl[i].iter().any(|a| at.contains(a)) {
                used[i] = true;
                at.extend(cl[i].iter().copied());
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    (0..pc.len()).filter(|&i| used[i]).map(|i| pc[i].clone()).collect()
}

fn run_query(asserts: &[(B, Option<String>)], lem: &[Lemma], level: u8, ms: u64, use_cvc5: bool) -> Res {
    let t = smt::emit(asserts, lem, level);
    if let Some(r) = with(|c| c.cache.get(&t.s).cloned()) {
        return r;
    }
    smt::QUERIES.fetch_add(1, Ordering::Relaxed);
    let mut z = with(|c| c.solver.take()).unwrap_or_else(|| Z3::new(&z3bin()));
    let mut r = z.check(&t, ms, true);
    with(|c| c.solver = Some(z));
    if matches!(r, Res::Unknown) && use_cvc5 {
        let cms = with(|c| c.shared.map(|s| s.opts.cvc5_ms).unwrap_or(5000));
        r = smt::cvc5(&t, cms);
    }
    match r {
        Res::Sat(_) => smt::N_SAT.fetch_add(1, Ordering::Relaxed),
        Res::Unsat => smt::N_UNSAT.fetch_add(1, Ordering::Relaxed),
        Res::Unknown => {
            if std::env::var("SYM_DUMP").is_ok() {
                let n = smt::N_UNKNOWN.load(Ordering::Relaxed);
                let _ = std::fs::write(format!("/tmp/unk{n}.smt2"), format!("{}(check-sat)\n", t.s));
            }
            smt::N_UNKNOWN.fetch_add(1, Ordering::Relaxed)
        }
    };
    with(|c| {
        if c.cache.len() > 20000 {
            c.cache.clear();
        }
        c.cache.insert(t.s, r.clone());
    });
    r
}

pub fn z3bin() -> String {
    std::env::var("SYM_Z3").unwrap_or_else(|_| "z3-new".into())
}

fn feasible(b: &B) -> Res {
    match b {
        B::T => return Res::Sat(BTreeMap::new()),
        B::F => return Res::Unsat,
        _ => {}
    }
    let (pc, ms) = with(|c| {
        let ms = c.shared.map(|s| s.opts.feas_ms).unwrap_or(1500);
        (slice(&c.pc, std::slice::from_ref(b)), ms)
    });
    let mut a: Vec<(B, Option<String>)> = pc.into_iter().map(|b| (b, None)).collect();
    a.push((b.clone(), None));
    let r = run_query(&a, &[], 2, ms, false);
    if let Res::Sat(m) = &r {
        let m = m.clone();
        with(|c| {
            let mut base = c.model.clone().unwrap_or_default();
            base.extend(m);
            c.model = Some(base);
        });
    }
    r
}

fn model_sign(c: &Ctx, p: PId) -> u8 {
    let m = match &c.model {
        Some(m) => m,
        None => return 0,
    };
    let ok = std::cell::Cell::new(true);
    let v = eval(&get(p), &|n| match m.get(n) {
        Some(v) => *v,
        None => {
            ok.set(false);
            f64::NAN
        }
    });
    if !ok.get() || !v.is_finite() {
        return 0;
    }
    if v > 1e-7 {
        POS
    } else if v < -1e-7 {
        NEG
    } else {
        0
    }
}

fn push_pc(b: B) {
    with(|c| {
        if let B::L(p, m) = &b {
            let e = c.facts.entry(*p).or_insert(7);
            *e &= *m;
        }
        if let B::And(v) = &b {
            for x in v {
                if let B::L(p, m) = x {
                    let e = c.facts.entry(*p).or_insert(7);
                    *e &= *m;
                }
            }
        }
        c.pc.push(b);
    })
}

fn check_budget(c: &Ctx) -> bool {
    if let Some(s) = c.shared {
        c.trace.len() > s.opts.max_decisions || s.start.elapsed() > Duration::from_secs(s.opts.deadline_s)
    } else {
        false
    }
}

/// branch on a formula
pub fn decide(b: &B) -> bool {
    match b {
        B::T => return true,
        B::F => return false,
        _ => {}
    }
    // replay
    let rep = with(|c| {
        if c.pos < c.prefix.len() {
            let d = c.prefix[c.pos];
            c.pos += 1;
            c.trace.push(d);
            Some(d)
        } else {
            None
        }
    });
    if let Some(d) = rep {
        let val = d.c == 1;
        if !d.forced {
            push_pc(if val { b.clone() } else { b.not() });
        } else {
            note_fact(b, val);
        }
        return val;
    }
    if with(|c| check_budget(c)) {
        abort(Abort::Budget);
    }
    let rec = |val: bool, forced: bool| {
        with(|c| {
            c.trace.push(Dec { c: val as u32, pay: 0, forced });
            c.stat.decisions += 1;
        })
    };
    // syntactic facts
    if let B::L(p, m) = b {
        let s = with(|c| sign_mask(c, &get(*p)));
        if s & !m == 0 {
            rec(true, true);
            return true;
        }
        if s & m == 0 {
            rec(false, true);
            return false;
        }
    }
    // model guided
    let hint = match b {
        B::L(p, m) => {
            let s = with(|c| model_sign(c, *p));
            if s == 0 {
                None
            } else {
                Some(s & m != 0)
            }
        }
        _ => None,
    };
    let nb = b.not();
    let (t, f) = match hint {
        Some(true) => (true, !matches!(feasible(&nb), Res::Unsat)),
        Some(false) => (!matches!(feasible(b), Res::Unsat), true),
        None => {
            let t = !matches!(feasible(b), Res::Unsat);
            if !t {
                (false, true)
            } else {
                let m = with(|c| c.model.clone());
                let f = !matches!(feasible(&nb), Res::Unsat);
                if f {
                    with(|c| c.model = m);
                }
                (t, f)
            }
        }
    };
    let val = match (t, f) {
        (true, true) => {
            // take true now, queue false
            with(|c| {
                let mut alt = c.trace.clone();
                alt.push(Dec { c: 0, pay: 0, forced: false });
                c.new_tasks.push(alt);
            });
            rec(true, false);
            push_pc(b.clone());
            // keep the model only if it clearly satisfies the branch taken
            with(|c| {
                let keep = match b {
                    B::L(p, m) => {
                        let s = model_sign(c, *p);
                        s != 0 && s & m != 0
                    }
                    _ => false,
                };
                if !keep {
                    c.model = None;
                }
            });
            return true;
        }
        (true, false) => true,
        (false, true) => false,
        (false, false) => abort(Abort::Infeasible),
    };
    rec(val, true);
    note_fact(b, val);
    val
}

fn note_fact(b: &B, val: bool) {
    let b = if val { b.clone() } else { b.not() };
    if let B::L(p, m) = b {
        with(|c| {
            let e = c.facts.entry(p).or_insert(7);
            *e &= m;
        })
    }
}

/// is `p > 0` implied on this path?  (never forks)
pub fn ask_pos(p: &Poly) -> bool {
    let b = lit(p, POS);
    match &b {
        B::T => return true,
        B::F => return false,
        _ => {}
    }
    let rep = with(|c| {
        if c.pos < c.prefix.len() {
            let d = c.prefix[c.pos];
            c.pos += 1;
            c.trace.push(d);
            Some(d.c == 1)
        } else {
            None
        }
    });
    let r = match rep {
        Some(r) => r,
        None => {
            let quick = match &b {
                B::L(p, m) => with(|c| sign_mask(c, &get(*p)) & !m == 0),
                _ => false,
            };
            let r = quick || matches!(feasible(&b.not()), Res::Unsat);
            with(|c| c.trace.push(Dec { c: r as u32, pay: 0, forced: true }));
            r
        }
    };
    if r {
        note_fact(&b, true);
    }
    r
}

/// fork over 0..n
pub fn choose(n: usize) -> usize {
    assert!(n > 0);
    let rep = with(|c| {
        if c.pos < c.prefix.len() {
            let d = c.prefix[c.pos];
            c.pos += 1;
            c.trace.push(d);
            Some(d.c as usize)
        } else {
            None
        }
    });
    let v = match rep {
        Some(v) => v,
        None => {
            with(|c| {
                for i in (1..n).rev() {
                    let mut alt = c.trace.clone();
                    alt.push(Dec { c: i as u32, pay: 0, forced: false });
                    c.new_tasks.push(alt);
                }
                c.trace.push(Dec { c: 0, pay: 0, forced: false });
            });
            0
        }
    };
    with(|c| c.choices.push(v as u64));
    v
}

/// concretise trunc(p) by enumerating its feasible integer values
pub fn concretize(p: &Poly) -> i64 {
    if let Some((lo, hi)) = enclosure(p) {
        if lo.trunc() == hi.trunc() {
            return lo.trunc() as i64;
        }
    }
    for _ in 0..64 {
        // candidate value
        let rep = with(|c| {
            if c.pos < c.prefix.len() {
                Some(c.prefix[c.pos].pay)
            } else {
                None
            }
        });
        let cand = match rep {
            Some(v) => v,
            None => {
                // get a model of the path condition restricted to p's slice
                let nz = B::Or(vec![lit(p, 7)]);
                let _ = nz;
                let pc = with(|c| slice(&c.pc, &[B::L(intern(p.clone()), 7)]));
                let mut a: Vec<(B, Option<String>)> = pc.into_iter().map(|b| (b, None)).collect();
                let (num, _) = p.clear();
                a.push((B::or(vec![lit(&num, 6), lit(&num, 3)]), None));
                let m = match run_query(&a, &[], 2, 3000, false) {
                    Res::Sat(m) => m,
                    _ => abort(Abort::Unsupported("float-to-int conversion: no model".into())),
                };
                let base = with(|c| c.model.clone().unwrap_or_default());
                let v = eval(p, &|n| m.get(n).or(base.get(n)).copied().unwrap_or(0.0));
                (v + v.signum() * 1e-9).trunc() as i64
            }
        };
        let q = Q::int(cand as i128);
        let (lo, hi, los, his);
        if cand > 0 {
            (lo, los, hi, his) = (q.clone(), 6u8, q.add(&Q::ONE), NEG);
        } else if cand < 0 {
            (lo, los, hi, his) = (q.sub(&Q::ONE), POS, q.clone(), 3u8);
        } else {
            (lo, los, hi, his) = (Q::int(-1), POS, Q::ONE, NEG);
        }
        let b = B::and(vec![lit(&p.sub(&Poly::c(lo)), los), lit(&p.sub(&Poly::c(hi)), his)]);
        let before = with(|c| c.trace.len());
        let v = decide(&b);
        with(|c| {
            if c.trace.len() > before {
                c.trace[before].pay = cand;
                // the queued alternative must carry the payload too
                if let Some(a) = c.new_tasks.last_mut() {
                    if a.len() == before + 1 && a[..before] == c.trace[..before] {
                        a[before].pay = cand;
                    }
                }
            }
        });
        if v {
            return cand;
        }
    }
    abort(Abort::Unsupported("float-to-int conversion: too many values".into()))
}

// --------------------------------------------------------------- harness --

pub fn fresh(name: &str) -> Poly {
    let n = with(|c| {
        let k = c.names.entry(name.to_string()).or_insert(0);
        *k += 1;
        let n = if *k == 1 { name.to_string() } else { format!("{name}#{k}") };
        c.inputs.push(n.clone());
        n
    });
    Poly::atom(atom_id(Atom::Var(n)))
}

pub fn assume(b: B) {
    match b {
        B::T => return,
        B::F => abort(Abort::Infeasible),
        b => {
            let replaying = with(|c| c.pos < c.prefix.len());
            if !replaying && matches!(feasible(&b), Res::Unsat) {
                abort(Abort::Infeasible);
            }
            // split conjunctions so that facts are visible
            match b {
                B::And(v) => v.into_iter().for_each(push_pc),
                b => push_pc(b),
            }
        }
    }
}

/// assume without a feasibility query (used for long lists of assumptions)
pub fn assume_fast(b: B) {
    match b {
        B::T => {}
        B::F => abort(Abort::Infeasible),
        B::And(v) => v.into_iter().for_each(push_pc),
        b => push_pc(b),
    }
}

pub fn prune(why: &str) -> ! {
    abort(Abort::Prune(why.to_string()))
}

pub fn finish() -> ! {
    abort(Abort::Stop)
}

pub fn cover(label: &str) {
    with(|c| *c.covers.entry(label.to_string()).or_insert(0) += 1);
}

pub fn observe(name: &str, v: ObsVal) {
    with(|c| c.obs.push((name.to_string(), v)));
}

fn form_holds(b: &B, env: &dyn Fn(&str) -> f64, tol: f64) -> bool {
    match b {
        B::T => true,
        B::F => false,
        B::L(p, m) => {
            let v = eval(&get(*p), env);
            if v.is_nan() {
                return false;
            }
            (m & NEG != 0 && v < tol) || (m & ZERO != 0 && v.abs() <= tol) || (m & POS != 0 && v > -tol)
        }
        B::And(v) => v.iter().all(|b| form_holds(b, env, tol)),
        B::Or(v) => v.iter().any(|b| form_holds(b, env, tol)),
    }
}

/// Search a model of PC && extra that also satisfies the real exp/ln.
/// Ok(Some) = validated model, Ok(None) = only unvalidated, Err = unsat/unknown
enum Found {
    Model(BTreeMap<String, f64>, bool, String),
    Unsat,
    Unknown,
}

fn collapsed(b: &B) -> B {
    match b {
        B::L(p, m) => B::L(collapse(*p), *m),
        B::And(v) => B::And(v.iter().map(collapsed).collect()),
        B::Or(v) => B::Or(v.iter().map(collapsed).collect()),
        b => b.clone(),
    }
}

fn transcendental(bs: &[B]) -> Vec<u32> {
    let mut s = BTreeSet::new();
    for b in bs {
        for a in b_closure(b) {
            if matches!(atom(a), Atom::Exp(_) | Atom::Ln(_)) {
                s.insert(a);
            }
        }
    }
    s.into_iter().collect()
}

fn find_model(extra: &[B], ms: u64) -> Found {
    let (pc, inputs) = with(|c| (c.pc.clone(), c.inputs.clone()));
    let mut all = pc.clone();
    all.extend(extra.iter().cloned());
    let tr = transcendental(&all);
    let mut last: Option<(BTreeMap<String, f64>, String)> = None;
    let vars: Vec<u32> = {
        let mut s = BTreeSet::new();
        for b in &all {
            s.extend(b_closure(b));
        }
        s.into_iter().filter(|&a| matches!(atom(a), Atom::Var(_))).collect()
    };
    let nice = |k: i128| -> Vec<(B, Option<String>)> {
        vars.iter()
            .map(|&a| {
                let p = Poly::atom(a);
                (
                    B::and(vec![lit(&p.sub(&Poly::int(k)), 3), lit(&p.add(&Poly::int(k)), 6)]),
                    None,
                )
            })
            .collect()
    };
    let ladder: [(Option<&str>, Option<&str>, Option<i128>); 6] = [
        (Some("0.01"), Some("0.05"), Some(20)),
        (Some("0.001"), Some("0.01"), Some(100)),
        (Some("0.0001"), Some("0.001"), Some(1000)),
        (None, Some("0.001"), None),
        (None, Some("0.00001"), None),
        (None, None, None),
    ];
    let t0 = Instant::now();
    let budget = Duration::from_millis(ms * 4);
    let mut unknowns = 0;
    // the same question with merged exponentials (a weaker set of facts, but
    // linear in them): decides most refutations at once
    let merged: Vec<B> = all.iter().map(collapsed).collect();
    if merged.iter().zip(&all).any(|(a, b)| a != b) {
        let tr = transcendental(&merged);
        let mut lem: Vec<Lemma> = vec![];
        for round in 0..7 {
            let level = if round % 2 == 0 { 2 } else { 3 };
            let a: Vec<(B, Option<String>)> = merged.iter().map(|b| (b.clone(), None)).collect();
            match run_query(&a, &lem, level, ms, false) {
                Res::Unsat => return Found::Unsat,
                Res::Unknown => continue,
                Res::Sat(m) => {
                    let env = |n: &str| m.get(n).copied().unwrap_or(0.0);
                    let mut added = false;
                    for &t in &tr {
                        let x = match atom(t) {
                            Atom::Exp(p) | Atom::Ln(p) => eval(&get(p), &env),
                            _ => continue,
                        };
                        if x.is_finite() && !lem.iter().any(|l| l.0 == t && l.1 == x) {
                            lem.push((t, x));
                            added = true;
                        }
                    }
                    if !added || (all.iter().all(|b| form_holds(b, &env, 1e-7))) {
                        break;
                    }
                }
            }
        }
    }
    let mut lem: Vec<Lemma> = vec![];
    for (gpc, gex, bound) in ladder {
        // after two undecided rungs only the exact question is asked
        if (unknowns >= 2 || t0.elapsed() > budget) && gex.is_some() {
            continue;
        }
        if gex.is_none() && unknowns >= 2 {
            if let Some(f) = search_model(&pc, extra, &inputs, &vars) {
                return f;
            }
            if t0.elapsed() > budget {
                break;
            }
        }
        for _round in 0..if gex.is_none() { 10 } else { 5 } {
            let mut a: Vec<(B, Option<String>)> = vec![];
            for b in &pc {
                a.push((b.clone(), gpc.map(|s| s.to_string())));
            }
            for b in extra {
                a.push((b.clone(), gex.map(|s| s.to_string())));
            }
            if let Some(k) = bound {
                a.extend(nice(k));
            }
            match run_query(&a, &lem, 2, ms, gpc.is_none() && gex.is_none()) {
                Res::Unsat => {
                    if gpc.is_none() && gex.is_none() && bound.is_none() {
                        return Found::Unsat;
                    }
                    break;
                }
                Res::Unknown => {
                    unknowns += 1;
                    break;
                }
                Res::Sat(m) => {
                    let mut full = BTreeMap::new();
                    for n in &inputs {
                        full.insert(n.clone(), m.get(n).copied().unwrap_or(0.0));
                    }
                    // auxiliary (stub) variables as well
                    for (k, v) in &m {
                        full.insert(k.clone(), *v);
                    }
                    let env = |n: &str| full.get(n).copied().unwrap_or(0.0);
                    let pc_ok = pc.iter().all(|b| form_holds(b, &env, 1e-7));
                    let ex_ok = extra.iter().all(|b| form_holds(b, &env, 1e-9));
                    let note = format!("gap pc={gpc:?} claim={gex:?}");
                    if pc_ok && ex_ok {
                        return Found::Model(full, true, note);
                    }
                    last = Some((full.clone(), note));
                    if tr.is_empty() {
                        break;
                    }
                    // refinement points at the model
                    let mut added = false;
                    for &t in &tr {
                        let x = match atom(t) {
                            Atom::Exp(p) | Atom::Ln(p) => eval(&get(p), &env),
                            _ => continue,
                        };
                        if x.is_finite() && !lem.iter().any(|l| l.0 == t && l.1 == x) {
                            lem.push((t, x));
                            added = true;
                        }
                    }
                    if !added {
                        break;
                    }
                }
            }
        }
    }
    if unknowns < 2 {
        if let Some(f) = search_model(&pc, extra, &inputs, &vars) {
            return f;
        }
    }
    if let Some((m, note)) = last {
        if std::env::var("SYM_DUMP").is_ok() {
            let a: Vec<(B, Option<String>)> = pc.iter().chain(extra).map(|b| (b.clone(), None)).collect();
            let t = smt::emit(&a, &[], 2);
            let _ = std::fs::write(format!("/tmp/last{}.smt2", smt::QUERIES.load(Ordering::Relaxed)), format!("{}(check-sat)\n(get-model)", t.s));
        }
        return Found::Model(m, false, note);
    }
    Found::Unknown
}


/// does the formula hold with a margin (strict parts by `gap`)?
fn form_margin(b: &B, env: &dyn Fn(&str) -> f64, gap: f64) -> bool {
    match b {
        B::T => true,
        B::F => false,
        B::L(p, m) => {
            let v = eval(&get(*p), env);
            if !v.is_finite() {
                return false;
            }
            (m & NEG != 0 && v < -gap) || (m & ZERO != 0 && v.abs() <= 1e-12) || (m & POS != 0 && v > gap)
        }
        B::And(v) => v.iter().all(|b| form_margin(b, env, gap)),
        B::Or(v) => v.iter().any(|b| form_margin(b, env, gap)),
    }
}

/// Where the solver cannot decide a refutation that involves exp/ln, look for
/// a concrete witness of PC && !claim around the models it does give.  Only
/// ever produces counterexamples (replayed on the real code); never a pass.
fn search_model(pc: &[B], extra: &[B], inputs: &[String], vars: &[u32]) -> Option<Found> {
    let names: Vec<String> = vars
        .iter()
        .filter_map(|&a| match atom(a) {
            Atom::Var(n) => Some(n),
            _ => None,
        })
        .collect();
    if names.is_empty() || names.len() > 40 {
        return None;
    }
    let mut base = with(|c| c.model.clone().unwrap_or_default());
    for round in 0..3 {
        let a: Vec<(B, Option<String>)> =
            pc.iter().map(|b| (b.clone(), if round == 0 { Some("0.01".to_string()) } else { None })).collect();
        if let Res::Sat(m) = run_query(&a, &[], if round == 2 { 0 } else { 2 }, 1500, false) {
            base.extend(m);
            break;
        }
    }
    let mut st = 0x9e3779b97f4a7c15u64;
    let mut rnd = || {
        st ^= st << 13;
        st ^= st >> 7;
        st ^= st << 17;
        st
    };
    let t0 = Instant::now();
    for k in 0..4000u32 {
        if t0.elapsed() > Duration::from_millis(2500) {
            break;
        }
        let mut m: BTreeMap<String, f64> = BTreeMap::new();
        for n in &names {
            let b = base.get(n).copied().unwrap_or(0.0);
            let r = rnd();
            let u = ((r >> 20) % 129) as f64 / 64.0 - 1.0;
            let v = match (r % 8, k % 4) {
                (0..=2, 0) => b + u * 0.25,
                (0..=4, 1) => b,
                (_, 0) | (0, _) => b,
                (1, _) => u.abs(),
                (2, _) => u * 8.0,
                (3, _) => [0.5, -0.5, 1.0, -1.0][(r >> 40) as usize % 4],
                _ => u,
            };
            m.insert(n.clone(), v);
        }
        let env = |n: &str| m.get(n).copied().unwrap_or(0.0);
        if pc.iter().all(|b| form_margin(b, &env, 1e-6)) && extra.iter().all(|b| form_margin(b, &env, 1e-4)) {
            let mut full = BTreeMap::new();
            for n in inputs {
                full.insert(n.clone(), m.get(n).or(base.get(n)).copied().unwrap_or(0.0));
            }
            full.extend(m);
            return Some(Found::Model(full, true, "witness search".into()));
        }
    }
    None
}

/// the verification condition: PC => b
pub fn check(label: &str, b: B) {
    let full = label.to_string();
    with(|c| {
        c.stat.checks += 1;
        c.labels.entry(full.clone()).or_default().reached += 1;
    });
    // while replaying a prefix the same check has been done by the path the
    // prefix was forked from
    let replaying = with(|c| c.pos < c.prefix.len());
    if replaying {
        if b == B::F {
            abort(Abort::Stop);
        }
        return;
    }
    match &b {
        B::T => {
            with(|c| {
                c.stat.trivial += 1;
                c.stat.discharged += 1;
                let l = c.labels.entry(full.clone()).or_default();
                l.trivial += 1;
                l.proved += 1;
            });
            return;
        }
        B::And(v) => {
            // prove conjuncts one by one
            let v = v.clone();
            let mut ok = true;
            for x in v {
                ok &= check1(&full, x);
                if !ok {
                    break;
                }
            }
            return;
        }
        _ => {}
    }
    check1(&full, b);
}

fn check1(full: &str, b: B) -> bool {
    if let B::L(p, m) = &b {
        // a claim about constants only that holds up to 1e-11 by a rigorous
        // enclosure: equality of the reals is not decided any further
        if m & ZERO != 0 {
            if let Some((lo, hi)) = fine_enclosure(&get(*p)) {
                if lo > -1e-11 && hi < 1e-11 {
                    with(|c| {
                        c.stat.discharged += 1;
                        c.labels.entry(full.to_string()).or_default().proved += 1;
                    });
                    return true;
                }
            }
        }
        let s = with(|c| sign_mask(c, &get(*p)));
        if s & !m == 0 {
            with(|c| {
                c.stat.discharged += 1;
                c.labels.entry(full.into()).or_default().proved += 1;
            });
            return true;
        }
    }
    let nb = b.not();
    let (ms, capped) = with(|c| {
        let o = &c.shared.unwrap().opts;
        let n = c.labels.get(full).map(|l| l.violated).unwrap_or(0);
        (o.check_ms, n >= o.max_cands_per_label)
    });
    // slice query first
    let pc = with(|c| slice(&c.pc, std::slice::from_ref(&nb)));
    let mut a: Vec<(B, Option<String>)> = pc.into_iter().map(|b| (b, None)).collect();
    a.push((nb.clone(), None));
    let mut r = if nb == B::F { Res::Unsat } else { run_query(&a, &[], 0, ms, false) };
    if !matches!(r, Res::Unsat) {
        let tr = transcendental(&a.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
        if !tr.is_empty() || matches!(r, Res::Unknown) {
            r = run_query(&a, &[], 2, ms, true);
        }
    }
    if matches!(r, Res::Unsat) {
        with(|c| {
            c.stat.discharged += 1;
            c.labels.entry(full.into()).or_default().proved += 1;
        });
        return true;
    }
    if capped {
        with(|c| {
            c.stat.violated += 1;
            c.labels.entry(full.into()).or_default().violated += 1;
        });
        return false;
    }
    match find_model(&[nb.clone()], ms) {
        Found::Unsat => {
            with(|c| {
                c.stat.discharged += 1;
                c.labels.entry(full.into()).or_default().proved += 1;
            });
            true
        }
        Found::Unknown => {
            with(|c| {
                c.stat.undecided += 1;
                c.labels.entry(full.into()).or_default().undecided += 1;
            });
            if b != B::F {
                push_pc(b);
            }
            true
        }
        Found::Model(m, validated, note) => {
            record_cand(full, m, validated, note);
            with(|c| {
                c.stat.violated += 1;
                c.labels.entry(full.into()).or_default().violated += 1;
            });
            // continue on the part of the path where the claim holds
            if b == B::F || matches!(feasible(&b), Res::Unsat) {
                abort(Abort::Stop);
            }
            push_pc(b);
            with(|c| c.model = None);
            false
        }
    }
}

fn record_cand(label: &str, m: BTreeMap<String, f64>, validated: bool, note: String) {
    with(|c| {
        let obs = eval_obs(c, &m);
        let cand = Candidate {
            job: c.jobname.clone(),
            label: label.to_string(),
            validated,
            inputs: m,
            choices: c.choices.clone(),
            obs,
            note,
        };
        let s = c.shared.unwrap();
        let mut r = s.res.lock().unwrap();
        let n = r.cands.iter().filter(|x| x.label == label && x.job == cand.job).count();
        if n < 12 {
            r.cands.push(cand);
        }
    })
}

fn eval_obs(c: &Ctx, m: &BTreeMap<String, f64>) -> Vec<(String, f64)> {
    let env = |n: &str| m.get(n).copied().unwrap_or(0.0);
    c.obs
        .iter()
        .map(|(n, v)| {
            let x = match v {
                ObsVal::P(p) => eval(&get(*p), &env),
                ObsVal::C(f) => *f,
            };
            (n.clone(), x)
        })
        .collect()
}

// ------------------------------------------------------------------ driver --

fn run_path(sh: &'static Shared, t: Task) {
    reset_arena();
    with(|c| {
        c.prefix = t.prefix;
        c.pos = 0;
        c.trace.clear();
        c.pc.clear();
        c.facts.clear();
        c.model = None;
        c.inputs.clear();
        c.choices.clear();
        c.names.clear();
        c.obs.clear();
        c.job = t.job;
        c.jobname = sh.jobs[t.job].name.clone();
        c.stat = JobStat::default();
        c.labels.clear();
        c.covers.clear();
        c.new_tasks.clear();
        c.panic_msg = None;
        c.calls = 0;
        c.hung = false;
        c.queries_off = false;
    });
    let global = sh.start + Duration::from_secs(sh.opts.deadline_s);
    crate::poly::limit_path(Some(global.min(Instant::now() + Duration::from_secs(sh.opts.path_s))));
    let f = sh.jobs[t.job].f.clone();
    let t0 = Instant::now();
    let r = catch_unwind(AssertUnwindSafe(|| f()));
    crate::poly::limit_path(None);
    if std::env::var("SYM_TRACE").is_ok() {
        eprintln!(
            "path {} {:?} dec={} ok={} choices={:?}",
            sh.jobs[t.job].name,
            t0.elapsed(),
            with(|c| c.trace.len()),
            r.is_ok(),
            with(|c| c.choices.clone())
        );
    }
    let mut st = with(|c| std::mem::take(&mut c.stat));
    st.paths = 1;
    let mut prune_why = None;
    let mut unsup = None;
    match r {
        Ok(()) => {
            st.done = 1;
            maybe_trace(sh);
        }
        Err(e) => match e.downcast::<Abort>() {
            Ok(a) => match *a {
                Abort::Prune(w) => {
                    st.pruned = 1;
                    prune_why = Some(w);
                }
                Abort::Infeasible => st.infeasible = 1,
                Abort::Unsupported(w) => {
                    st.unsupported = 1;
                    unsup = Some(w);
                }
                Abort::Budget => st.unexplored = 1,
                Abort::Stop => st.done = 1,
                Abort::Hang => st = path_failure(sh, st, "terminates", "call budget exceeded"),
            },
            Err(_) => {
                // the code under test panicked on a feasible path?
                let msg = with(|c| c.panic_msg.take()).unwrap_or_else(|| "panic".into());
                if msg.contains("symrt") {
                    st.unsupported = 1;
                    unsup = Some(msg);
                } else {
                    st = path_failure(sh, st, "no-panic", &msg);
                }
            }
        },
    }
    let (labels, covers, fns, new_tasks, job) = with(|c| {
        (
            std::mem::take(&mut c.labels),
            std::mem::take(&mut c.covers),
            std::mem::take(&mut c.fns),
            std::mem::take(&mut c.new_tasks),
            c.job,
        )
    });
    {
        let mut r = sh.res.lock().unwrap();
        let name = sh.jobs[job].name.clone();
        let j = r.jobs.entry(name).or_default();
        j.paths += st.paths;
        j.done += st.done;
        j.pruned += st.pruned;
        j.infeasible += st.infeasible;
        j.panics += st.panics;
        j.decisions += st.decisions;
        j.checks += st.checks;
        j.trivial += st.trivial;
        j.discharged += st.discharged;
        j.undecided += st.undecided;
        j.violated += st.violated;
        j.unexplored += st.unexplored;
        j.unsupported += st.unsupported;
        for (k, v) in labels {
            let l = r.labels.entry(k).or_default();
            l.reached += v.reached;
            l.proved += v.proved;
            l.trivial += v.trivial;
            l.violated += v.violated;
            l.undecided += v.undecided;
        }
        for (k, v) in covers {
            *r.covers.entry(k).or_default() += v;
        }
        r.fns.extend(fns);
        if let Some(w) = prune_why {
            *r.prunes.entry(w).or_default() += 1;
        }
        if let Some(w) = unsup {
            r.unsupported.insert(w);
        }
    }
    let over = sh.start.elapsed() > Duration::from_secs(sh.opts.deadline_s) || {
        let r = sh.res.lock().unwrap();
        let j = &r.jobs[&sh.jobs[job].name];
        // a job whose claim is already refuted many times need not be exhausted
        j.paths > sh.opts.max_paths || r.cands.iter().filter(|x| x.job == sh.jobs[job].name).count() >= 40
    };
    if over {
        if !new_tasks.is_empty() {
            let mut r = sh.res.lock().unwrap();
            r.jobs.entry(sh.jobs[job].name.clone()).or_default().unexplored += new_tasks.len() as u64;
        }
        return;
    }
    let mut q = sh.q.lock().unwrap();
    for p in new_tasks {
        q.tasks[job].push(Task { job, prefix: p });
    }
    sh.cv.notify_all();
}

/// a whole path ends in a panic or does not end: a candidate violation
fn path_failure(sh: &'static Shared, st: JobStat, kind: &str, msg: &str) -> JobStat {
    let label = format!("{}/{kind}", with(|c| c.jobname.clone()));
    with(|c| c.stat = st);
    match find_model(&[], sh.opts.check_ms) {
        Found::Unsat => with(|c| c.stat.infeasible = 1),
        Found::Unknown => with(|c| {
            c.stat.undecided += 1;
            c.labels.entry(label.clone()).or_default().undecided += 1;
        }),
        Found::Model(m, v, n) => {
            record_cand(&label, m, v, format!("{n}; {msg}"));
            with(|c| {
                c.stat.panics = 1;
                c.stat.violated += 1;
                c.labels.entry(label.clone()).or_default().violated += 1;
            });
        }
    }
    let mut st = with(|c| std::mem::take(&mut c.stat));
    st.paths = 1;
    st
}

fn maybe_trace(sh: &'static Shared) {
    let name = with(|c| c.jobname.clone());
    {
        let r = sh.res.lock().unwrap();
        if r.traces.iter().filter(|t| t.job == name).count() >= sh.opts.traces_per_job {
            return;
        }
    }
    if with(|c| c.obs.is_empty()) {
        return;
    }
    if let Found::Model(m, true, note) = find_model(&[], 2000) {
        let t = with(|c| Candidate {
            job: name.clone(),
            label: "trace".into(),
            validated: true,
            obs: eval_obs(c, &m),
            inputs: m,
            choices: c.choices.clone(),
            note,
        });
        let mut r = sh.res.lock().unwrap();
        if r.traces.iter().filter(|t| t.job == name).count() < sh.opts.traces_per_job {
            r.traces.push(t);
        }
    }
}

fn worker(sh: &'static Shared) {
    with(|c| c.shared = Some(sh));
    loop {
        let t = {
            let mut q = sh.q.lock().unwrap();
            loop {
                if let Some(t) = q.pop() {
                    q.active += 1;
                    break Some(t);
                }
                if q.active == 0 {
                    break None;
                }
                q = sh.cv.wait(q).unwrap();
            }
        };
        let t = match t {
            Some(t) => t,
            None => {
                sh.cv.notify_all();
                break;
            }
        };
        let (job, began) = (t.job, Instant::now());
        if sh.start.elapsed() > Duration::from_secs(sh.opts.deadline_s) {
            let mut r = sh.res.lock().unwrap();
            r.jobs.entry(sh.jobs[t.job].name.clone()).or_default().unexplored += 1;
        } else {
            run_path(sh, t);
        }
        let mut q = sh.q.lock().unwrap();
        q.active -= 1;
        q.running[job] -= 1;
        q.spent_us[job] += began.elapsed().as_micros() as u64;
        if q.active == 0 {
            sh.cv.notify_all();
        }
    }
    with(|c| c.solver = None);
}

pub fn explore(jobs: Vec<Job>, opts: Opts) -> Results {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        if loc.contains("symrt") {
            let l = info.location().unwrap();
            eprintln!("symrt internal: {msg} at {loc}:{}", l.line());
        }
        // only a panic raised within symrt itself is an internal one, not an
        // assertion of the code whose text mentions it
        let m = format!("{} [{loc}]", msg.replace("symrt", "sym"));
        C.with(|c| {
            if let Ok(mut c) = c.try_borrow_mut() {
                c.panic_msg = Some(m.clone());
            } else {
                eprintln!("panic inside symrt: {m}");
            }
        });
    }));
    let n = opts.threads.max(1);
    let k = jobs.len();
    let tasks = (0..k).map(|job| vec![Task { job, prefix: vec![] }]).collect();
    let sh: &'static Shared = Box::leak(Box::new(Shared {
        q: Mutex::new(Queue { tasks, spent_us: vec![0; k], running: vec![0; k], active: 0 }),
        cv: Condvar::new(),
        res: Mutex::new(Results::default()),
        opts,
        jobs,
        start: Instant::now(),
    }));
    let hs: Vec<_> = (0..n)
        .map(|_| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || worker(sh))
                .unwrap()
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    std::mem::take(&mut *sh.res.lock().unwrap())
}
