//! Hash-consed Laurent polynomials over "atoms".
//!
//! Every finite symbolic real is a polynomial with exact rational
//! coefficients over atoms; an atom is an input variable, `exp(monomial)`,
//! `ln(poly)`, a `q`-th root of a polynomial, or a composite denominator.
//! Normalisation only applies identities of the real numbers that hold under
//! the side conditions established on the current path (x > 0 for ln/root,
//! d != 0 for a denominator).
use crate::rat::Q;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::rc::Rc;

pub type Mono = Vec<(u32, i32)>;
pub type PId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Poly {
    pub t: Vec<(Mono, Q)>, // sorted by mono_cmp descending
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Atom {
    Var(String),
    /// exp of a polynomial which is one monomial (or one constant)
    Exp(PId),
    Ln(PId),
    Root(u32, PId),
    /// composite polynomial, only with negative exponents
    Den(PId),
}

#[derive(Default)]
pub struct Arena {
    polys: Vec<Rc<Poly>>,
    pmap: HashMap<Rc<Poly>, PId>,
    atoms: Vec<Atom>,
    amap: HashMap<Atom, u32>,
    closure: HashMap<PId, Rc<Vec<u32>>>,
    ground: HashMap<u32, Option<(f64, f64)>>,
    collapsed: HashMap<PId, PId>,
}

thread_local! {
    static A: RefCell<Arena> = RefCell::new(Arena::default());
}

/// what the terms of the current path have cost so far
#[derive(Default)]
struct Cost {
    calls: u32,
    work: u64,
    stored: u64,
    until: Option<std::time::Instant>,
    spent: bool,
}
/// bounds of the work (products and sums of terms) and of the terms stored on one path
const MAX_WORK: u64 = 1_000_000_000;
const MAX_STORED: u64 = 2_500_000;
/// bound of the terms of one product
const MAX_PRODUCT: usize = 4_000_000;
thread_local! {
    static COST: RefCell<Cost> = RefCell::new(Cost::default());
}
pub static WORST: [std::sync::atomic::AtomicU64; 2] =
    [std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0)];

pub fn reset_arena() {
    A.with(|a| *a.borrow_mut() = Arena::default());
    crate::wide::reset();
    limit_path(None);
}
/// starts a path that may take until the given time
pub fn limit_path(until: Option<std::time::Instant>) {
    COST.with(|c| {
        let c = std::mem::replace(&mut *c.borrow_mut(), Cost { until, ..Cost::default() });
        WORST[0].fetch_max(c.work, std::sync::atomic::Ordering::Relaxed);
        WORST[1].fetch_max(c.stored, std::sync::atomic::Ordering::Relaxed);
    });
}
/// gives a path up whose terms grow out of bounds
fn spend(work: usize, stored: usize) {
    let over = COST.with(|c| {
        let mut c = c.borrow_mut();
        c.calls += 1;
        c.work += work as u64;
        c.stored += stored as u64;
        let late = || c.calls % 256 == 0 && c.until.is_some_and(|t| std::time::Instant::now() > t);
        let over = c.until.is_some() && !c.spent && (work > MAX_PRODUCT || c.work > MAX_WORK || c.stored > MAX_STORED || late());
        c.spent |= over;
        over
    });
    if over {
        crate::engine::abort(crate::engine::Abort::Budget);
    }
}

pub fn intern(p: Poly) -> PId {
    spend(p.t.len(), 0);
    let (id, new) = intern_new(p);
    if new > 0 {
        spend(0, new);
    }
    id
}
fn intern_new(p: Poly) -> (PId, usize) {
    A.with(|a| {
        let mut a = a.borrow_mut();
        let p = Rc::new(p);
        if let Some(&i) = a.pmap.get(&p) {
            return (i, 0);
        }
        let i = a.polys.len() as u32;
        let n = p.t.len();
        a.polys.push(p.clone());
        a.pmap.insert(p, i);
        (i, n)
    })
}
pub fn get(i: PId) -> Rc<Poly> {
    A.with(|a| a.borrow().polys[i as usize].clone())
}
pub fn atom_id(x: Atom) -> u32 {
    A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(&i) = a.amap.get(&x) {
            return i;
        }
        let i = a.atoms.len() as u32;
        a.atoms.push(x.clone());
        a.amap.insert(x, i);
        i
    })
}
pub fn atom(i: u32) -> Atom {
    A.with(|a| a.borrow().atoms[i as usize].clone())
}

/// lexicographic order on exponent vectors (a true monomial order on
/// non-negative exponents)
pub fn mono_cmp(a: &Mono, b: &Mono) -> Ordering {
    let (mut i, mut j) = (0, 0);
    loop {
        match (a.get(i), b.get(j)) {
            (None, None) => return Ordering::Equal,
            (Some(&(_, e)), None) => return if e > 0 { Ordering::Greater } else { Ordering::Less },
            (None, Some(&(_, e))) => return if e > 0 { Ordering::Less } else { Ordering::Greater },
            (Some(&(x, e)), Some(&(y, f))) => {
                if x == y {
                    if e != f {
                        return e.cmp(&f);
                    }
                    i += 1;
                    j += 1;
                } else if x < y {
                    return if e > 0 { Ordering::Greater } else { Ordering::Less };
                } else {
                    return if f > 0 { Ordering::Less } else { Ordering::Greater };
                }
            }
        }
    }
}

fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            let e = a[i].1 + b[j].1;
            if e != 0 {
                r.push((a[i].0, e));
            }
            i += 1;
            j += 1;
        }
    }
    r
}

impl Poly {
    pub fn zero() -> Poly {
        Poly { t: vec![] }
    }
    pub fn c(q: Q) -> Poly {
        if q.is_zero() {
            Poly::zero()
        } else {
            Poly { t: vec![(vec![], q)] }
        }
    }
    pub fn int(v: i128) -> Poly {
        Poly::c(Q::int(v))
    }
    pub fn atom(a: u32) -> Poly {
        Poly { t: vec![(vec![(a, 1)], Q::ONE)] }
    }
    pub fn as_const(&self) -> Option<Q> {
        match self.t.len() {
            0 => Some(Q::ZERO),
            1 if self.t[0].0.is_empty() => Some(self.t[0].1.clone()),
            _ => None,
        }
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty()
    }
    fn from_terms(mut t: Vec<(Mono, Q)>) -> Poly {
        t.sort_by(|a, b| mono_cmp(&b.0, &a.0));
        let mut r: Vec<(Mono, Q)> = Vec::with_capacity(t.len());
        for (m, q) in t {
            if let Some(l) = r.last_mut() {
                if l.0 == m {
                    l.1 = l.1.add(&q);
                    continue;
                }
            }
            r.push((m, q));
        }
        r.retain(|x| !x.1.is_zero());
        Poly { t: r }
    }
    pub fn add_raw(&self, o: &Poly) -> Poly {
        spend(self.t.len() + o.t.len(), 0);
        let mut r = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() {
                r.push(self.t[i].clone());
                i += 1;
                continue;
            }
            if i >= self.t.len() {
                r.push(o.t[j].clone());
                j += 1;
                continue;
            }
            match mono_cmp(&self.t[i].0, &o.t[j].0) {
                Ordering::Greater => {
                    r.push(self.t[i].clone());
                    i += 1;
                }
                Ordering::Less => {
                    r.push(o.t[j].clone());
                    j += 1;
                }
                Ordering::Equal => {
                    let q = self.t[i].1.add(&o.t[j].1);
                    if !q.is_zero() {
                        r.push((self.t[i].0.clone(), q));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        Poly { t: r }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        self.add_raw(o).reduce_den()
    }
    pub fn neg(&self) -> Poly {
        Poly { t: self.t.iter().map(|(m, q)| (m.clone(), q.neg())).collect() }
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    pub fn scale(&self, c: &Q) -> Poly {
        if c.is_zero() {
            return Poly::zero();
        }
        Poly { t: self.t.iter().map(|(m, q)| (m.clone(), q.mul(c))).collect() }
    }
    /// product without root/denominator normalisation
    fn mul_plain(&self, o: &Poly) -> Poly {
        spend(self.t.len() * o.t.len(), 0);
        let mut t = Vec::with_capacity(self.t.len() * o.t.len());
        for (m, q) in &self.t {
            for (n, r) in &o.t {
                t.push((mono_mul(m, n), q.mul(r)));
            }
        }
        Poly::from_terms(t)
    }
    /// replace positive powers of Den atoms and out-of-range powers of Root
    /// atoms
    fn fix(self) -> Poly {
        let bad = |m: &Mono| {
            m.iter().position(|&(a, e)| match atom(a) {
                Atom::Den(_) => e > 0,
                Atom::Root(q, _) => e < 0 || e >= q as i32,
                _ => false,
            })
        };
        if !self.t.iter().any(|(m, _)| bad(m).is_some()) {
            return self;
        }
        let mut acc = Poly::zero();
        let mut good = vec![];
        for (m, q) in self.t {
            match bad(&m) {
                None => good.push((m, q)),
                Some(i) => {
                    let (a, e) = m[i];
                    let mut rest = m.clone();
                    let f = match atom(a) {
                        Atom::Den(p) => {
                            rest.remove(i);
                            get(p).pow(e)
                        }
                        Atom::Root(k, p) => {
                            let k = k as i32;
                            let r = e.rem_euclid(k);
                            let d = (e - r) / k;
                            if r == 0 {
                                rest.remove(i);
                            } else {
                                rest[i].1 = r;
                            }
                            get(p).pow(d)
                        }
                        _ => unreachable!(),
                    };
                    let one = Poly { t: vec![(rest, q)] };
                    acc = acc.add_raw(&one.mul_plain(&f).fix());
                }
            }
        }
        acc.add_raw(&Poly { t: good })
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if let Some(c) = self.as_const() {
            return o.scale(&c);
        }
        if let Some(c) = o.as_const() {
            return self.scale(&c);
        }
        self.mul_plain(o).fix().reduce_den()
    }
    /// product which keeps denominators un-normalised (used when clearing)
    pub fn mul_nored(&self, o: &Poly) -> Poly {
        self.mul_plain(o).fix()
    }
    pub fn pow(&self, e: i32) -> Poly {
        if e < 0 {
            return self.inv().pow(-e);
        }
        let mut r = Poly::int(1);
        for _ in 0..e {
            r = r.mul(self);
        }
        r
    }
    /// greatest common monomial (Laurent)
    pub fn content(&self) -> Mono {
        let mut ids: Vec<u32> = self.t.iter().flat_map(|(m, _)| m.iter().map(|x| x.0)).collect();
        ids.sort();
        ids.dedup();
        let mut r = vec![];
        for a in ids {
            let e = self
                .t
                .iter()
                .map(|(m, _)| m.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0))
                .min()
                .unwrap();
            if e != 0 {
                r.push((a, e));
            }
        }
        r
    }
    pub fn mono(m: Mono) -> Poly {
        Poly { t: vec![(m, Q::ONE)] }
    }
    fn inv_mono(m: &Mono) -> Poly {
        let im: Mono = m.iter().map(|&(a, e)| (a, -e)).collect();
        Poly::mono(im).fix().reduce_den()
    }
    /// 1/self; the caller has established self != 0 on this path
    pub fn inv(&self) -> Poly {
        assert!(!self.is_zero());
        if self.t.len() == 1 {
            let (m, q) = &self.t[0];
            return Poly::inv_mono(m).scale(&q.inv());
        }
        let c = self.content();
        // multiply out denominators / common factors
        let im: Mono = c.iter().map(|&(a, e)| (a, -e)).collect();
        let body = self.mul_nored(&Poly::mono(im.clone()));
        if body.t.len() == 1 {
            // collapsed (e.g. roots)
            return Poly::mono(im).mul(&body.inv());
        }
        if body.content().iter().any(|x| x.1 < 0) {
            return Poly::mono(im).fix().mul(&body.inv());
        }
        let lc = body.t[0].1.clone();
        let monic = body.scale(&lc.inv());
        let d = atom_id(Atom::Den(intern(monic)));
        Poly::inv_mono(&c).scale(&lc.inv()).mul(&Poly::mono(vec![(d, -1)]))
    }
    pub fn has_den(&self) -> bool {
        self.t.iter().any(|(m, _)| m.iter().any(|&(a, e)| e < 0 && matches!(atom(a), Atom::Den(_))))
    }
    /// polynomial division by the denominators that occur:
    /// every term t = lt(D)*u*D^-k is rewritten to (D - tail)*u*D^-k
    fn reduce_den(self) -> Poly {
        let mut dens: Vec<u32> = self
            .t
            .iter()
            .flat_map(|(m, _)| m.iter().filter(|x| x.1 < 0).map(|x| x.0))
            .filter(|&a| matches!(atom(a), Atom::Den(_)))
            .collect();
        if dens.is_empty() {
            return self;
        }
        dens.sort();
        dens.dedup();
        let mut p = self;
        let mut budget = 400;
        'outer: loop {
            for &d in &dens {
                let dp = match atom(d) {
                    Atom::Den(x) => get(x),
                    _ => unreachable!(),
                };
                let lt = &dp.t[0].0;
                let pos = p.t.iter().position(|(m, _)| {
                    m.iter().any(|x| x.0 == d)
                        && lt.iter().all(|&(a, e)| m.iter().any(|&(b, f)| a == b && f >= e))
                });
                if let Some(i) = pos {
                    if budget == 0 || p.t.len() > 300 {
                        return p;
                    }
                    budget -= 1;
                    let (m, q) = p.t[i].clone();
                    let ilt: Mono = lt.iter().map(|&(a, e)| (a, -e)).collect();
                    let u = mono_mul(&m, &ilt); // contains D^-k
                    // D*u  ->  u with exponent of D raised by one
                    let up = mono_mul(&u, &vec![(d, 1)]);
                    let mut tail = Poly { t: dp.t[1..].to_vec() };
                    tail = tail.mul_plain(&Poly { t: vec![(u, q.clone())] }).fix();
                    let mut t = p.t.clone();
                    t.remove(i);
                    p = Poly { t }.add_raw(&Poly { t: vec![(up, q)] }).add_raw(&tail.neg());
                    continue 'outer;
                }
            }
            return p;
        }
    }
    /// (numerator, denominator factors with positive exponents) such that
    /// self = numerator / prod(factors); numerator has no negative exponent
    pub fn clear(&self) -> (Poly, Mono) {
        let mut den: Mono = vec![];
        let mut num = self.clone();
        for _ in 0..50 {
            let c: Mono = num.content().into_iter().filter(|x| x.1 < 0).map(|(a, e)| (a, -e)).collect();
            if c.is_empty() {
                return (num, den);
            }
            den = mono_mul(&den, &c);
            num = num.mul_nored(&Poly::mono(c));
        }
        panic!("symrt: clearing denominators does not terminate");
    }
}

/// all atoms a polynomial depends on, including atoms inside atoms
pub fn closure(p: PId) -> Rc<Vec<u32>> {
    if let Some(c) = A.with(|a| a.borrow().closure.get(&p).cloned()) {
        return c;
    }
    let mut out = vec![];
    for (m, _) in &get(p).t {
        for &(a, _) in m {
            if out.contains(&a) {
                continue;
            }
            out.push(a);
            match atom(a) {
                Atom::Var(_) => {}
                Atom::Exp(x) | Atom::Ln(x) | Atom::Root(_, x) | Atom::Den(x) => {
                    for &b in closure(x).iter() {
                        if !out.contains(&b) {
                            out.push(b);
                        }
                    }
                }
            }
        }
    }
    out.sort();
    let r = Rc::new(out);
    A.with(|a| a.borrow_mut().closure.insert(p, r.clone()));
    r
}

/// outward rounding: covers the rounding of one operation and the error of
/// the mathematical library (a few units in the last place)
pub fn outward(lo: f64, hi: f64) -> Option<(f64, f64)> {
    out(lo, hi)
}
fn out(lo: f64, hi: f64) -> Option<(f64, f64)> {
    let w = |v: f64| v.abs() * 4e-15 + 1e-300;
    let (lo, hi) = (lo - w(lo), hi + w(hi));
    if lo.is_finite() && hi.is_finite() {
        Some((lo, hi))
    } else {
        None
    }
}
fn imul(a: (f64, f64), b: (f64, f64)) -> Option<(f64, f64)> {
    let v = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
    out(v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
}
/// rigorous enclosure of a polynomial without input variables
pub fn enclosure(p: &Poly) -> Option<(f64, f64)> {
    let mut s = (0.0, 0.0);
    for (m, q) in &p.t {
        let c = q.to_f64();
        let mut v = out(c, c)?;
        for &(a, e) in m {
            let x = atom_enclosure(a)?;
            let x = if e < 0 {
                if x.0 <= 0.0 && x.1 >= 0.0 {
                    return None;
                }
                out(1.0 / x.1, 1.0 / x.0)?
            } else {
                x
            };
            for _ in 0..e.abs() {
                v = imul(v, x)?;
            }
        }
        s = out(s.0 + v.0, s.1 + v.1)?;
    }
    Some(s)
}
fn atom_enclosure(a: u32) -> Option<(f64, f64)> {
    if let Some(r) = A.with(|x| x.borrow().ground.get(&a).copied()) {
        return r;
    }
    let r = (|| match atom(a) {
        Atom::Var(_) => None,
        Atom::Exp(p) => {
            let (l, h) = enclosure(&get(p))?;
            out(l.exp(), h.exp())
        }
        Atom::Ln(p) => {
            let (l, h) = enclosure(&get(p))?;
            if l <= 0.0 {
                return None;
            }
            let (l, h) = (l.ln(), h.ln());
            out(l - 1e-15, h + 1e-15)
        }
        Atom::Root(q, p) => {
            let (l, h) = enclosure(&get(p))?;
            if l < 0.0 {
                return None;
            }
            out(l.powf(1.0 / q as f64), h.powf(1.0 / q as f64))
        }
        Atom::Den(p) => enclosure(&get(p)),
    })();
    A.with(|x| x.borrow_mut().ground.insert(a, r));
    r
}

/// p as a sum of (constant without input variables) * (polynomial whose
/// coefficients are rational); proportional constants are merged
pub fn ground_groups(p: &Poly) -> Vec<(Poly, Poly)> {
    let mut by: Vec<(Mono, Poly)> = vec![];
    let mut terms: Vec<Vec<(Mono, Q)>> = vec![];
    let mut place: HashMap<Mono, usize> = HashMap::new();
    for (m, q) in &p.t {
        let (g, r): (Mono, Mono) =
            m.iter().cloned().partition(|&(a, _)| !matches!(atom(a), Atom::Var(_)) && atom_enclosure(a).is_some());
        let i = *place.entry(r).or_insert_with_key(|r| {
            by.push((r.clone(), Poly::zero()));
            terms.push(vec![]);
            by.len() - 1
        });
        terms[i].push((g, q.clone()));
    }
    for (x, t) in by.iter_mut().zip(terms) {
        x.1 = Poly::from_terms(t);
    }
    let mut out: Vec<(Poly, Poly)> = vec![];
    for (r, g) in by {
        if g.is_zero() {
            continue;
        }
        let lead = g.t[0].1.clone();
        let g = g.scale(&Q::ONE.div(&lead));
        let r = Poly { t: vec![(r, lead)] };
        match out.iter_mut().find(|x| x.0 == g) {
            Some(x) => x.1 = x.1.add_raw(&r),
            None => out.push((g, r)),
        }
    }
    out
}

/// sign-equivalent polynomial in which every monomial carries at most one
/// exponential (products of exponentials are merged and a common one dropped)
pub fn collapse(p: PId) -> PId {
    if let Some(r) = A.with(|x| x.borrow().collapsed.get(&p).copied()) {
        return r;
    }
    let pl = get(p);
    let mut parts: Vec<(Mono, Q, Poly)> = vec![];
    let mut many = false;
    for (m, q) in &pl.t {
        let mut rest = vec![];
        let mut arg = Poly::zero();
        let mut k = 0;
        for &(a, e) in m {
            match atom(a) {
                Atom::Exp(x) => {
                    arg = arg.add_raw(&get(x).scale(&Q::int(e as i128)));
                    k += e.abs();
                }
                _ => rest.push((a, e)),
            }
        }
        many |= k > 1;
        parts.push((rest, q.clone(), arg));
    }
    let mut r = p;
    if many {
        let mut best: Option<(usize, usize)> = None;
        for i in 0..parts.len() {
            let mut args: Vec<Poly> = vec![];
            let mut size = 0;
            for x in &parts {
                let a = x.2.add_raw(&parts[i].2.neg());
                if !a.is_zero() && !args.contains(&a) {
                    size += 4 + a.t.len();
                    args.push(a);
                }
            }
            if best.map_or(true, |b| size < b.0) {
                best = Some((size, i));
            }
        }
        let d = parts[best.unwrap().1].2.neg();
        let mut s = Poly::zero();
        for (m, q, arg) in &parts {
            let a = arg.add_raw(&d);
            let mut t = Poly { t: vec![(m.clone(), q.clone())] };
            if !a.is_zero() {
                t = t.mul_nored(&Poly::atom(atom_id(Atom::Exp(intern(a)))));
            }
            s = s.add_raw(&t);
        }
        r = intern(s);
    }
    A.with(|x| x.borrow_mut().collapsed.insert(p, r));
    r
}

/// numeric evaluation with IEEE doubles
pub fn eval(p: &Poly, env: &dyn Fn(&str) -> f64) -> f64 {
    let mut cache = HashMap::new();
    eval_c(p, env, &mut cache)
}
fn eval_c(p: &Poly, env: &dyn Fn(&str) -> f64, cache: &mut HashMap<u32, f64>) -> f64 {
    let mut s = 0.0;
    for (m, q) in &p.t {
        let mut v = q.to_f64();
        for &(a, e) in m {
            v *= eval_atom(a, env, cache).powi(e);
        }
        s += v;
    }
    s
}
fn eval_atom(a: u32, env: &dyn Fn(&str) -> f64, cache: &mut HashMap<u32, f64>) -> f64 {
    if let Some(v) = cache.get(&a) {
        return *v;
    }
    let v = match atom(a) {
        Atom::Var(n) => env(&n),
        Atom::Exp(p) => eval_c(&get(p), env, cache).exp(),
        Atom::Ln(p) => eval_c(&get(p), env, cache).ln(),
        Atom::Root(q, p) => eval_c(&get(p), env, cache).powf(1.0 / q as f64),
        Atom::Den(p) => eval_c(&get(p), env, cache),
    };
    cache.insert(a, v);
    v
}
pub fn eval_atom_pub(a: u32, env: &dyn Fn(&str) -> f64) -> f64 {
    eval_atom(a, env, &mut HashMap::new())
}

pub fn show(p: &Poly) -> String {
    if p.t.is_empty() {
        return "0".into();
    }
    p.t.iter()
        .map(|(m, q)| {
            let mut s = format!("{}", q.to_f64());
            for &(a, e) in m {
                s += &format!("*{}", show_atom(a));
                if e != 1 {
                    s += &format!("^{e}");
                }
            }
            s
        })
        .collect::<Vec<_>>()
        .join(" + ")
}
pub fn show_atom(a: u32) -> String {
    match atom(a) {
        Atom::Var(n) => n,
        Atom::Exp(p) => format!("exp({})", show(&get(p))),
        Atom::Ln(p) => format!("ln({})", show(&get(p))),
        Atom::Root(q, p) => format!("root{q}({})", show(&get(p))),
        Atom::Den(p) => format!("[{}]", show(&get(p))),
    }
}
