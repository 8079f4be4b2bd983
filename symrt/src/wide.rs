//! Enclosures of constants with 256 binary digits after the point: nested
//! roots whose difference a pair of floats cannot tell from zero.
use crate::poly::*;
use crate::rat::{Big, Q};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;

const K: usize = 8;

/// lo / 2^256 <= value <= hi / 2^256
#[derive(Clone)]
struct W {
    lo: Big,
    hi: Big,
}

thread_local!(static ATOMS: RefCell<HashMap<u32, Option<W>>> = RefCell::new(HashMap::new()));

/// atoms are numbered anew
pub fn reset() {
    ATOMS.with(|a| a.borrow_mut().clear());
}

fn ceil_shr(x: &Big) -> Big {
    x.neg().shr_floor(K).neg()
}
fn ceil_div(a: &Big, b: &Big) -> Big {
    a.neg().div_floor(b).neg()
}
fn of_q(q: &Q) -> W {
    let (n, d) = q.big();
    let n = n.shl(K);
    W { lo: n.div_floor(&d), hi: ceil_div(&n, &d) }
}
fn min_max(v: [Big; 4]) -> (Big, Big) {
    let mut lo = v[0].clone();
    let mut hi = v[0].clone();
    for x in &v[1..] {
        if x.cmp(&lo) == Ordering::Less {
            lo = x.clone();
        }
        if x.cmp(&hi) == Ordering::Greater {
            hi = x.clone();
        }
    }
    (lo, hi)
}
impl W {
    fn add(&self, o: &W) -> W {
        W { lo: self.lo.add(&o.lo), hi: self.hi.add(&o.hi) }
    }
    fn mul(&self, o: &W) -> W {
        let (lo, hi) = min_max([self.lo.mul(&o.lo), self.lo.mul(&o.hi), self.hi.mul(&o.lo), self.hi.mul(&o.hi)]);
        W { lo: lo.shr_floor(K), hi: ceil_shr(&hi) }
    }
    fn inv(&self) -> Option<W> {
        let one = Big::from_i128(1).shl(2 * K);
        if self.lo.sign() > 0 {
            Some(W { lo: one.div_floor(&self.hi), hi: ceil_div(&one, &self.lo) })
        } else if self.hi.sign() < 0 {
            let m = W { lo: self.hi.neg(), hi: self.lo.neg() }.inv()?;
            Some(W { lo: m.hi.neg(), hi: m.lo.neg() })
        } else {
            None
        }
    }
    fn sqrt(&self) -> Option<W> {
        if self.lo.sign() < 0 {
            return None;
        }
        Some(W { lo: self.lo.shl(K).isqrt(), hi: self.hi.shl(K).isqrt().add(&Big::from_i128(1)) })
    }
    fn small(n: i128, d: i128) -> W {
        of_q(&Q::new(n, d))
    }
    fn neg(&self) -> W {
        W { lo: self.hi.neg(), hi: self.lo.neg() }
    }
    /// widened by r on both sides
    fn widen(&self, r: &Big) -> W {
        W { lo: self.lo.add(&r.neg()), hi: self.hi.add(r) }
    }
    fn size(&self) -> Big {
        let (a, b) = (self.lo.neg(), self.hi.clone());
        if a.cmp(&b) == Ordering::Greater {
            a
        } else {
            b
        }
    }
    fn exp(&self) -> Option<W> {
        let mut s = 0;
        let half = Big::from_i128(1).shl(K).div_floor(&Big::from_i128(2));
        let mut x = self.clone();
        while x.size().cmp(&half) == Ordering::Greater {
            if s == 10 {
                return None;
            }
            x = x.mul(&W::small(1, 2));
            s += 1;
        }
        let mut term = W::small(1, 1);
        let mut sum = term.clone();
        for k in 1..=70 {
            term = term.mul(&x).mul(&W::small(1, k));
            sum = sum.add(&term);
        }
        // |x| <= 1/2: what is left is at most the last term
        let mut r = sum.widen(&term.size().add(&Big::from_i128(1)));
        for _ in 0..s {
            r = r.mul(&r);
        }
        Some(r)
    }
    fn floats(&self) -> Option<(f64, f64)> {
        let one = Big::from_i128(1).shl(K);
        let f = |b: &Big| Q::from_big(b.clone(), one.clone()).to_f64();
        outward(f(&self.lo), f(&self.hi))
    }
}

/// 2 artanh(z), |z| <= 1/3
fn artanh2(z: &W) -> W {
    let zz = z.mul(z);
    let mut pow = z.clone();
    let mut sum = z.clone();
    for k in 1..=90 {
        pow = pow.mul(&zz);
        sum = sum.add(&pow.mul(&W::small(1, 2 * k + 1)));
    }
    // the rest is at most z^183 / 183 / (1 - 1/9), less than the last power
    sum.widen(&pow.size().add(&Big::from_i128(1))).mul(&W::small(2, 1))
}
/// logarithm of v / 2^256
fn ln(v: &Big) -> Option<W> {
    if v.sign() <= 0 {
        return None;
    }
    let mut x = W { lo: v.clone(), hi: v.clone() };
    let mut k = 0;
    let (big, small) = (W::small(3, 2), W::small(3, 4));
    while x.hi.cmp(&big.hi) == Ordering::Greater {
        if k > 200 {
            return None;
        }
        x = x.mul(&W::small(1, 2));
        k += 1;
    }
    while x.lo.cmp(&small.lo) == Ordering::Less {
        if k < -200 {
            return None;
        }
        x = x.mul(&W::small(2, 1));
        k -= 1;
    }
    let one = W::small(1, 1);
    let z = x.add(&one.neg()).mul(&x.add(&one).inv()?);
    let ln2 = artanh2(&W::small(1, 3));
    Some(artanh2(&z).add(&ln2.mul(&W::small(k, 1))))
}

fn atom_wide(a: u32) -> Option<W> {
    if let Some(r) = ATOMS.with(|x| x.borrow().get(&a).cloned()) {
        return r;
    }
    let r = (|| match atom(a) {
        Atom::Var(_) => None,
        Atom::Exp(p) => poly_wide(&get(p))?.exp(),
        Atom::Ln(p) => {
            let w = poly_wide(&get(p))?;
            Some(W { lo: ln(&w.lo)?.lo, hi: ln(&w.hi)?.hi })
        }
        Atom::Root(q, p) => {
            if !q.is_power_of_two() {
                return None;
            }
            let mut w = poly_wide(&get(p))?;
            let mut q = q;
            while q > 1 {
                w = w.sqrt()?;
                q /= 2;
            }
            Some(w)
        }
        Atom::Den(p) => poly_wide(&get(p)),
    })();
    ATOMS.with(|x| x.borrow_mut().insert(a, r.clone()));
    r
}
fn poly_wide(p: &Poly) -> Option<W> {
    let mut s = W { lo: Big::from_i128(0), hi: Big::from_i128(0) };
    for (m, q) in &p.t {
        let mut v = of_q(q);
        for &(a, e) in m {
            let x = atom_wide(a)?;
            let x = if e < 0 { x.inv()? } else { x };
            for _ in 0..e.abs() {
                v = v.mul(&x);
            }
        }
        s = s.add(&v);
    }
    Some(s)
}
/// rigorous enclosure of a polynomial without input variables
pub fn enclosure_wide(p: &Poly) -> Option<(f64, f64)> {
    poly_wide(p)?.floats()
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn functions() {
        for v in [0.001, 0.3, 0.75, 1.0, 1.5, 2.0, 10.0, 12345.678] {
            let w = of_q(&Q::from_f64(v));
            let l = W { lo: ln(&w.lo).unwrap().lo, hi: ln(&w.hi).unwrap().hi };
            let f = l.floats().unwrap();
            let true_ln = f64::ln(v);
            assert!(f.0 <= true_ln && true_ln <= f.1 && f.1 - f.0 < 1e-12, "{v} {f:?}");
            // exp(ln(v)) encloses v and is narrow
            let e = l.exp().unwrap();
            assert!(e.lo.cmp(&w.lo) != Ordering::Greater && e.hi.cmp(&w.hi) != Ordering::Less);
            let d = W { lo: e.lo.add(&e.hi.neg()).neg(), hi: e.hi.add(&e.lo.neg()) }.floats().unwrap();
            assert!(d.1 < 1e-65, "{d:?}");
            let s = w.sqrt().unwrap();
            let s = s.mul(&s);
            assert!(s.lo.cmp(&w.lo) != Ordering::Greater && s.hi.cmp(&w.hi) != Ordering::Less);
            let i = w.inv().unwrap().mul(&w);
            let one = W::small(1, 1);
            assert!(i.lo.cmp(&one.lo) != Ordering::Greater && i.hi.cmp(&one.hi) != Ordering::Less);
            if v < 11.0 {
                let m = w.neg().exp().unwrap().floats().unwrap();
                assert!((m.0 - (-v).exp()).abs() < 1e-13);
            }
        }
    }
}
