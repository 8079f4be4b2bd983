//! Quantifier free formulas over polynomial sign conditions.
use crate::poly::PId;

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;

#[derive(Clone, Debug, PartialEq)]
pub enum B {
    T,
    F,
    /// sign(poly) in mask; the poly has no negative exponents
    L(PId, u8),
    And(Vec<B>),
    Or(Vec<B>),
}

impl B {
    pub fn not(&self) -> B {
        match self {
            B::T => B::F,
            B::F => B::T,
            B::L(p, m) => B::L(*p, 7 & !*m),
            B::And(v) => B::Or(v.iter().map(|b| b.not()).collect()),
            B::Or(v) => B::And(v.iter().map(|b| b.not()).collect()),
        }
    }
    pub fn and(v: Vec<B>) -> B {
        let mut r = vec![];
        for b in v {
            match b {
                B::T => {}
                B::F => return B::F,
                B::And(w) => r.extend(w),
                b => r.push(b),
            }
        }
        match r.len() {
            0 => B::T,
            1 => r.pop().unwrap(),
            _ => B::And(r),
        }
    }
    pub fn or(v: Vec<B>) -> B {
        let mut r = vec![];
        for b in v {
            match b {
                B::F => {}
                B::T => return B::T,
                B::Or(w) => r.extend(w),
                b => r.push(b),
            }
        }
        match r.len() {
            0 => B::F,
            1 => r.pop().unwrap(),
            _ => B::Or(r),
        }
    }
    pub fn polys(&self, out: &mut Vec<PId>) {
        match self {
            B::T | B::F => {}
            B::L(p, _) => {
                if !out.contains(p) {
                    out.push(*p)
                }
            }
            B::And(v) | B::Or(v) => v.iter().for_each(|b| b.polys(out)),
        }
    }
}

impl From<bool> for B {
    fn from(b: bool) -> B {
        if b {
            B::T
        } else {
            B::F
        }
    }
}
