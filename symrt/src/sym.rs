//! `Sym`: the stand-in for `f64`.  Extended reals: finite symbolic terms plus
//! +inf, -inf and NaN.
use crate::engine::{self, abort, decide, Abort, ObsVal};
use crate::form::*;
use crate::poly::{self, get, intern, PId, Poly};
use crate::rat::Q;
use std::cmp::Ordering;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;

type R = core::primitive::f64;

#[derive(Clone, Copy)]
enum S {
    Lit(R),
    Fin(PId),
    Inf(bool), // negative?
    Nan,
}

#[derive(Clone, Copy)]
pub struct Sym(S);

enum V {
    Fin(std::rc::Rc<Poly>),
    Inf(bool),
    Nan,
}

pub const fn lit(v: R) -> Sym {
    Sym(S::Lit(v))
}

fn fin(p: Poly) -> Sym {
    Sym(S::Fin(intern(p)))
}

impl Sym {
    pub const MAX: Sym = lit(R::MAX);
    pub const MIN: Sym = lit(R::MIN);
    pub const EPSILON: Sym = lit(R::EPSILON);
    pub const INFINITY: Sym = Sym(S::Inf(false));
    pub const NEG_INFINITY: Sym = Sym(S::Inf(true));
    pub const NAN: Sym = Sym(S::Nan);
    pub const MIN_POSITIVE: Sym = lit(R::MIN_POSITIVE);

    pub const fn raw(self) -> R {
        match self.0 {
            S::Lit(v) => v,
            S::Inf(n) => {
                if n {
                    R::NEG_INFINITY
                } else {
                    R::INFINITY
                }
            }
            S::Nan => R::NAN,
            S::Fin(_) => panic!("symrt: raw() of a symbolic value"),
        }
    }
    fn v(self) -> V {
        match self.0 {
            S::Lit(v) => {
                if v.is_nan() {
                    V::Nan
                } else if v.is_infinite() {
                    V::Inf(v < 0.0)
                } else {
                    V::Fin(std::rc::Rc::new(Poly::c(Q::from_f64(v))))
                }
            }
            S::Fin(p) => V::Fin(get(p)),
            S::Inf(n) => V::Inf(n),
            S::Nan => V::Nan,
        }
    }
    pub fn from_poly(p: Poly) -> Sym {
        fin(p)
    }
    pub fn pid(self) -> Option<PId> {
        match self.v() {
            V::Fin(p) => Some(intern((*p).clone())),
            _ => None,
        }
    }
    /// the polynomial, for finite values
    pub fn poly(self) -> Option<Poly> {
        match self.v() {
            V::Fin(p) => Some((*p).clone()),
            _ => None,
        }
    }
    pub fn from_pid(p: PId) -> Sym {
        Sym(S::Fin(p))
    }
    pub fn obs(self) -> ObsVal {
        match self.v() {
            V::Fin(p) => ObsVal::P(intern((*p).clone())),
            V::Inf(n) => ObsVal::C(if n { R::NEG_INFINITY } else { R::INFINITY }),
            V::Nan => ObsVal::C(R::NAN),
        }
    }
    pub fn const_val(self) -> Option<R> {
        match self.v() {
            V::Fin(p) => p.as_const().map(|q| q.to_f64()),
            V::Inf(n) => Some(if n { R::NEG_INFINITY } else { R::INFINITY }),
            V::Nan => Some(R::NAN),
        }
    }

    /// formula for `self ? other` where mask is the set of allowed signs of
    /// `self - other`
    pub fn rel(self, o: Sym, mask: u8) -> B {
        match (self.v(), o.v()) {
            (V::Nan, _) | (_, V::Nan) => B::F,
            (V::Inf(a), V::Inf(b)) => {
                let s = if a == b {
                    ZERO
                } else if a {
                    NEG
                } else {
                    POS
                };
                B::from(s & mask != 0)
            }
            (V::Inf(n), _) => B::from((if n { NEG } else { POS }) & mask != 0),
            (_, V::Inf(n)) => B::from((if n { POS } else { NEG }) & mask != 0),
            (V::Fin(a), V::Fin(b)) => engine::lit(&a.sub(&b), mask),
        }
    }
    fn is(self, mask: u8) -> bool {
        decide(&self.rel(lit(0.0), mask))
    }

    pub fn abs(self) -> Sym {
        if self.is_nan() {
            return self;
        }
        if self.is(POS | ZERO) {
            self
        } else {
            -self
        }
    }
    pub fn signum(self) -> Sym {
        if self.is_nan() {
            return self;
        }
        if self.is(POS | ZERO) {
            lit(1.0)
        } else {
            lit(-1.0)
        }
    }
    pub fn max(self, o: Sym) -> Sym {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if decide(&self.rel(o, POS | ZERO)) {
            self
        } else {
            o
        }
    }
    pub fn min(self, o: Sym) -> Sym {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if decide(&self.rel(o, NEG | ZERO)) {
            self
        } else {
            o
        }
    }
    pub fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        assert!(lo <= hi);
        if self < lo {
            lo
        } else if self > hi {
            hi
        } else {
            self
        }
    }
    pub fn is_nan(self) -> bool {
        matches!(self.v(), V::Nan)
    }
    pub fn is_infinite(self) -> bool {
        matches!(self.v(), V::Inf(_))
    }
    pub fn is_finite(self) -> bool {
        matches!(self.v(), V::Fin(_))
    }
    pub fn is_normal(self) -> bool {
        self.is_finite() && self.is(POS | NEG)
    }
    pub fn is_sign_negative(self) -> bool {
        !self.is_nan() && self.is(NEG)
    }
    pub fn is_sign_positive(self) -> bool {
        !self.is_nan() && self.is(POS | ZERO)
    }
    pub fn recip(self) -> Sym {
        lit(1.0) / self
    }
    pub fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    pub fn hypot(self, o: Sym) -> Sym {
        (self * self + o * o).sqrt()
    }
    pub fn copysign(self, s: Sym) -> Sym {
        self.abs() * s.signum()
    }
    pub fn powi(self, n: i32) -> Sym {
        match self.v() {
            V::Nan => {
                if n == 0 {
                    lit(1.0)
                } else {
                    self
                }
            }
            V::Inf(neg) => match n.cmp(&0) {
                Ordering::Equal => lit(1.0),
                Ordering::Less => lit(0.0),
                Ordering::Greater => Sym(S::Inf(neg && n % 2 != 0)),
            },
            V::Fin(p) => {
                if n >= 0 {
                    return fin(p.pow(n));
                }
                lit(1.0) / fin(p.pow(-n))
            }
        }
    }
    pub fn powf(self, e: Sym) -> Sym {
        if let V::Fin(q) = e.v() {
            if let Some(c) = q.as_const() {
                if let Some((n, d)) = c.small() {
                    if d == 1 && n.abs() <= 64 {
                        return self.powi(n as i32);
                    }
                }
            }
        }
        if self.is_nan() || e.is_nan() {
            return Sym::NAN;
        }
        if self.is(ZERO) {
            if e.is(POS) {
                return lit(0.0);
            }
            if e.is(ZERO) {
                return lit(1.0);
            }
            return Sym::INFINITY;
        }
        if self.is(NEG) {
            if e.is(ZERO) {
                return lit(1.0);
            }
            return Sym::NAN;
        }
        (e * self.ln()).exp()
    }
    pub fn sqrt(self) -> Sym {
        match self.v() {
            V::Nan => self,
            V::Inf(n) => {
                if n {
                    Sym::NAN
                } else {
                    self
                }
            }
            V::Fin(p) => {
                if self.is(ZERO) {
                    return lit(0.0);
                }
                if self.is(NEG) {
                    return Sym::NAN;
                }
                fin(engine::root_poly(2, &p))
            }
        }
    }
    pub fn cbrt(self) -> Sym {
        match self.v() {
            V::Fin(p) => {
                if self.is(ZERO) {
                    return lit(0.0);
                }
                if self.is(NEG) {
                    return -((-self).cbrt());
                }
                fin(engine::root_poly(3, &p))
            }
            _ => self,
        }
    }
    pub fn exp(self) -> Sym {
        match self.v() {
            V::Nan => self,
            V::Inf(n) => {
                if n {
                    lit(0.0)
                } else {
                    self
                }
            }
            V::Fin(p) => fin(engine::exp_poly(&p)),
        }
    }
    pub fn exp2(self) -> Sym {
        (self * lit(2.0).ln()).exp()
    }
    pub fn exp_m1(self) -> Sym {
        self.exp() - lit(1.0)
    }
    pub fn ln(self) -> Sym {
        match self.v() {
            V::Nan => self,
            V::Inf(n) => {
                if n {
                    Sym::NAN
                } else {
                    self
                }
            }
            V::Fin(p) => {
                if self.is(ZERO) {
                    return Sym::NEG_INFINITY;
                }
                if self.is(NEG) {
                    return Sym::NAN;
                }
                fin(engine::ln_poly(&p))
            }
        }
    }
    pub fn ln_1p(self) -> Sym {
        (self + lit(1.0)).ln()
    }
    pub fn log(self, b: Sym) -> Sym {
        self.ln() / b.ln()
    }
    pub fn log2(self) -> Sym {
        self.ln() / lit(2.0).ln()
    }
    pub fn log10(self) -> Sym {
        self.ln() / lit(10.0).ln()
    }
    pub fn tanh(self) -> Sym {
        match self.v() {
            V::Inf(n) => lit(if n { -1.0 } else { 1.0 }),
            V::Nan => self,
            _ => {
                let e = (self * lit(2.0)).exp();
                (e - lit(1.0)) / (e + lit(1.0))
            }
        }
    }
    pub fn cosh(self) -> Sym {
        (self.exp() + (-self).exp()) / lit(2.0)
    }
    pub fn sinh(self) -> Sym {
        (self.exp() - (-self).exp()) / lit(2.0)
    }
    fn int(self) -> Option<i64> {
        match self.v() {
            V::Fin(p) => Some(match p.as_const() {
                Some(q) => match q.small() {
                    Some((n, d)) => (n / d).clamp(i64::MIN as i128, i64::MAX as i128) as i64,
                    None => q.to_f64() as i64,
                },
                None => engine::concretize(&p),
            }),
            _ => None,
        }
    }
    pub fn trunc(self) -> Sym {
        match self.const_val() {
            Some(v) if v.abs() > 1e15 || !v.is_finite() => return self,
            _ => {}
        }
        match self.int() {
            Some(i) => fin(Poly::int(i as i128)),
            None => self,
        }
    }
    pub fn floor(self) -> Sym {
        let t = self.trunc();
        if !self.is_finite() {
            return self;
        }
        if t > self {
            t - lit(1.0)
        } else {
            t
        }
    }
    pub fn ceil(self) -> Sym {
        -((-self).floor())
    }
    pub fn round(self) -> Sym {
        if !self.is_finite() {
            return self;
        }
        if self.is(POS | ZERO) {
            (self + lit(0.5)).floor()
        } else {
            -((-self + lit(0.5)).floor())
        }
    }
    pub fn fract(self) -> Sym {
        self - self.trunc()
    }
    pub fn rem_euclid(self, o: Sym) -> Sym {
        let r = self % o;
        if r < lit(0.0) {
            r + o.abs()
        } else {
            r
        }
    }
    pub fn total_cmp(&self, o: &Sym) -> Ordering {
        match (self.is_nan(), o.is_nan()) {
            (true, true) => Ordering::Equal,
            (true, false) => Ordering::Greater,
            (false, true) => Ordering::Less,
            _ => self.partial_cmp(o).unwrap(),
        }
    }
    pub fn to_bits(self) -> u64 {
        match self.const_val() {
            Some(v) => v.to_bits(),
            None => abort(Abort::Unsupported("f64::to_bits of a symbolic value".into())),
        }
    }
    pub fn from_bits(v: u64) -> Sym {
        lit(R::from_bits(v))
    }
    pub fn to_degrees(self) -> Sym {
        self * lit(180.0 / std::f64::consts::PI)
    }
    pub fn to_radians(self) -> Sym {
        self * lit(std::f64::consts::PI / 180.0)
    }
    fn unsup(self, f: fn(R) -> R, n: &str) -> Sym {
        match self.const_val() {
            Some(v) => lit(f(v)),
            None => abort(Abort::Unsupported(format!("f64::{n} of a symbolic value"))),
        }
    }
    pub fn sin(self) -> Sym {
        self.unsup(R::sin, "sin")
    }
    pub fn cos(self) -> Sym {
        self.unsup(R::cos, "cos")
    }
    pub fn tan(self) -> Sym {
        self.unsup(R::tan, "tan")
    }
    pub fn atan(self) -> Sym {
        self.unsup(R::atan, "atan")
    }
    pub fn asin(self) -> Sym {
        self.unsup(R::asin, "asin")
    }
    pub fn acos(self) -> Sym {
        self.unsup(R::acos, "acos")
    }
    pub fn atan2(self, o: Sym) -> Sym {
        match (self.const_val(), o.const_val()) {
            (Some(a), Some(b)) => lit(a.atan2(b)),
            _ => abort(Abort::Unsupported("f64::atan2 of a symbolic value".into())),
        }
    }
    pub fn atanh(self) -> Sym {
        ((lit(1.0) + self) / (lit(1.0) - self)).ln() / lit(2.0)
    }
    pub fn asinh(self) -> Sym {
        let a = self.abs();
        (a + (a * a + lit(1.0)).sqrt()).ln().copysign(self)
    }
    pub fn acosh(self) -> Sym {
        (self + (self * self - lit(1.0)).sqrt()).ln()
    }
    pub fn midpoint(self, o: Sym) -> Sym {
        (self + o) / lit(2.0)
    }
    pub fn div_euclid(self, o: Sym) -> Sym {
        let q = (self / o).trunc();
        if self % o < lit(0.0) {
            if o > lit(0.0) {
                q - lit(1.0)
            } else {
                q + lit(1.0)
            }
        } else {
            q
        }
    }
}

fn add(a: Sym, b: Sym) -> Sym {
    match (a.v(), b.v()) {
        (V::Nan, _) | (_, V::Nan) => Sym::NAN,
        (V::Inf(x), V::Inf(y)) => {
            if x == y {
                Sym(S::Inf(x))
            } else {
                Sym::NAN
            }
        }
        (V::Inf(x), _) | (_, V::Inf(x)) => Sym(S::Inf(x)),
        (V::Fin(p), V::Fin(q)) => fin(p.add(&q)),
    }
}
fn neg(a: Sym) -> Sym {
    match a.v() {
        V::Nan => a,
        V::Inf(x) => Sym(S::Inf(!x)),
        V::Fin(p) => fin(p.neg()),
    }
}
fn mul(a: Sym, b: Sym) -> Sym {
    match (a.v(), b.v()) {
        (V::Nan, _) | (_, V::Nan) => Sym::NAN,
        (V::Inf(x), V::Inf(y)) => Sym(S::Inf(x != y)),
        (V::Inf(x), V::Fin(_)) => inf_mul(x, b),
        (V::Fin(_), V::Inf(x)) => inf_mul(x, a),
        (V::Fin(p), V::Fin(q)) => fin(p.mul(&q)),
    }
}
fn inf_mul(neg: bool, f: Sym) -> Sym {
    if f.is(ZERO) {
        return Sym::NAN;
    }
    if f.is(POS) {
        Sym(S::Inf(neg))
    } else {
        Sym(S::Inf(!neg))
    }
}
fn div(a: Sym, b: Sym) -> Sym {
    match (a.v(), b.v()) {
        (V::Nan, _) | (_, V::Nan) => Sym::NAN,
        (V::Inf(_), V::Inf(_)) => Sym::NAN,
        (V::Inf(x), V::Fin(_)) => {
            if b.is(NEG) {
                Sym(S::Inf(!x))
            } else {
                Sym(S::Inf(x))
            }
        }
        (V::Fin(_), V::Inf(_)) => lit(0.0),
        (V::Fin(p), V::Fin(q)) => {
            if let Some(c) = q.as_const() {
                if !c.is_zero() {
                    return fin(p.scale(&c.inv()));
                }
            }
            if b.is(ZERO) {
                // IEEE with a positive zero divisor
                if a.is(ZERO) {
                    return Sym::NAN;
                }
                return Sym(S::Inf(a.is(NEG)));
            }
            if p.is_zero() {
                return lit(0.0);
            }
            fin(p.mul(&q.inv()))
        }
    }
}
fn rem(a: Sym, b: Sym) -> Sym {
    if !a.is_finite() || b.is_nan() {
        return Sym::NAN;
    }
    if b.is_infinite() {
        return a;
    }
    let t = (a / b).trunc();
    a - t * b
}

macro_rules! bin {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident, $f:ident) => {
        impl $tr<Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                $f(self, o)
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &'a Sym) -> Sym {
                $f(self, *o)
            }
        }
        impl<'a> $tr<Sym> for &'a Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                $f(*self, o)
            }
        }
        impl<'a, 'b> $tr<&'b Sym> for &'a Sym {
            type Output = Sym;
            fn $m(self, o: &'b Sym) -> Sym {
                $f(*self, *o)
            }
        }
        impl $tra<Sym> for Sym {
            fn $ma(&mut self, o: Sym) {
                *self = $f(*self, o);
            }
        }
        impl<'a> $tra<&'a Sym> for Sym {
            fn $ma(&mut self, o: &'a Sym) {
                *self = $f(*self, *o);
            }
        }
    };
}
fn sub(a: Sym, b: Sym) -> Sym {
    add(a, neg(b))
}
bin!(Add, add, AddAssign, add_assign, add);
bin!(Sub, sub, SubAssign, sub_assign, sub);
bin!(Mul, mul, MulAssign, mul_assign, mul);
bin!(Div, div, DivAssign, div_assign, div);
bin!(Rem, rem, RemAssign, rem_assign, rem);
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        neg(self)
    }
}
impl Neg for &Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        neg(*self)
    }
}

impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        decide(&self.rel(*o, ZERO))
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if self.is_nan() || o.is_nan() {
            return None;
        }
        if decide(&self.rel(*o, NEG)) {
            return Some(Ordering::Less);
        }
        if decide(&self.rel(*o, POS)) {
            return Some(Ordering::Greater);
        }
        Some(Ordering::Equal)
    }
    fn lt(&self, o: &Sym) -> bool {
        decide(&self.rel(*o, NEG))
    }
    fn le(&self, o: &Sym) -> bool {
        decide(&self.rel(*o, NEG | ZERO))
    }
    fn gt(&self, o: &Sym) -> bool {
        decide(&self.rel(*o, POS))
    }
    fn ge(&self, o: &Sym) -> bool {
        decide(&self.rel(*o, POS | ZERO))
    }
}
impl Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(lit(0.0), |a, b| a + b)
    }
}
impl<'a> Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(lit(0.0), |a, b| a + b)
    }
}
impl Product for Sym {
    fn product<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(lit(1.0), |a, b| a * b)
    }
}
impl<'a> Product<&'a Sym> for Sym {
    fn product<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(lit(1.0), |a, b| a * b)
    }
}
impl Default for Sym {
    fn default() -> Sym {
        lit(0.0)
    }
}
impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.const_val() {
            Some(v) => fmt::Display::fmt(&v, f),
            None => match self.0 {
                // (a precision would cut the text off)
                S::Fin(p) => write!(f, "{:>1$}", format!("${p}"), f.width().unwrap_or(0)),
                _ => f.write_str("?"),
            },
        }
    }
}
impl fmt::LowerExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.const_val() {
            Some(v) => fmt::LowerExp::fmt(&v, f),
            None => fmt::Display::fmt(self, f),
        }
    }
}
impl std::str::FromStr for Sym {
    type Err = std::num::ParseFloatError;
    fn from_str(s: &str) -> Result<Sym, Self::Err> {
        if let Some(t) = s.strip_prefix('$') {
            if let Ok(p) = t.parse::<u32>() {
                return Ok(Sym::from_pid(p));
            }
        }
        if let Some(t) = s.strip_prefix("-$").or_else(|| s.strip_prefix("+$")) {
            if let Ok(p) = t.parse::<u32>() {
                let v = Sym::from_pid(p);
                return Ok(if s.starts_with('-') { -v } else { v });
            }
        }
        s.parse::<R>().map(lit)
    }
}
macro_rules! from {
    ($($t:ty),*) => {$(
        impl From<$t> for Sym {
            fn from(v: $t) -> Sym {
                v.cast()
            }
        }
    )*};
}
from!(u8, u16, u32, i8, i16, i32, bool);
impl From<R> for Sym {
    fn from(v: R) -> Sym {
        lit(v)
    }
}

// ------------------------------------------------------------------- casts --

pub trait CastTo<T> {
    fn cast(self) -> T;
}
pub fn cast_to<T, F: CastTo<T>>(v: F) -> T {
    v.cast()
}
macro_rules! int_casts {
    ($($a:ty),*) => { $( int_casts!(@one $a; usize, u8, u16, u32, u64, u128, isize, i8, i16, i32, i64, i128);
        impl CastTo<Sym> for $a {
            fn cast(self) -> Sym {
                fin(Poly::c(Q::int(self as i128)))
            }
        }
        impl CastTo<$a> for Sym {
            fn cast(self) -> $a {
                match self.const_val() {
                    Some(v) => v as $a,
                    None => {
                        let i = self.int().unwrap();
                        (i as i128).clamp(<$a>::MIN as i128, (<$a>::MAX as u128).min(i64::MAX as u128) as i128) as $a
                    }
                }
            }
        }
        impl CastTo<$a> for bool { fn cast(self) -> $a { self as $a } }
        impl CastTo<$a> for f32 { fn cast(self) -> $a { self as $a } }
        impl CastTo<$a> for R { fn cast(self) -> $a { self as $a } }
        impl CastTo<f32> for $a { fn cast(self) -> f32 { self as f32 } }
    )* };
    (@one $a:ty; $($b:ty),*) => { $( impl CastTo<$b> for $a { fn cast(self) -> $b { self as $b } } )* };
}
int_casts!(usize, u8, u16, u32, u64, u128, isize, i8, i16, i32, i64, i128);
impl CastTo<Sym> for Sym {
    fn cast(self) -> Sym {
        self
    }
}
impl CastTo<Sym> for R {
    fn cast(self) -> Sym {
        lit(self)
    }
}
impl CastTo<Sym> for f32 {
    fn cast(self) -> Sym {
        lit(self as R)
    }
}
impl CastTo<Sym> for bool {
    fn cast(self) -> Sym {
        lit(if self { 1.0 } else { 0.0 })
    }
}
impl CastTo<f32> for Sym {
    fn cast(self) -> f32 {
        self.const_val().map(|v| v as f32).unwrap_or_else(|| abort(Abort::Unsupported("f64 as f32".into())))
    }
}
#[macro_export]
macro_rules! enum_casts {
    ($n:ident) => { $crate::enum_casts!(@ $n; usize, u8, u16, u32, u64, u128, isize, i8, i16, i32, i64, i128); };
    (@ $n:ident; $($a:ty),*) => { $( impl $crate::CastTo<$a> for $n { fn cast(self) -> $a { self as $a } } )* };
}
macro_rules! char_casts { ($($a:ty),*) => { $( impl CastTo<$a> for char { fn cast(self) -> $a { self as $a } } )* } }
char_casts!(usize, u8, u16, u32, u64, i32, i64);
impl CastTo<char> for u8 {
    fn cast(self) -> char {
        self as char
    }
}

// ------------------------------------------------------------------- serde --

impl serde::Serialize for Sym {
    fn serialize<Se: serde::Serializer>(&self, s: Se) -> Result<Se::Ok, Se::Error> {
        match self.const_val() {
            Some(v) => s.serialize_f64(v),
            None => s.serialize_str(&format!("{self}")),
        }
    }
}
impl<'de> serde::Deserialize<'de> for Sym {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Sym, D::Error> {
        struct Vis;
        impl<'de> serde::de::Visitor<'de> for Vis {
            type Value = Sym;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a number")
            }
            fn visit_f64<E>(self, v: R) -> Result<Sym, E> {
                Ok(lit(v))
            }
            fn visit_i64<E>(self, v: i64) -> Result<Sym, E> {
                Ok(v.cast())
            }
            fn visit_u64<E>(self, v: u64) -> Result<Sym, E> {
                Ok(v.cast())
            }
            fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<Sym, E> {
                v.parse().map_err(|_| E::custom("not a number"))
            }
        }
        d.deserialize_any(Vis)
    }
}

pub fn show(s: Sym) -> String {
    match s.v() {
        V::Fin(p) => poly::show(&p),
        V::Inf(n) => (if n { "-inf" } else { "inf" }).into(),
        V::Nan => "NaN".into(),
    }
}

#[allow(non_upper_case_globals, non_snake_case)]
pub mod f64mod {
    use super::{lit, Sym};
    pub const MAX: Sym = Sym::MAX;
    pub const MIN: Sym = Sym::MIN;
    pub const EPSILON: Sym = Sym::EPSILON;
    pub const INFINITY: Sym = Sym::INFINITY;
    pub const NEG_INFINITY: Sym = Sym::NEG_INFINITY;
    pub const NAN: Sym = Sym::NAN;
    pub const MIN_POSITIVE: Sym = Sym::MIN_POSITIVE;
    pub mod consts {
        use super::{lit, Sym};
        macro_rules! c { ($($n:ident),*) => { $( pub const $n: Sym = lit(std::f64::consts::$n); )* } }
        c!(PI, E, LN_2, LN_10, SQRT_2, FRAC_PI_2, FRAC_1_PI, TAU, FRAC_1_SQRT_2, LOG2_E, LOG10_E, FRAC_PI_4);
    }
    #[allow(unused)]
    const _X: Sym = lit(0.0);
}
