//! Exact rational numbers (i128 fast path, arbitrary precision fallback).
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Big {
    neg: bool,
    m: Vec<u32>, // little endian, no trailing zeros
}

impl Big {
    pub fn from_i128(v: i128) -> Big {
        let neg = v < 0;
        let mut u = v.unsigned_abs();
        let mut m = vec![];
        while u > 0 {
            m.push(u as u32);
            u >>= 32;
        }
        Big { neg, m }
    }
    pub fn to_i128(&self) -> Option<i128> {
        if self.m.len() > 4 {
            return None;
        }
        let mut u: u128 = 0;
        for (i, &d) in self.m.iter().enumerate() {
            u |= (d as u128) << (32 * i);
        }
        if u > i128::MAX as u128 {
            return None;
        }
        Some(if self.neg { -(u as i128) } else { u as i128 })
    }
    fn is_zero(&self) -> bool {
        self.m.is_empty()
    }
    fn trim(mut m: Vec<u32>) -> Vec<u32> {
        while m.last() == Some(&0) {
            m.pop();
        }
        m
    }
    fn cmp_m(a: &[u32], b: &[u32]) -> Ordering {
        if a.len() != b.len() {
            return a.len().cmp(&b.len());
        }
        for i in (0..a.len()).rev() {
            if a[i] != b[i] {
                return a[i].cmp(&b[i]);
            }
        }
        Ordering::Equal
    }
    fn add_m(a: &[u32], b: &[u32]) -> Vec<u32> {
        let mut r = Vec::with_capacity(a.len().max(b.len()) + 1);
        let mut c = 0u64;
        for i in 0..a.len().max(b.len()) {
            let s = *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
            r.push(s as u32);
            c = s >> 32;
        }
        if c > 0 {
            r.push(c as u32);
        }
        r
    }
    fn sub_m(a: &[u32], b: &[u32]) -> Vec<u32> {
        let mut r = Vec::with_capacity(a.len());
        let mut c = 0i64;
        for i in 0..a.len() {
            let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - c;
            c = 0;
            if s < 0 {
                s += 1 << 32;
                c = 1;
            }
            r.push(s as u32);
        }
        Self::trim(r)
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            return Big { neg: self.neg, m: Self::add_m(&self.m, &o.m) };
        }
        match Self::cmp_m(&self.m, &o.m) {
            Ordering::Equal => Big { neg: false, m: vec![] },
            Ordering::Greater => Big { neg: self.neg, m: Self::sub_m(&self.m, &o.m) },
            Ordering::Less => Big { neg: o.neg, m: Self::sub_m(&o.m, &self.m) },
        }
    }
    pub fn neg(&self) -> Big {
        Big { neg: !self.neg && !self.is_zero(), m: self.m.clone() }
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.is_zero() || o.is_zero() {
            return Big { neg: false, m: vec![] };
        }
        let mut r = vec![0u32; self.m.len() + o.m.len()];
        for (i, &a) in self.m.iter().enumerate() {
            let mut c = 0u64;
            for (j, &b) in o.m.iter().enumerate() {
                let t = a as u64 * b as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + o.m.len()] = c as u32;
        }
        Big { neg: self.neg != o.neg, m: Self::trim(r) }
    }
    fn shl_bits(a: &[u32], s: u32) -> Vec<u32> {
        let mut r = Vec::with_capacity(a.len() + 1);
        let mut c = 0u32;
        for &x in a {
            if s == 0 {
                r.push(x);
            } else {
                r.push((x << s) | c);
                c = x >> (32 - s);
            }
        }
        if c > 0 {
            r.push(c);
        }
        r
    }
    /// truncated division of magnitudes
    fn divrem_m(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
        if Self::cmp_m(a, b) == Ordering::Less {
            return (vec![], a.to_vec());
        }
        if b.len() == 1 {
            let d = b[0] as u64;
            let mut q = vec![0u32; a.len()];
            let mut r = 0u64;
            for i in (0..a.len()).rev() {
                let cur = (r << 32) | a[i] as u64;
                q[i] = (cur / d) as u32;
                r = cur % d;
            }
            return (Self::trim(q), Self::trim(vec![r as u32]));
        }
        let s = b[b.len() - 1].leading_zeros();
        let v = Self::shl_bits(b, s);
        let mut u = Self::shl_bits(a, s);
        if u.len() == a.len() {
            u.push(0);
        }
        let n = v.len();
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        for j in (0..=m).rev() {
            let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64;
            let mut rh = num % v[n - 1] as u64;
            while qh >= (1 << 32) || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >= (1 << 32) {
                    break;
                }
            }
            let mut borrow = 0i64;
            let mut carry = 0u64;
            for i in 0..n {
                let p = qh * v[i] as u64 + carry;
                carry = p >> 32;
                let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
                u[i + j] = t as u32;
                borrow = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i64 - borrow - carry as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let s2 = u[i + j] as u64 + v[i] as u64 + c;
                    u[i + j] = s2 as u32;
                    c = s2 >> 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        // unnormalise remainder
        let mut r = u[..n].to_vec();
        if s > 0 {
            for i in 0..n {
                let hi = if i + 1 < n { r[i + 1] } else { 0 };
                r[i] = (r[i] >> s) | (((hi as u64) << (32 - s)) as u32);
            }
        }
        (Self::trim(q), Self::trim(r))
    }
    fn gcd(&self, o: &Big) -> Big {
        let mut a = self.m.clone();
        let mut b = o.m.clone();
        while !b.is_empty() {
            let (_, r) = Self::divrem_m(&a, &b);
            a = b;
            b = r;
        }
        Big { neg: false, m: a }
    }
    fn div_exact(&self, o: &Big) -> Big {
        let (q, _) = Self::divrem_m(&self.m, &o.m);
        let neg = (self.neg != o.neg) && !q.is_empty();
        Big { neg, m: q }
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => Self::cmp_m(&self.m, &o.m),
            (true, true) => Self::cmp_m(&o.m, &self.m),
        }
    }
    pub fn sign(&self) -> i32 {
        match (self.is_zero(), self.neg) {
            (true, _) => 0,
            (_, true) => -1,
            _ => 1,
        }
    }
    /// self * 2^(32 k)
    pub fn shl(&self, k: usize) -> Big {
        if self.is_zero() {
            return self.clone();
        }
        let mut m = vec![0u32; k];
        m.extend(&self.m);
        Big { neg: self.neg, m }
    }
    /// floor(self / 2^(32 k))
    pub fn shr_floor(&self, k: usize) -> Big {
        let lost = self.m.iter().take(k).any(|d| *d != 0);
        let m: Vec<u32> = self.m.iter().skip(k).cloned().collect();
        let r = Big { neg: self.neg && !m.is_empty(), m };
        if self.neg && lost {
            r.add(&Big::from_i128(-1))
        } else {
            r
        }
    }
    /// floor(self / o), o > 0
    pub fn div_floor(&self, o: &Big) -> Big {
        let (q, r) = Self::divrem_m(&self.m, &o.m);
        let q = Big { neg: self.neg && !q.is_empty(), m: q };
        if self.neg && !r.is_empty() {
            q.add(&Big::from_i128(-1))
        } else {
            q
        }
    }
    /// floor of the square root of a number that is not negative
    pub fn isqrt(&self) -> Big {
        if self.is_zero() {
            return self.clone();
        }
        let one = Big::from_i128(1);
        let two = Big::from_i128(2);
        // at least the root
        let mut x = one.shl(self.m.len() / 2 + 1);
        loop {
            let y = x.add(&self.div_floor(&x)).div_floor(&two);
            if y.cmp(&x) != Ordering::Less {
                return x;
            }
            x = y;
        }
    }
    pub fn to_dec(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut parts = vec![];
        let mut cur = self.m.clone();
        while !cur.is_empty() {
            let (q, r) = Self::divrem_m(&cur, &[1_000_000_000]);
            parts.push(*r.first().unwrap_or(&0));
            cur = q;
        }
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        s += &parts.pop().unwrap().to_string();
        while let Some(p) = parts.pop() {
            s += &format!("{p:09}");
        }
        s
    }
    pub fn parse(s: &str) -> Option<Big> {
        let (neg, t) = match s.strip_prefix('-') {
            Some(t) => (true, t),
            None => (false, s),
        };
        let mut r = Big { neg: false, m: vec![] };
        let ten = Big::from_i128(10);
        for c in t.bytes() {
            if !c.is_ascii_digit() {
                return None;
            }
            r = r.mul(&ten).add(&Big::from_i128((c - b'0') as i128));
        }
        r.neg = neg && !r.is_zero();
        Some(r)
    }
    pub fn pow10(n: usize) -> Big {
        let mut r = Big::from_i128(1);
        let ten = Big::from_i128(10);
        for _ in 0..n {
            r = r.mul(&ten);
        }
        r
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Q {
    S(i128, i128), // den > 0, reduced
    B(Box<(Big, Big)>),
}

fn gcd128(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

impl Q {
    pub const ZERO: Q = Q::S(0, 1);
    pub const ONE: Q = Q::S(1, 1);
    pub fn int(v: i128) -> Q {
        Q::S(v, 1)
    }
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0);
        let g = gcd128(n.unsigned_abs(), d.unsigned_abs());
        let g = g as i128;
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 {
            n = -n;
            d = -d;
        }
        Q::S(n, d)
    }
    pub fn big(&self) -> (Big, Big) {
        match self {
            Q::S(n, d) => (Big::from_i128(*n), Big::from_i128(*d)),
            Q::B(b) => (b.0.clone(), b.1.clone()),
        }
    }
    pub fn from_big(n: Big, d: Big) -> Q {
        let (n, d) = if d.neg { (n.neg(), d.neg()) } else { (n, d) };
        if n.is_zero() {
            return Q::ZERO;
        }
        let g = n.gcd(&d);
        let (n, d) = (n.div_exact(&g), d.div_exact(&g));
        match (n.to_i128(), d.to_i128()) {
            (Some(a), Some(b)) => Q::S(a, b),
            _ => Q::B(Box::new((n, d))),
        }
    }
    pub fn add(&self, o: &Q) -> Q {
        if let (Q::S(a, b), Q::S(c, d)) = (self, o) {
            if let (Some(x), Some(y), Some(z)) = (a.checked_mul(*d), c.checked_mul(*b), b.checked_mul(*d)) {
                if let Some(s) = x.checked_add(y) {
                    return Q::new(s, z);
                }
            }
        }
        let (a, b) = self.big();
        let (c, d) = o.big();
        Q::from_big(a.mul(&d).add(&c.mul(&b)), b.mul(&d))
    }
    pub fn neg(&self) -> Q {
        match self {
            Q::S(a, b) if *a != i128::MIN => Q::S(-a, *b),
            _ => {
                let (a, b) = self.big();
                Q::from_big(a.neg(), b)
            }
        }
    }
    pub fn sub(&self, o: &Q) -> Q {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Q) -> Q {
        if let (Q::S(a, b), Q::S(c, d)) = (self, o) {
            if let (Some(x), Some(y)) = (a.checked_mul(*c), b.checked_mul(*d)) {
                return Q::new(x, y);
            }
        }
        let (a, b) = self.big();
        let (c, d) = o.big();
        Q::from_big(a.mul(&c), b.mul(&d))
    }
    pub fn inv(&self) -> Q {
        match self {
            Q::S(a, b) => {
                assert!(*a != 0);
                if *a < 0 {
                    Q::S(-b, -a)
                } else {
                    Q::S(*b, *a)
                }
            }
            Q::B(x) => Q::from_big(x.1.clone(), x.0.clone()),
        }
    }
    pub fn div(&self, o: &Q) -> Q {
        self.mul(&o.inv())
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, Q::S(0, _))
    }
    pub fn is_one(&self) -> bool {
        matches!(self, Q::S(1, 1))
    }
    pub fn sign(&self) -> i32 {
        match self {
            Q::S(a, _) => a.signum() as i32,
            Q::B(b) => {
                if b.0.neg {
                    -1
                } else {
                    1
                }
            }
        }
    }
    pub fn abs(&self) -> Q {
        if self.sign() < 0 {
            self.neg()
        } else {
            self.clone()
        }
    }
    pub fn cmp(&self, o: &Q) -> Ordering {
        match self.sub(o).sign() {
            0 => Ordering::Equal,
            x if x < 0 => Ordering::Less,
            _ => Ordering::Greater,
        }
    }
    pub fn pow(&self, e: i32) -> Q {
        let mut r = Q::ONE;
        let b = if e < 0 { self.inv() } else { self.clone() };
        for _ in 0..e.abs() {
            r = r.mul(&b);
        }
        r
    }
    pub fn small(&self) -> Option<(i128, i128)> {
        match self {
            Q::S(a, b) => Some((*a, *b)),
            _ => None,
        }
    }
    pub fn to_f64(&self) -> f64 {
        match self {
            Q::S(a, b) => *a as f64 / *b as f64,
            Q::B(x) => {
                // decimal expansion with 25 significant digits
                let n = &x.0.m;
                let d = &x.1.m;
                let sh = (n.len() as i64 - d.len() as i64) * 32;
                // scale so that quotient has about 128 bits
                let want = 128 - sh;
                let (nn, dd) = if want > 0 {
                    let mut v = vec![0u32; (want / 32) as usize];
                    v.extend_from_slice(n);
                    (v, d.clone())
                } else {
                    let mut v = vec![0u32; (-want / 32) as usize];
                    v.extend_from_slice(d);
                    (n.clone(), v)
                };
                let (q, _) = Big::divrem_m(&nn, &dd);
                let mut f = 0f64;
                for &l in q.iter().rev() {
                    f = f * 4294967296.0 + l as f64;
                }
                let w = if want > 0 { (want / 32) * 32 } else { -((-want / 32) * 32) };
                let mut f = f;
                let mut e = -w;
                while e > 0 {
                    let s = e.min(512);
                    f *= 2f64.powi(s as i32);
                    e -= s;
                }
                while e < 0 {
                    let s = (-e).min(512);
                    f *= 2f64.powi(-(s as i32));
                    e += s;
                }
                if x.0.neg {
                    -f
                } else {
                    f
                }
            }
        }
    }
    /// Exact value of the shortest decimal representation of `v`
    /// (so that the literal `0.1` denotes one tenth).
    pub fn from_f64(v: f64) -> Q {
        assert!(v.is_finite());
        if v == v.trunc() && v.abs() < 1e30 {
            return Q::int(v as i128);
        }
        Q::parse(&format!("{v:e}")).unwrap()
    }
    pub fn parse(s: &str) -> Option<Q> {
        let s = s.trim().trim_end_matches('?');
        let (m, e) = match s.find(['e', 'E']) {
            Some(i) => (&s[..i], s[i + 1..].parse::<i32>().ok()?),
            None => (s, 0),
        };
        let (ip, fp) = match m.find('.') {
            Some(i) => (&m[..i], &m[i + 1..]),
            None => (m, ""),
        };
        let digits = format!("{}{}", ip.trim_start_matches('+'), fp);
        if digits.is_empty() || digits == "-" {
            return None;
        }
        let n = Big::parse(&digits)?;
        let e = e - fp.len() as i32;
        Some(if e >= 0 {
            Q::from_big(n.mul(&Big::pow10(e as usize)), Big::from_i128(1))
        } else {
            Q::from_big(n, Big::pow10((-e) as usize))
        })
    }
    pub fn smt(&self) -> String {
        let (n, d) = match self {
            Q::S(a, b) => (a.to_string(), b.to_string()),
            Q::B(x) => (x.0.to_dec(), x.1.to_dec()),
        };
        let (neg, n) = match n.strip_prefix('-') {
            Some(t) => (true, t.to_string()),
            None => (false, n),
        };
        let t = if d == "1" { format!("{n}.0") } else { format!("(/ {n}.0 {d}.0)") };
        if neg {
            format!("(- {t})")
        } else {
            t
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn floors() {
        let b = |v: i128| Big::from_i128(v);
        for v in [-7i128, -6, -1, 0, 1, 6, 7, 1 << 70, -(1 << 70) - 1] {
            assert_eq!(b(v).div_floor(&b(3)), b(v.div_euclid(3)));
            assert_eq!(b(v).shl(2).shr_floor(2), b(v));
            assert_eq!(b(v).shr_floor(1), b(v >> 32));
            if v >= 0 {
                let r = b(v).isqrt().to_i128().unwrap();
                assert!(r * r <= v && v < (r + 1) * (r + 1));
            }
        }
        let r = b(2).shl(16).isqrt();
        assert!(r.mul(&r).cmp(&b(2).shl(16)) == Ordering::Less);
        let r = r.add(&b(1));
        assert!(r.mul(&r).cmp(&b(2).shl(16)) == Ordering::Greater);
    }
    #[test]
    fn big() {
        let a = Q::parse("1.7976931348623157e308").unwrap();
        let b = Q::parse("3.3e-20").unwrap();
        let c = a.mul(&b).add(&Q::new(1, 3));
        let d = c.sub(&Q::new(1, 3)).div(&b);
        assert_eq!(d, a);
        assert_eq!(a.to_f64(), f64::MAX);
        assert_eq!(Q::from_f64(0.1), Q::new(1, 10));
        assert_eq!(b.to_f64(), 3.3e-20);
        let t = a.mul(&a).mul(&Q::parse("12345678901234567890.12345").unwrap());
        let v = t.div(&a).div(&a).to_f64() / 12345678901234567890.12345;
        assert!((v - 1.0).abs() < 1e-15);
    }
}
