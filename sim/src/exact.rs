//! Exact arithmetic for the oracles: rationals over dyadic numbers (every float is
//! one), and a fixed-point evaluation of the elementary functions to about 2^-300.

use crate::fpu::Op;
use std::cmp::Ordering;

// ---------------------------------------------------------------- naturals
pub type Nat = Vec<u64>;

pub fn trim(a: &mut Nat) {
    while a.last() == Some(&0) {
        a.pop();
    }
}
pub fn ncmp(a: &[u64], b: &[u64]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| {
        for i in (0..a.len()).rev() {
            match a[i].cmp(&b[i]) {
                Ordering::Equal => {}
                o => return o,
            }
        }
        Ordering::Equal
    })
}
pub fn nadd(a: &[u64], b: &[u64]) -> Nat {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u128;
    for i in 0..a.len() {
        let s = a[i] as u128 + if i < b.len() { b[i] as u128 } else { 0 } + c;
        r.push(s as u64);
        c = s >> 64;
    }
    if c > 0 {
        r.push(c as u64);
    }
    r
}
/// a - b, a >= b
pub fn nsub(a: &[u64], b: &[u64]) -> Nat {
    let mut r = Vec::with_capacity(a.len());
    let mut borrow = 0i128;
    for i in 0..a.len() {
        let mut d = a[i] as i128 - if i < b.len() { b[i] as i128 } else { 0 } - borrow;
        borrow = 0;
        if d < 0 {
            d += 1i128 << 64;
            borrow = 1;
        }
        r.push(d as u64);
    }
    assert!(borrow == 0);
    trim(&mut r);
    r
}
pub fn nmul(a: &[u64], b: &[u64]) -> Nat {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![0u64; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u128;
        for j in 0..b.len() {
            let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        r[i + b.len()] = c as u64;
    }
    trim(&mut r);
    r
}
pub fn nshl(a: &[u64], n: usize) -> Nat {
    if a.is_empty() {
        return vec![];
    }
    let (w, b) = (n / 64, n % 64);
    let mut r = vec![0u64; w];
    if b == 0 {
        r.extend_from_slice(a);
    } else {
        let mut c = 0u64;
        for &x in a {
            r.push((x << b) | c);
            c = x >> (64 - b);
        }
        if c > 0 {
            r.push(c);
        }
    }
    r
}
pub fn nshr(a: &[u64], n: usize) -> Nat {
    let (w, b) = (n / 64, n % 64);
    if w >= a.len() {
        return vec![];
    }
    let mut r = Vec::with_capacity(a.len() - w);
    for i in w..a.len() {
        let hi = if i + 1 < a.len() && b > 0 { a[i + 1] << (64 - b) } else { 0 };
        r.push(if b == 0 { a[i] } else { (a[i] >> b) | hi });
    }
    trim(&mut r);
    r
}
pub fn nbits(a: &[u64]) -> usize {
    match a.last() {
        None => 0,
        Some(&x) => a.len() * 64 - x.leading_zeros() as usize,
    }
}
fn nbit(a: &[u64], i: usize) -> bool {
    a.get(i / 64).is_some_and(|w| w >> (i % 64) & 1 == 1)
}
/// quotient and remainder (bitwise; only used on the short numbers of the oracles)
pub fn ndivrem(a: &[u64], b: &[u64]) -> (Nat, Nat) {
    assert!(!b.is_empty());
    if ncmp(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    let n = nbits(a);
    let mut q = vec![0u64; a.len()];
    let m = nbits(b);
    // start with the top m-1 bits
    let mut r = nshr(a, n - (m - 1).min(n));
    for i in (0..n - (m - 1)).rev() {
        // r = 2r + bit
        let mut c = nbit(a, i) as u64;
        for w in r.iter_mut() {
            let t = *w >> 63;
            *w = (*w << 1) | c;
            c = t;
        }
        if c > 0 {
            r.push(c);
        }
        trim(&mut r);
        if ncmp(&r, b) != Ordering::Less {
            r = nsub(&r, b);
            q[i / 64] |= 1 << (i % 64);
        }
    }
    trim(&mut q);
    (q, r)
}
pub fn nsqrt(a: &[u64]) -> Nat {
    // digit by digit
    if a.is_empty() {
        return vec![];
    }
    let mut bit = (nbits(a) - 1) / 2 * 2;
    let mut x: Nat = a.to_vec();
    let mut res: Nat = vec![];
    loop {
        let mut t = res.clone();
        let w = bit / 64;
        if t.len() <= w {
            t.resize(w + 1, 0);
        }
        t[w] |= 1 << (bit % 64);
        // t = res + 2^bit (the bit is free in res)
        if ncmp(&x, &t) != Ordering::Less {
            x = nsub(&x, &t);
            res = nshr(&res, 1);
            if res.len() <= w {
                res.resize(w + 1, 0);
            }
            res[w] |= 1 << (bit % 64);
        } else {
            res = nshr(&res, 1);
        }
        trim(&mut res);
        if bit == 0 {
            break;
        }
        bit -= 2;
    }
    res
}

// ---------------------------------------------------------------- dyadics
/// (-1)^neg * mag * 2^exp
#[derive(Clone, Debug)]
pub struct Dy {
    pub neg: bool,
    pub mag: Nat,
    pub exp: i32,
}
impl Dy {
    pub fn zero() -> Dy {
        Dy { neg: false, mag: vec![], exp: 0 }
    }
    pub fn one() -> Dy {
        Dy { neg: false, mag: vec![1], exp: 0 }
    }
    pub fn from(x: f64) -> Dy {
        assert!(x.is_finite());
        if x == 0.0 {
            return Dy::zero();
        }
        let b = x.to_bits();
        let e = (b >> 52 & 0x7ff) as i32;
        let m = b & ((1 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
        let tz = m.trailing_zeros();
        Dy { neg: b >> 63 == 1, mag: vec![m >> tz], exp: e + tz as i32 }
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn signum(&self) -> i32 {
        if self.is_zero() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
    pub fn neg(&self) -> Dy {
        Dy { neg: !self.neg, ..self.clone() }
    }
    pub fn mul(&self, o: &Dy) -> Dy {
        if self.is_zero() || o.is_zero() {
            return Dy::zero();
        }
        Dy { neg: self.neg != o.neg, mag: nmul(&self.mag, &o.mag), exp: self.exp + o.exp }
    }
    pub fn add(&self, o: &Dy) -> Dy {
        if self.is_zero() {
            return o.clone();
        }
        if o.is_zero() {
            return self.clone();
        }
        let e = self.exp.min(o.exp);
        let a = nshl(&self.mag, (self.exp - e) as usize);
        let b = nshl(&o.mag, (o.exp - e) as usize);
        if self.neg == o.neg {
            return Dy { neg: self.neg, mag: nadd(&a, &b), exp: e };
        }
        match ncmp(&a, &b) {
            Ordering::Equal => Dy::zero(),
            Ordering::Greater => Dy { neg: self.neg, mag: nsub(&a, &b), exp: e },
            Ordering::Less => Dy { neg: o.neg, mag: nsub(&b, &a), exp: e },
        }
    }
    pub fn sub(&self, o: &Dy) -> Dy {
        self.add(&o.neg())
    }
    pub fn cmp(&self, o: &Dy) -> Ordering {
        self.sub(o).signum().cmp(&0)
    }
    pub fn bits(&self) -> usize {
        nbits(&self.mag)
    }
}

// ---------------------------------------------------------------- rationals
/// num / den, den > 0
#[derive(Clone, Debug)]
pub struct Rat {
    pub num: Dy,
    pub den: Dy,
}
impl Rat {
    pub fn from(x: f64) -> Rat {
        Rat { num: Dy::from(x), den: Dy::one() }
    }
    pub fn add(&self, o: &Rat) -> Rat {
        Rat { num: self.num.mul(&o.den).add(&o.num.mul(&self.den)), den: self.den.mul(&o.den) }
    }
    pub fn neg(&self) -> Rat {
        Rat { num: self.num.neg(), den: self.den.clone() }
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        Rat { num: self.num.mul(&o.num), den: self.den.mul(&o.den) }
    }
    pub fn div(&self, o: &Rat) -> Rat {
        assert!(!o.num.is_zero());
        let mut num = self.num.mul(&o.den);
        let mut den = self.den.mul(&o.num);
        if den.neg {
            num = num.neg();
            den = den.neg();
        }
        Rat { num, den }
    }
    pub fn signum(&self) -> i32 {
        self.num.signum()
    }
    pub fn cmp(&self, o: &Rat) -> Ordering {
        self.num.mul(&o.den).cmp(&o.num.mul(&self.den))
    }
    /// compares with a float, infinities included
    pub fn cmp_f(&self, x: f64) -> Ordering {
        if x == f64::INFINITY {
            return Ordering::Less;
        }
        if x == f64::NEG_INFINITY {
            return Ordering::Greater;
        }
        self.num.cmp(&Dy::from(x).mul(&self.den))
    }
    pub fn within(&self, lo: f64, hi: f64) -> bool {
        self.cmp_f(lo) != Ordering::Less && self.cmp_f(hi) != Ordering::Greater
    }
    pub fn abs(&self) -> Rat {
        Rat { num: Dy { neg: false, ..self.num.clone() }, den: self.den.clone() }
    }
    pub fn bits(&self) -> usize {
        self.num.bits() + self.den.bits()
    }
    pub fn approx(&self) -> f64 {
        let f = |d: &Dy| -> (f64, i32) {
            if d.is_zero() {
                return (0.0, 0);
            }
            let n = nbits(&d.mag);
            let top = if n > 64 { nshr(&d.mag, n - 64)[0] as f64 } else { d.mag[0] as f64 };
            let e = d.exp + if n > 64 { (n - 64) as i32 } else { 0 };
            (if d.neg { -top } else { top }, e)
        };
        let (a, ea) = f(&self.num);
        let (b, eb) = f(&self.den);
        let e = (ea - eb) as f64;
        (a / b) * (2f64).powf(e / 2.0) * (2f64).powf(e / 2.0)
    }
}

// ---------------------------------------------------------------- fixed point
pub const F: usize = 384;
/// signed fixed point, value = (-1)^neg * mag / 2^F
#[derive(Clone, Debug)]
pub struct Fx {
    pub neg: bool,
    pub mag: Nat,
}
impl Fx {
    pub fn zero() -> Fx {
        Fx { neg: false, mag: vec![] }
    }
    pub fn int(n: i64) -> Fx {
        Fx { neg: n < 0, mag: nshl(&[n.unsigned_abs()], F) }.norm()
    }
    fn norm(mut self) -> Fx {
        trim(&mut self.mag);
        if self.mag.is_empty() {
            self.neg = false;
        }
        self
    }
    /// exact for |x| >= 2^-330 or zero
    pub fn from(x: f64) -> Fx {
        let d = Dy::from(x);
        let s = d.exp + F as i32;
        let mag = if s >= 0 { nshl(&d.mag, s as usize) } else { nshr(&d.mag, (-s) as usize) };
        Fx { neg: d.neg, mag }.norm()
    }
    pub fn neg(&self) -> Fx {
        Fx { neg: !self.neg, mag: self.mag.clone() }.norm()
    }
    pub fn add(&self, o: &Fx) -> Fx {
        if self.neg == o.neg {
            return Fx { neg: self.neg, mag: nadd(&self.mag, &o.mag) }.norm();
        }
        match ncmp(&self.mag, &o.mag) {
            Ordering::Less => Fx { neg: o.neg, mag: nsub(&o.mag, &self.mag) }.norm(),
            _ => Fx { neg: self.neg, mag: nsub(&self.mag, &o.mag) }.norm(),
        }
    }
    pub fn sub(&self, o: &Fx) -> Fx {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Fx) -> Fx {
        Fx { neg: self.neg != o.neg, mag: nshr(&nmul(&self.mag, &o.mag), F) }.norm()
    }
    pub fn div(&self, o: &Fx) -> Fx {
        Fx { neg: self.neg != o.neg, mag: ndivrem(&nshl(&self.mag, F), &o.mag).0 }.norm()
    }
    pub fn divi(&self, n: u64) -> Fx {
        let mut r = self.mag.clone();
        let mut c = 0u128;
        for i in (0..r.len()).rev() {
            let t = (c << 64) | r[i] as u128;
            r[i] = (t / n as u128) as u64;
            c = t % n as u128;
        }
        Fx { neg: self.neg, mag: r }.norm()
    }
    pub fn shr(&self, n: usize) -> Fx {
        Fx { neg: self.neg, mag: nshr(&self.mag, n) }.norm()
    }
    pub fn sqrt(&self) -> Fx {
        assert!(!self.neg);
        Fx { neg: false, mag: nsqrt(&nshl(&self.mag, F)) }.norm()
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn cmp(&self, o: &Fx) -> Ordering {
        let d = self.sub(o);
        if d.is_zero() {
            Ordering::Equal
        } else if d.neg {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    }
    pub fn approx(&self) -> f64 {
        let n = nbits(&self.mag);
        if n == 0 {
            return 0.0;
        }
        let (top, e) = if n > 64 { (nshr(&self.mag, n - 64)[0] as f64, (n - 64) as i32) } else { (self.mag[0] as f64, 0) };
        let v = top * (2f64).powi(e - F as i32);
        if self.neg {
            -v
        } else {
            v
        }
    }
}

/// error of the elementary functions below, absolute
pub fn eps() -> Fx {
    Fx { neg: false, mag: nshl(&[1], F - 300) }
}

fn pi_calc() -> Fx {
    // Machin: pi = 16 atan(1/5) - 4 atan(1/239)
    fn atan_inv(n: u64) -> Fx {
        let mut term = Fx::int(1).divi(n);
        let mut sum = term.clone();
        let mut k = 1u64;
        loop {
            term = term.divi(n * n);
            if term.is_zero() {
                return sum;
            }
            let t = term.divi(2 * k + 1);
            sum = if k % 2 == 1 { sum.sub(&t) } else { sum.add(&t) };
            k += 1;
        }
    }
    let a = atan_inv(5);
    let b = atan_inv(239);
    let a16 = Fx { neg: false, mag: nshl(&a.mag, 4) };
    let b4 = Fx { neg: false, mag: nshl(&b.mag, 2) };
    a16.sub(&b4)
}
thread_local! { static PI: Fx = pi_calc(); }
pub fn pi() -> Fx {
    PI.with(|p| p.clone())
}

/// floor(x / y) for y > 0 and the remainder in [0, y)
pub fn floor_div(x: &Fx, y: &Fx) -> (i64, Fx) {
    let (q, r) = ndivrem(&x.mag, &y.mag);
    let q = if q.is_empty() { 0i64 } else { assert!(q.len() == 1); q[0] as i64 };
    let r = Fx { neg: false, mag: r };
    if x.neg {
        if r.is_zero() {
            (-q, r)
        } else {
            (-q - 1, y.sub(&r))
        }
    } else {
        (q, r)
    }
}

pub fn sin_cos(x: &Fx) -> (Fx, Fx) {
    // reduce to [0, pi/2), then divide by 2^8 and double the angle back
    let hp = pi().shr(1);
    let (k, r) = floor_div(x, &hp);
    let s = 8;
    let y = r.shr(s);
    let y2 = y.mul(&y);
    // Taylor for sin and for 1 - cos (keeps relative accuracy through the doublings)
    let mut sn = y.clone();
    let mut t = y.clone();
    let mut n = 1u64;
    loop {
        t = t.mul(&y2).divi((n + 1) * (n + 2)).neg();
        if t.is_zero() {
            break;
        }
        sn = sn.add(&t);
        n += 2;
    }
    let mut vc = y2.shr(1);
    let mut t = vc.clone();
    let mut n = 2u64;
    loop {
        t = t.mul(&y2).divi((n + 1) * (n + 2)).neg();
        if t.is_zero() {
            break;
        }
        vc = vc.add(&t);
        n += 2;
    }
    let one = Fx::int(1);
    for _ in 0..s {
        // sin 2a = 2 sin a cos a ; 1 - cos 2a = 2 sin^2 a
        let c = one.sub(&vc);
        let s2 = sn.mul(&c);
        let v2 = sn.mul(&sn);
        sn = s2.add(&s2);
        vc = v2.add(&v2);
    }
    let c = one.sub(&vc);
    match k.rem_euclid(4) {
        0 => (sn, c),
        1 => (c, sn.neg()),
        2 => (sn.neg(), c.neg()),
        _ => (c.neg(), sn),
    }
}

/// atan2 of exact values, not both zero
pub fn atan2(y: &Fx, x: &Fx) -> Fx {
    let y0 = Fx::from(y.approx().atan2(x.approx()));
    let (s, c) = sin_cos(&y0);
    let num = y.mul(&c).sub(&x.mul(&s));
    let den = x.mul(&c).add(&y.mul(&s));
    let d = num.div(&den);
    let d2 = d.mul(&d);
    let d3 = d2.mul(&d);
    let d5 = d3.mul(&d2);
    let d7 = d5.mul(&d2);
    y0.add(&d).sub(&d3.divi(3)).add(&d5.divi(5)).sub(&d7.divi(7))
}
pub fn asin(x: f64) -> Fx {
    let v = Fx::from(x);
    let one = Fx::int(1);
    atan2(&v, &one.sub(&v).mul(&one.add(&v)).sqrt())
}
pub fn acos(x: f64) -> Fx {
    let v = Fx::from(x);
    let one = Fx::int(1);
    atan2(&one.sub(&v).mul(&one.add(&v)).sqrt(), &v)
}

/// magnitude range on which the fixed-point functions keep enough accuracy
pub fn in_fx_range(op: Op, x: f64) -> bool {
    let (lo, hi) = if matches!(op, Op::Atan | Op::Atan2) { (1e-38, 1e38) } else { (1e-25, 1e18) };
    x == 0.0 || (x.abs() >= lo && x.abs() <= hi)
}

/// The true value of a math-library function, where the fixed-point range allows.
pub fn elementary(op: Op, a: f64, b: f64) -> Option<Fx> {
    if !a.is_finite() || !b.is_finite() || !in_fx_range(op, a) || !in_fx_range(op, b) {
        return None;
    }
    Some(match op {
        Op::Sin => sin_cos(&Fx::from(a)).0,
        Op::Cos => sin_cos(&Fx::from(a)).1,
        Op::Tan => {
            let (s, c) = sin_cos(&Fx::from(a));
            s.div(&c)
        }
        Op::Asin if a.abs() <= 1.0 => asin(a),
        Op::Acos if a.abs() <= 1.0 => acos(a),
        Op::Atan => {
            if a == 0.0 {
                Fx::zero()
            } else {
                atan2(&Fx::from(a), &Fx::int(1))
            }
        }
        Op::Atan2 if a != 0.0 || b != 0.0 => atan2(&Fx::from(a), &Fx::from(b)),
        _ => return None,
    })
}

/// The two doubles around the true value (equal if the true value is a double).
pub fn bracket64(op: Op, a: f64, b: f64) -> Option<(f64, f64)> {
    // acos changes by less than any bracket near zero
    let a = if op == Op::Acos && a.abs() < 1e-25 { 0.0 } else { a };
    // and the arctangent for large arguments: no double lies between it and pi/2
    let a = if op == Op::Atan && !a.is_nan() { a.clamp(-1e38, 1e38) } else { a };
    let t = elementary(op, a, b)?;
    let mut v = t.approx();
    if !in_fx_range(op, v) {
        return None;
    }
    // v is within a few units; walk to the bracket
    let e = eps();
    for _ in 0..8 {
        let d = Fx::from(v).sub(&t);
        if d.mag.len() < e.mag.len() || ncmp(&d.mag, &e.mag) != Ordering::Greater {
            return Some((v, v));
        }
        if !d.neg {
            // v > t
            v = crate::fpu::down64(v);
        } else {
            let u = crate::fpu::up64(v);
            if Fx::from(u).cmp(&t) == Ordering::Greater {
                return Some((v, u));
            }
            v = u;
        }
    }
    None
}

/// lo <= t and t <= hi up to the oracle's own error
pub fn fx_within(t: &Fx, lo: f64, hi: f64) -> bool {
    let e = eps();
    let lo_ok = lo == f64::NEG_INFINITY || (lo != f64::INFINITY && Fx::from(lo).cmp(&t.add(&e)) != Ordering::Greater);
    let hi_ok = hi == f64::INFINITY || (hi != f64::NEG_INFINITY && Fx::from(hi).cmp(&t.sub(&e)) != Ordering::Less);
    lo_ok && hi_ok
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn elementary_functions() {
        assert!((pi().approx() - std::f64::consts::PI).abs() < 1e-15);
        for i in 0..2000 {
            let mut r = crate::prng::Rng::new(i);
            let x = r.sign() * r.logu(1e-6, 1e6);
            for (op, f) in [
                (Op::Sin, f64::sin as fn(f64) -> f64),
                (Op::Cos, f64::cos),
                (Op::Tan, f64::tan),
                (Op::Atan, f64::atan),
            ] {
                let t = elementary(op, x, 0.0).unwrap().approx();
                assert!((t - f(x)).abs() <= 4e-16 * t.abs(), "{op:?} {x} {t} {}", f(x));
                let (lo, hi) = bracket64(op, x, 0.0).unwrap();
                assert!(hi == lo || hi == crate::fpu::up64(lo));
                assert!(f(x) >= crate::fpu::down64(lo) && f(x) <= crate::fpu::up64(hi));
            }
            let y = r.uni(-1.0, 1.0);
            for (op, f) in [(Op::Asin, f64::asin as fn(f64) -> f64), (Op::Acos, f64::acos)] {
                let t = elementary(op, y, 0.0).unwrap().approx();
                assert!((t - f(y)).abs() <= 4e-16 * t.abs(), "{op:?} {y}");
            }
            let (a, b) = (r.sign() * r.logu(1e-6, 1e6), r.sign() * r.logu(1e-6, 1e6));
            let t = elementary(Op::Atan2, a, b).unwrap().approx();
            assert!((t - a.atan2(b)).abs() <= 4e-16 * t.abs());
        }
        // sin^2 + cos^2 = 1
        let (s, c) = sin_cos(&Fx::from(123456.789));
        let one = s.mul(&s).add(&c.mul(&c)).sub(&Fx::int(1));
        assert!(nbits(&one.mag) < F - 340);
        assert_eq!(elementary(Op::Atan2, 0.0, -1.0).unwrap().approx(), std::f64::consts::PI);
    }
    #[test]
    fn rationals() {
        let mut r = crate::prng::Rng::new(7);
        for _ in 0..2000 {
            let (a, b) = (r.sign() * r.logu(1e-20, 1e20), r.sign() * r.logu(1e-20, 1e20));
            let (x, y) = (Rat::from(a), Rat::from(b));
            assert!((x.div(&y).approx() / (a / b) - 1.0).abs() < 1e-14);
            let s = a + b;
            let e = x.add(&y);
            assert!(e.within(crate::fpu::down64(s), crate::fpu::up64(s)));
            let p = a * b;
            assert!(x.mul(&y).within(crate::fpu::down64(p), crate::fpu::up64(p)));
            let q = nsqrt(&nshl(&[a.abs() as u64 / 2 + 1], 100));
            let q1 = nadd(&q, &[1]);
            assert!(ncmp(&nmul(&q, &q), &nshl(&[a.abs() as u64 / 2 + 1], 100)) != Ordering::Greater);
            assert!(ncmp(&nmul(&q1, &q1), &nshl(&[a.abs() as u64 / 2 + 1], 100)) == Ordering::Greater);
        }
    }
    #[test]
    fn rounding_directions() {
        use crate::fpu::*;
        let mut r = crate::prng::Rng::new(9);
        for _ in 0..2000 {
            let (a, b) = ((r.sign() * r.logu(1e-10, 1e10)) as f32, (r.sign() * r.logu(1e-10, 1e10)) as f32);
            for op in [Op::Add, Op::Sub, Op::Mul, Op::Div] {
                let (d, u) = (exec32(op, a, b, Mode::Down), exec32(op, a, b, Mode::Up));
                assert!(d == u || up32(d) == u);
                let n = exec32(op, a, b, Mode::Near);
                assert!(n == d || n == u);
                let (d, u) = (exec64(op, a as f64, b as f64, Mode::Down), exec64(op, a as f64, b as f64, Mode::Up));
                assert!(d == u || up64(d) == u);
            }
        }
    }
}
