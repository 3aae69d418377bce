//! Arbitrary-precision rationals (exact real constants of the encoding).
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Big {
    pub neg: bool,
    pub mag: Vec<u32>, // little endian, no trailing zeros; zero = empty, neg=false
}

fn trim(mut v: Vec<u32>) -> Vec<u32> {
    while let Some(0) = v.last() {
        v.pop();
    }
    v
}
fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len().max(b.len()) + 1);
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        let s = c + *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        r.push(s as u32);
        c = s >> 32;
    }
    if c > 0 {
        r.push(c as u32);
    }
    r
}
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - br - *b.get(i).unwrap_or(&0) as i64;
        if s < 0 {
            s += 1 << 32;
            br = 1;
        } else {
            br = 0;
        }
        r.push(s as u32);
    }
    trim(r)
}
fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    trim(r)
}
fn shl_mag(a: &[u32], n: usize) -> Vec<u32> {
    if a.is_empty() {
        return vec![];
    }
    let w = n / 32;
    let b = n % 32;
    let mut r = vec![0u32; w];
    let mut c = 0u64;
    for &x in a {
        let t = ((x as u64) << b) | c;
        r.push(t as u32);
        c = t >> 32;
    }
    if c > 0 {
        r.push(c as u32);
    }
    trim(r)
}
fn shr_mag(a: &[u32], n: usize) -> Vec<u32> {
    let w = n / 32;
    let b = n % 32;
    if w >= a.len() {
        return vec![];
    }
    let mut r = Vec::new();
    for i in w..a.len() {
        let lo = a[i] as u64 >> b;
        let hi = if b > 0 && i + 1 < a.len() { (a[i + 1] as u64) << (32 - b) } else { 0 };
        r.push((lo | hi) as u32);
    }
    trim(r)
}
fn bits_mag(a: &[u32]) -> usize {
    match a.last() {
        None => 0,
        Some(x) => a.len() * 32 - x.leading_zeros() as usize,
    }
}
/// schoolbook long division (base 2^32, Knuth D)
fn divrem_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty());
    if cmp_mag(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0u32; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            let t = (r << 32) | a[i] as u64;
            q[i] = (t / d) as u32;
            r = t % d;
        }
        return (trim(q), trim(vec![r as u32]));
    }
    let s = b[b.len() - 1].leading_zeros() as usize;
    let bn = shl_mag(b, s);
    let mut an = shl_mag(a, s);
    while an.len() < a.len() + 1 {
        an.push(0);
    }
    let n = bn.len();
    let m = an.len() - n;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let num = ((an[j + n] as u64) << 32) | an[j + n - 1] as u64;
        let mut qh = num / bn[n - 1] as u64;
        let mut rh = num % bn[n - 1] as u64;
        while qh >= 1 << 32 || qh * bn[n - 2] as u64 > ((rh << 32) | an[j + n - 2] as u64) {
            qh -= 1;
            rh += bn[n - 1] as u64;
            if rh >= 1 << 32 {
                break;
            }
        }
        let mut br = 0i64;
        let mut c = 0u64;
        for i in 0..n {
            let p = qh * bn[i] as u64 + c;
            c = p >> 32;
            let t = an[j + i] as i64 - br - (p as u32) as i64;
            if t < 0 {
                an[j + i] = (t + (1 << 32)) as u32;
                br = 1;
            } else {
                an[j + i] = t as u32;
                br = 0;
            }
        }
        let t = an[j + n] as i64 - br - c as i64;
        if t < 0 {
            an[j + n] = (t + (1 << 32)) as u32;
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let t = an[j + i] as u64 + bn[i] as u64 + c;
                an[j + i] = t as u32;
                c = t >> 32;
            }
            an[j + n] = (an[j + n] as u64 + c) as u32;
        } else {
            an[j + n] = t as u32;
        }
        q[j] = qh as u32;
    }
    an.truncate(n);
    (trim(q), shr_mag(&trim(an), s))
}
fn gcd_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut a = a.to_vec();
    let mut b = b.to_vec();
    while !b.is_empty() {
        if a.len() <= 2 && b.len() <= 2 {
            let f = |v: &[u32]| v.iter().rev().fold(0u64, |x, y| (x << 32) | *y as u64);
            let (mut x, mut y) = (f(&a), f(&b));
            while y != 0 {
                let t = x % y;
                x = y;
                y = t;
            }
            return trim(vec![x as u32, (x >> 32) as u32]);
        }
        let r = divrem_mag(&a, &b).1;
        a = b;
        b = r;
    }
    a
}

impl Big {
    pub fn zero() -> Big {
        Big { neg: false, mag: vec![] }
    }
    fn new(neg: bool, mag: Vec<u32>) -> Big {
        let mag = trim(mag);
        Big { neg: neg && !mag.is_empty(), mag }
    }
    pub fn from_i128(x: i128) -> Big {
        let mut u = x.unsigned_abs();
        let mut m = vec![];
        while u > 0 {
            m.push(u as u32);
            u >>= 32;
        }
        Big::new(x < 0, m)
    }
    pub fn from_u128(x: u128) -> Big {
        let mut u = x;
        let mut m = vec![];
        while u > 0 {
            m.push(u as u32);
            u >>= 32;
        }
        Big::new(false, m)
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn is_one(&self) -> bool {
        !self.neg && self.mag.len() == 1 && self.mag[0] == 1
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            Big::new(self.neg, add_mag(&self.mag, &o.mag))
        } else {
            match cmp_mag(&self.mag, &o.mag) {
                Ordering::Equal => Big::zero(),
                Ordering::Greater => Big::new(self.neg, sub_mag(&self.mag, &o.mag)),
                Ordering::Less => Big::new(o.neg, sub_mag(&o.mag, &self.mag)),
            }
        }
    }
    pub fn negate(&self) -> Big {
        Big::new(!self.neg, self.mag.clone())
    }
    pub fn mul(&self, o: &Big) -> Big {
        Big::new(self.neg != o.neg, mul_mag(&self.mag, &o.mag))
    }
    pub fn divexact(&self, o: &Big) -> Big {
        Big::new(self.neg != o.neg, divrem_mag(&self.mag, &o.mag).0)
    }
    pub fn dec(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut parts = vec![];
        let mut m = self.mag.clone();
        while !m.is_empty() {
            let (q, r) = divrem_mag(&m, &[1_000_000_000]);
            parts.push(*r.first().unwrap_or(&0));
            m = q;
        }
        let mut s = parts.pop().unwrap().to_string();
        for p in parts.iter().rev() {
            s.push_str(&format!("{:09}", p));
        }
        s
    }
    pub fn parse_dec(s: &str) -> Big {
        let mut r: Vec<u32> = vec![];
        for c in s.bytes() {
            let d = (c - b'0') as u32;
            r = add_mag(&mul_mag(&r, &[10]), &trim(vec![d]));
        }
        Big::new(false, r)
    }
    pub fn to_f64(&self) -> f64 {
        Rat { n: self.clone(), d: Big::from_i128(1) }.to_f64()
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: Big,
    pub d: Big, // > 0, gcd = 1
}

impl Rat {
    pub fn int(x: i128) -> Rat {
        Rat { n: Big::from_i128(x), d: Big::from_i128(1) }
    }
    pub fn zero() -> Rat {
        Rat::int(0)
    }
    pub fn one() -> Rat {
        Rat::int(1)
    }
    pub fn new(n: Big, d: Big) -> Rat {
        assert!(!d.is_zero());
        let neg = n.neg != d.neg;
        if n.is_zero() {
            return Rat::zero();
        }
        let g = gcd_mag(&n.mag, &d.mag);
        if g.len() == 1 && g[0] == 1 {
            return Rat { n: Big::new(neg, n.mag), d: Big::new(false, d.mag) };
        }
        Rat {
            n: Big::new(neg, divrem_mag(&n.mag, &g).0),
            d: Big::new(false, divrem_mag(&d.mag, &g).0),
        }
    }
    pub fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
    pub fn is_one(&self) -> bool {
        self.n.is_one() && self.d.is_one()
    }
    pub fn is_int(&self) -> bool {
        self.d.is_one()
    }
    pub fn sign(&self) -> i32 {
        if self.n.is_zero() {
            0
        } else if self.n.neg {
            -1
        } else {
            1
        }
    }
    pub fn add(&self, o: &Rat) -> Rat {
        Rat::new(self.n.mul(&o.d).add(&o.n.mul(&self.d)), self.d.mul(&o.d))
    }
    pub fn neg(&self) -> Rat {
        Rat { n: self.n.negate(), d: self.d.clone() }
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        Rat::new(self.n.mul(&o.n), self.d.mul(&o.d))
    }
    pub fn inv(&self) -> Rat {
        Rat::new(Big::new(self.n.neg, self.d.mag.clone()), Big::new(false, self.n.mag.clone()))
    }
    pub fn div(&self, o: &Rat) -> Rat {
        self.mul(&o.inv())
    }
    pub fn cmp(&self, o: &Rat) -> Ordering {
        match self.sub(o).sign() {
            -1 => Ordering::Less,
            0 => Ordering::Equal,
            _ => Ordering::Greater,
        }
    }
    pub fn from_f64(x: f64) -> Rat {
        assert!(x.is_finite());
        if x == 0.0 {
            return Rat::zero();
        }
        let b = x.to_bits();
        let e = ((b >> 52) & 0x7ff) as i64;
        let m = b & ((1 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        let tz = m.trailing_zeros() as i64;
        let (m, e) = (m >> tz, e + tz);
        let n = Big::new(x < 0.0, vec![m as u32, (m >> 32) as u32]);
        if e >= 0 {
            Rat { n: Big::new(n.neg, shl_mag(&n.mag, e as usize)), d: Big::from_i128(1) }
        } else {
            Rat { n, d: Big::new(false, shl_mag(&[1], (-e) as usize)) }
        }
    }
    /// nearest-ish f64 (correct to within 1ulp; exact when representable)
    pub fn to_f64(&self) -> f64 {
        if self.is_zero() {
            return 0.0;
        }
        let nb = bits_mag(&self.n.mag) as i64;
        let db = bits_mag(&self.d.mag) as i64;
        // want quotient with 64..66 bits
        let sh = 65 - (nb - db);
        let (nn, dd) = if sh >= 0 {
            (shl_mag(&self.n.mag, sh as usize), self.d.mag.clone())
        } else {
            (self.n.mag.clone(), shl_mag(&self.d.mag, (-sh) as usize))
        };
        let (q, r) = divrem_mag(&nn, &dd);
        let mut v: u128 = q.iter().rev().fold(0u128, |a, b| (a << 32) | *b as u128);
        if !r.is_empty() {
            v |= 1; // sticky
        }
        let f = v as f64; // correctly rounded
        let res = mul_pow2(f, -sh);
        if self.n.neg {
            -res
        } else {
            res
        }
    }
    pub fn exact_f64(&self) -> Option<f64> {
        let f = self.to_f64();
        if f.is_finite() && Rat::from_f64(f) == *self {
            Some(f)
        } else {
            None
        }
    }
    pub fn smt(&self) -> String {
        let body = if self.d.is_one() {
            format!("{}.0", Big { neg: false, mag: self.n.mag.clone() }.dec())
        } else {
            format!("(/ {}.0 {}.0)", Big { neg: false, mag: self.n.mag.clone() }.dec(), self.d.dec())
        };
        if self.n.neg {
            format!("(- {})", body)
        } else {
            body
        }
    }
    pub fn floor(&self) -> Rat {
        let (q, r) = divrem_mag(&self.n.mag, &self.d.mag);
        let mut b = Big::new(self.n.neg, q);
        if self.n.neg && !r.is_empty() {
            b = b.add(&Big::from_i128(-1));
        }
        Rat { n: b, d: Big::from_i128(1) }
    }
    pub fn to_i128(&self) -> Option<i128> {
        if !self.d.is_one() || self.n.mag.len() > 3 {
            return None;
        }
        let v = self.n.mag.iter().rev().fold(0i128, |a, b| (a << 32) | *b as i128);
        Some(if self.n.neg { -v } else { v })
    }
}

fn mul_pow2(f: f64, e: i64) -> f64 {
    let mut f = f;
    let mut e = e;
    while e > 500 {
        f *= 2f64.powi(500);
        e -= 500;
    }
    while e < -500 {
        f *= 2f64.powi(-500);
        e += 500;
    }
    f * 2f64.powi(e as i32)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn arith() {
        let mut s = 12345u64;
        let mut next = || {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            s
        };
        for _ in 0..2000 {
            let a = (next() as i64 >> (next() % 60)) as i128;
            let b = (next() as i64 >> (next() % 60)) as i128;
            let c = (next() as i64 >> (next() % 60)) as i128;
            let (x, y, z) = (Big::from_i128(a * b), Big::from_i128(b * 7 + 1), Big::from_i128(c));
            assert_eq!(x.add(&z), Big::from_i128(a * b + c));
            assert_eq!(x.add(&z).dec(), (a * b + c).unsigned_abs().to_string());
            if !y.is_zero() {
                let (q, r) = divrem_mag(&x.mag, &y.mag);
                let back = add_mag(&mul_mag(&q, &y.mag), &r);
                assert_eq!(trim(back), x.mag);
                let big = mul_mag(&mul_mag(&x.mag, &x.mag), &z.mag);
                let dv = mul_mag(&y.mag, &y.mag);
                let (q, r) = divrem_mag(&big, &dv);
                assert_eq!(cmp_mag(&r, &dv), Ordering::Less);
                assert_eq!(trim(add_mag(&mul_mag(&q, &dv), &r)), big);
            }
            let f = f64::from_bits(next());
            if f.is_finite() {
                assert_eq!(Rat::from_f64(f).to_f64(), f);
            }
            let (p, q) = (f64::from_bits((next() >> 2) | 1), (next() >> 20) as f64 + 1.0);
            if p.is_finite() && p > 1e-200 && p < 1e200 {
                let r = Rat::from_f64(p).div(&Rat::from_f64(q));
                assert_eq!(r.to_f64(), p / q);
            }
        }
    }
}
