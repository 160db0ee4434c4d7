//! Exact rational numbers with a small fast path.
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub enum Q {
    S(i64, i64), // numerator, denominator > 0, coprime
    B(Box<BigRational>),
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
            let (mut x, mut y) = (a as u64, b as u64);
            while y != 0 {
                let t = x % y;
                x = y;
                y = t;
            }
            return x as i128;
        }
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}

impl Q {
    pub const ZERO: Q = Q::S(0, 1);
    pub const ONE: Q = Q::S(1, 1);
    pub fn int(n: i64) -> Q {
        if n == i64::MIN {
            return Q::from_big(BigRational::from_integer(BigInt::from(n)));
        }
        Q::S(n, 1)
    }
    pub fn frac(n: i64, d: i64) -> Q {
        Q::norm128(n as i128, d as i128)
    }
    fn norm128(n: i128, d: i128) -> Q {
        if n == 0 {
            return Q::S(0, 1);
        }
        let g = gcd(n, d);
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 {
            n = -n;
            d = -d;
        }
        if n.unsigned_abs() <= i64::MAX as u128 && d <= i64::MAX as i128 {
            Q::S(n as i64, d as i64)
        } else {
            Q::B(Box::new(BigRational::new_raw(BigInt::from(n), BigInt::from(d))))
        }
    }
    pub fn from_big(b: BigRational) -> Q {
        if let (Some(n), Some(d)) = (b.numer().to_i64(), b.denom().to_i64()) {
            if n != i64::MIN && d != i64::MIN {
                return Q::S(n, d);
            }
        }
        Q::B(Box::new(b))
    }
    pub fn from_f64(x: f64) -> Option<Q> {
        if x == x.trunc() && x.abs() < 9e15 {
            return Some(Q::S(x as i64, 1));
        }
        BigRational::from_float(x).map(Q::from_big)
    }
    pub fn big(&self) -> BigRational {
        match self {
            Q::S(n, d) => BigRational::new_raw(BigInt::from(*n), BigInt::from(*d)),
            Q::B(b) => (**b).clone(),
        }
    }
    pub fn to_f64(&self) -> f64 {
        match self {
            Q::S(n, d) if n.unsigned_abs() < (1 << 53) && *d < (1 << 53) => *n as f64 / *d as f64,
            _ => self.big().to_f64().unwrap_or(f64::NAN),
        }
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, Q::S(0, _))
    }
    pub fn is_one(&self) -> bool {
        matches!(self, Q::S(1, 1))
    }
    pub fn sign(&self) -> i32 {
        match self {
            Q::S(n, _) => n.signum() as i32,
            Q::B(b) => {
                if b.is_positive() {
                    1
                } else if b.is_negative() {
                    -1
                } else {
                    0
                }
            }
        }
    }
    pub fn add(&self, o: &Q) -> Q {
        if let (Q::S(a, b), Q::S(c, d)) = (self, o) {
            if b == d {
                return Q::norm128(*a as i128 + *c as i128, *b as i128);
            }
            let x = (*a as i128) * (*d as i128);
            let y = (*c as i128) * (*b as i128);
            if let Some(n) = x.checked_add(y) {
                return Q::norm128(n, (*b as i128) * (*d as i128));
            }
        }
        Q::from_big(self.big() + o.big())
    }
    pub fn neg(&self) -> Q {
        match self {
            Q::S(n, d) => Q::S(-n, *d),
            Q::B(b) => Q::from_big(-(**b).clone()),
        }
    }
    pub fn sub(&self, o: &Q) -> Q {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Q) -> Q {
        if let (Q::S(a, b), Q::S(c, d)) = (self, o) {
            return Q::norm128((*a as i128) * (*c as i128), (*b as i128) * (*d as i128));
        }
        Q::from_big(self.big() * o.big())
    }
    pub fn inv(&self) -> Q {
        match self {
            Q::S(n, d) => {
                assert!(*n != 0);
                if *n < 0 {
                    Q::S(-d, -n)
                } else {
                    Q::S(*d, *n)
                }
            }
            Q::B(b) => Q::from_big(b.recip()),
        }
    }
    pub fn div(&self, o: &Q) -> Q {
        self.mul(&o.inv())
    }
    pub fn floor(&self) -> Q {
        match self {
            Q::S(n, d) => Q::S(n.div_floor(d), 1),
            Q::B(b) => Q::from_big(b.floor()),
        }
    }
    pub fn abs(&self) -> Q {
        if self.sign() < 0 {
            self.neg()
        } else {
            self.clone()
        }
    }
    /// exact square root together with a squarefree remainder: self = r^2 * k / 1, k a positive
    /// integer from which small square factors have been removed. Requires self > 0.
    pub fn sqrt_parts(&self) -> (Q, Q) {
        let b = self.big();
        // n/d = n*d/d^2
        let m = b.numer() * b.denom();
        let r = m.sqrt();
        if &r * &r == m {
            return (
                Q::from_big(BigRational::new(r, b.denom().clone())),
                Q::ONE,
            );
        }
        let mut rest = m;
        let mut out = BigInt::one();
        for p in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31] {
            let p2 = BigInt::from(p * p);
            loop {
                let (q, rem) = rest.div_rem(&p2);
                if rem.is_zero() {
                    rest = q;
                    out *= p;
                } else {
                    break;
                }
            }
        }
        (
            Q::from_big(BigRational::new(out, b.denom().clone())),
            Q::from_big(BigRational::from_integer(rest)),
        )
    }
    /// the exponent of the next power of two, roughly
    pub fn magnitude(&self) -> i64 {
        match self {
            Q::S(..) => 0,
            Q::B(b) => b.numer().bits() as i64 - b.denom().bits() as i64,
        }
    }
    /// the nearest multiple of a power of two with `bits` significant bits, for numbers that take more than that
    pub fn rounded(&self, bits: u64) -> Q {
        let Q::B(b) = self else { return self.clone() };
        let (n, d) = (b.numer(), b.denom());
        if n.bits() <= 2 * bits && d.bits() <= 2 * bits {
            return self.clone();
        }
        // n/d ~ 2^e
        let e = n.bits() as i64 - d.bits() as i64;
        let k = bits as i64 - e;
        let two = BigInt::from(2);
        let r = if k >= 0 {
            BigRational::new((n << (k as u64)) / d, two.pow(k as u32))
        } else {
            BigRational::from_integer((n / (d << ((-k) as u64))) << ((-k) as u64))
        };
        Q::from_big(r)
    }
    /// a square root to `bits` bits
    pub fn sqrt_rounded(&self, bits: u64) -> Q {
        let b = self.big();
        let e = b.numer().bits() as i64 - b.denom().bits() as i64;
        let k = (2 * bits as i64 - e).max(0) as u64 & !1;
        let m = (b.numer() << k) / b.denom();
        Q::from_big(BigRational::new(m.sqrt(), BigInt::from(2).pow((k / 2) as u32)))
    }
    pub fn smt(&self) -> String {
        let f = |n: &BigInt, d: &BigInt| {
            let neg = n.is_negative();
            let a = n.abs();
            let s = if d.is_one() {
                format!("{}.0", a)
            } else {
                format!("(/ {}.0 {}.0)", a, d)
            };
            if neg {
                format!("(- {})", s)
            } else {
                s
            }
        };
        let b = self.big();
        f(b.numer(), b.denom())
    }
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        match (self, o) {
            (Q::S(a, b), Q::S(c, d)) => a == c && b == d,
            (Q::B(a), Q::B(b)) => a == b,
            _ => false,
        }
    }
}
impl Eq for Q {}
impl std::hash::Hash for Q {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        match self {
            Q::S(a, b) => {
                a.hash(h);
                b.hash(h)
            }
            Q::B(b) => b.hash(h),
        }
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        if let (Q::S(a, b), Q::S(c, d)) = (self, o) {
            return ((*a as i128) * (*d as i128)).cmp(&((*c as i128) * (*b as i128)));
        }
        self.big().cmp(&o.big())
    }
}
