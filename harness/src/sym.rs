//! `Sym`: the symbolic scalar at which curvo's generic kernels are instantiated.
use crate::engine::*;
use crate::poly::*;
use crate::q::Q;
use num_traits::{FromPrimitive, Num, NumCast, One, Signed, ToPrimitive, Zero};
use simba::scalar::{ComplexField, Field, RealField, SubsetOf};
use simba::simd::SimdValue;
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

impl Sym {
    pub fn f(x: f64) -> Sym {
        Sym(with(|e| e.cst_f64(x)))
    }
    pub fn q(n: i64, d: i64) -> Sym {
        Sym(with(|e| e.cst(Q::frac(n, d))))
    }
    pub fn as_const(&self) -> Option<Q> {
        with(|e| e.rat(self.0).and_then(|r| r.as_const()))
    }
    pub fn is_nan_(&self) -> bool {
        self.0 == 0
    }
    pub fn rel(self, o: Sym, r: Rel) -> bool {
        with(|e| e.cmp_rel(self.0, o.0, r))
    }
    pub fn approx_value(&self) -> f64 {
        match self.as_const() {
            Some(c) => c.to_f64(),
            None => match self.0 {
                1 => f64::INFINITY,
                2 => f64::NEG_INFINITY,
                _ => f64::NAN,
            },
        }
    }
    fn unary_const(self, what: &str, f: impl Fn(f64) -> f64) -> Sym {
        match self.0 {
            0 => return self,
            1 => return Sym::f(f(f64::INFINITY)),
            2 => return Sym::f(f(f64::NEG_INFINITY)),
            _ => {}
        }
        match self.as_const() {
            Some(c) => Sym::f(f(c.to_f64())),
            None => abort(Abort::Unsupported(format!("{} of a symbolic value", what))),
        }
    }
    pub fn floor_i(self) -> Option<i64> {
        if self.0 < 3 {
            return None;
        }
        if let Some(c) = self.as_const() {
            return match c.floor() {
                Q::S(n, _) => Some(n),
                _ => None,
            };
        }
        for _ in 0..200 {
            let cand = with(|e| {
                if e.pos < e.prefix.len() {
                    if let Dec::Cand(n) = e.prefix[e.pos] {
                        e.pos += 1;
                        e.taken.push(Dec::Cand(n));
                        return n;
                    }
                    abort(Abort::Unsupported("replay diverged".into()));
                }
                // a model of the path condition
                let r = e.rat(self.0).unwrap();
                let (res, m) = e.query(&[], &[(0, 5000), (1, 5000)], true, true);
                if res != crate::solver::Res::Sat {
                    abort(Abort::Unsupported("no model for floor".into()));
                }
                let n = r.eval_f64(&|v| *m.get(&format!("v{}", v)).unwrap_or(&0.0)).floor() as i64;
                e.taken.push(Dec::Cand(n));
                e.pos = e.taken.len();
                n
            });
            let lo = Sym::q(cand, 1);
            let hi = Sym::q(cand + 1, 1);
            if self.rel(lo, Rel::Ge) {
                if self.rel(hi, Rel::Lt) {
                    return Some(cand);
                }
            }
        }
        abort(Abort::Budget("floor".into()))
    }
}

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.as_const() {
            Some(c) => write!(f, "{}", c.to_f64()),
            None => write!(f, "<sym {}>", self.0),
        }
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl fmt::LowerExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl Default for Sym {
    fn default() -> Self {
        Sym::f(0.0)
    }
}

macro_rules! bin {
    ($tr:ident, $m:ident, $atr:ident, $am:ident, $f:expr) => {
        impl $tr for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                let f: fn(&mut Engine, u32, u32) -> u32 = $f;
                Sym(with(|e| f(e, self.0, o.0)))
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &'a Sym) -> Sym {
                $tr::$m(self, *o)
            }
        }
        impl<'a> $tr<Sym> for &'a Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                $tr::$m(*self, o)
            }
        }
        impl<'a, 'b> $tr<&'b Sym> for &'a Sym {
            type Output = Sym;
            fn $m(self, o: &'b Sym) -> Sym {
                $tr::$m(*self, *o)
            }
        }
        impl $atr for Sym {
            fn $am(&mut self, o: Sym) {
                *self = $tr::$m(*self, o);
            }
        }
        impl<'a> $atr<&'a Sym> for Sym {
            fn $am(&mut self, o: &'a Sym) {
                *self = $tr::$m(*self, *o);
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, |e, a, b| e.add(a, b));
bin!(Sub, sub, SubAssign, sub_assign, |e, a, b| {
    let n = e.neg(b);
    e.add(a, n)
});
bin!(Mul, mul, MulAssign, mul_assign, |e, a, b| e.mul(a, b));
bin!(Div, div, DivAssign, div_assign, |e, a, b| e.div(a, b));

impl Rem for Sym {
    type Output = Sym;
    fn rem(self, o: Sym) -> Sym {
        if o.0 == 1 || o.0 == 2 {
            return self;
        }
        let q = self / o;
        let n = match ComplexField::abs(q).floor_i() {
            Some(n) => Sym::q(n, 1),
            None => return Sym(0),
        };
        let n = if q < Sym::f(0.0) { -n } else { n };
        self - n * o
    }
}
impl RemAssign for Sym {
    fn rem_assign(&mut self, o: Sym) {
        *self = *self % o;
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym(with(|e| e.neg(self.0)))
    }
}
impl<'a> Neg for &'a Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        -*self
    }
}
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym::f(0.0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(Sym::f(0.0), |a, b| a + *b)
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        self.rel(*o, Rel::Eq)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if self.0 == 0 || o.0 == 0 {
            return None;
        }
        if self.rel(*o, Rel::Lt) {
            Some(Ordering::Less)
        } else if self.rel(*o, Rel::Eq) {
            Some(Ordering::Equal)
        } else {
            Some(Ordering::Greater)
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        self.rel(*o, Rel::Lt)
    }
    fn le(&self, o: &Sym) -> bool {
        self.rel(*o, Rel::Le)
    }
    fn gt(&self, o: &Sym) -> bool {
        self.rel(*o, Rel::Gt)
    }
    fn ge(&self, o: &Sym) -> bool {
        self.rel(*o, Rel::Ge)
    }
}
impl From<Sym> for f64 {
    fn from(s: Sym) -> f64 {
        crate::handle::to_box(s)
    }
}
impl From<f32> for Sym {
    fn from(x: f32) -> Sym {
        Sym::f(x as f64)
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym::f(0.0)
    }
    fn is_zero(&self) -> bool {
        *self == Sym::f(0.0)
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym::f(1.0)
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> {
        Err(())
    }
}
impl Signed for Sym {
    fn abs(&self) -> Sym {
        if self.0 == 0 {
            return *self;
        }
        if *self < Sym::f(0.0) {
            -*self
        } else {
            *self
        }
    }
    fn abs_sub(&self, o: &Sym) -> Sym {
        if *self <= *o {
            Sym::f(0.0)
        } else {
            *self - *o
        }
    }
    // f64 semantics: sign bit, so +0 counts as positive
    fn signum(&self) -> Sym {
        if self.0 == 0 {
            return *self;
        }
        if *self < Sym::f(0.0) {
            Sym::f(-1.0)
        } else {
            Sym::f(1.0)
        }
    }
    fn is_positive(&self) -> bool {
        *self >= Sym::f(0.0)
    }
    fn is_negative(&self) -> bool {
        *self < Sym::f(0.0)
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        if self.0 < 3 {
            return None;
        }
        if let Some(c) = self.as_const() {
            let t = if c.sign() < 0 { c.neg().floor().neg() } else { c.floor() };
            return match t {
                Q::S(n, _) => Some(n),
                _ => None,
            };
        }
        let neg = *self < Sym::f(0.0);
        let a = if neg { -*self } else { *self };
        a.floor_i().map(|n| if neg { -n } else { n })
    }
    fn to_u64(&self) -> Option<u64> {
        if self.0 < 3 || *self <= Sym::f(-1.0) {
            return None;
        }
        self.to_i64().and_then(|x| if x < 0 { None } else { Some(x as u64) })
    }
    fn to_f64(&self) -> Option<f64> {
        match self.0 {
            0 => return Some(f64::NAN),
            1 => return Some(f64::INFINITY),
            2 => return Some(f64::NEG_INFINITY),
            _ => {}
        }
        match self.as_const() {
            Some(c) => Some(c.to_f64()),
            None => crate::handle::to_handle(*self),
        }
    }
}
impl NumCast for Sym {
    fn from<N: ToPrimitive>(n: N) -> Option<Sym> {
        n.to_f64().map(Sym::f)
    }
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> {
        Some(Sym::q(n, 1))
    }
    fn from_u64(n: u64) -> Option<Sym> {
        Some(Sym::q(n as i64, 1))
    }
    fn from_f64(x: f64) -> Option<Sym> {
        if let Some(s) = crate::handle::from_handle(x) {
            return Some(s);
        }
        Some(Sym::f(x))
    }
    fn from_f32(x: f32) -> Option<Sym> {
        Some(Sym::f(x as f64))
    }
}
impl SimdValue for Sym {
    const LANES: usize = 1;
    type Element = Sym;
    type SimdBool = bool;
    fn splat(val: Sym) -> Sym {
        val
    }
    fn extract(&self, _: usize) -> Sym {
        *self
    }
    unsafe fn extract_unchecked(&self, _: usize) -> Sym {
        *self
    }
    fn replace(&mut self, _: usize, val: Sym) {
        *self = val
    }
    unsafe fn replace_unchecked(&mut self, _: usize, val: Sym) {
        *self = val
    }
    fn select(self, c: bool, o: Sym) -> Sym {
        if c {
            self
        } else {
            o
        }
    }
}
impl Field for Sym {}
impl SubsetOf<Sym> for Sym {
    fn to_superset(&self) -> Sym {
        *self
    }
    fn from_superset_unchecked(e: &Sym) -> Sym {
        *e
    }
    fn is_in_subset(_: &Sym) -> bool {
        true
    }
}
macro_rules! subset {
    ($($t:ty),*) => {$(
        impl SubsetOf<Sym> for $t {
            fn to_superset(&self) -> Sym {
                Sym::f(*self as f64)
            }
            fn from_superset_unchecked(e: &Sym) -> $t {
                e.to_f64().unwrap() as $t
            }
            fn is_in_subset(_: &Sym) -> bool {
                true
            }
        }
    )*};
}
subset!(f32, f64);

impl approx::AbsDiffEq for Sym {
    type Epsilon = Sym;
    fn default_epsilon() -> Sym {
        Sym::f(f64::EPSILON)
    }
    fn abs_diff_eq(&self, o: &Sym, eps: Sym) -> bool {
        Signed::abs(&(*self - *o)) <= eps
    }
}
impl approx::RelativeEq for Sym {
    fn default_max_relative() -> Sym {
        Sym::f(f64::EPSILON)
    }
    fn relative_eq(&self, o: &Sym, eps: Sym, mr: Sym) -> bool {
        if *self == *o {
            return true;
        }
        let d = Signed::abs(&(*self - *o));
        if d <= eps {
            return true;
        }
        let a = Signed::abs(self);
        let b = Signed::abs(o);
        let l = if b > a { b } else { a };
        d <= l * mr
    }
}
impl approx::UlpsEq for Sym {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, o: &Sym, eps: Sym, _: u32) -> bool {
        approx::RelativeEq::relative_eq(self, o, eps, Sym::f(4.0 * f64::EPSILON))
    }
}

fn angle_pair(c: Sym, s: Sym, lo: f64, hi: f64) -> Sym {
    // a fresh angle with the given cosine and sine
    with(|e| {
        let n = e.vars.len();
        let v = e.new_var(&format!("ang{}", n), VarKind::Input, Q::from_f64(lo), Q::from_f64(hi));
        e.angle_defs.insert(v, (c.0, s.0));
        e.notes.insert("inverse trigonometric function introduced as a fresh bounded angle".into());
        if lo == 0.0 || hi == 0.0 {
            // the end zero is decided before: the angle is strictly inside
            let key = std::rc::Rc::new(crate::poly::Poly::var(v));
            let rel = if lo == 0.0 { crate::engine::Rel::Gt } else { crate::engine::Rel::Lt };
            e.facts.insert(key.clone(), rel.mask());
            e.condition(crate::engine::Cond { p: key, rel });
        }
        Sym(e.push_rat(Rat::var(v)))
    })
}
fn signed_angle(c: Sym, s: Sym, lo: f64, hi: f64) -> Sym {
    let zero = Sym::f(0.0);
    if s > zero {
        angle_pair(c, s, 0.0, hi)
    } else if s < zero {
        angle_pair(c, s, lo, 0.0)
    } else if c >= zero {
        zero
    } else {
        Sym::f(std::f64::consts::PI)
    }
}

impl ComplexField for Sym {
    type RealField = Sym;
    fn from_real(re: Sym) -> Sym {
        re
    }
    fn real(self) -> Sym {
        self
    }
    fn imaginary(self) -> Sym {
        Sym::f(0.0)
    }
    fn modulus(self) -> Sym {
        Signed::abs(&self)
    }
    fn modulus_squared(self) -> Sym {
        self * self
    }
    fn argument(self) -> Sym {
        if self >= Sym::f(0.0) {
            Sym::f(0.0)
        } else {
            <Sym as RealField>::pi()
        }
    }
    fn norm1(self) -> Sym {
        Signed::abs(&self)
    }
    fn scale(self, f: Sym) -> Sym {
        self * f
    }
    fn unscale(self, f: Sym) -> Sym {
        self / f
    }
    fn floor(self) -> Sym {
        match self.floor_i() {
            Some(n) => Sym::q(n, 1),
            None => self,
        }
    }
    fn ceil(self) -> Sym {
        -ComplexField::floor(-self)
    }
    fn round(self) -> Sym {
        if self >= Sym::f(0.0) {
            ComplexField::floor(self + Sym::f(0.5))
        } else {
            -ComplexField::floor(-self + Sym::f(0.5))
        }
    }
    fn trunc(self) -> Sym {
        if self >= Sym::f(0.0) {
            ComplexField::floor(self)
        } else {
            -ComplexField::floor(-self)
        }
    }
    fn fract(self) -> Sym {
        self - ComplexField::trunc(self)
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn abs(self) -> Sym {
        Signed::abs(&self)
    }
    fn hypot(self, o: Sym) -> Sym {
        ComplexField::sqrt(self * self + o * o)
    }
    fn recip(self) -> Sym {
        Sym::f(1.0) / self
    }
    fn conjugate(self) -> Sym {
        self
    }
    fn sin(self) -> Sym {
        if self.0 < 3 {
            return Sym(0);
        }
        with(|e| Sym(e.cos_sin(self.0).unwrap().1))
    }
    fn cos(self) -> Sym {
        if self.0 < 3 {
            return Sym(0);
        }
        with(|e| Sym(e.cos_sin(self.0).unwrap().0))
    }
    fn sin_cos(self) -> (Sym, Sym) {
        if self.0 < 3 {
            return (Sym(0), Sym(0));
        }
        with(|e| {
            let (c, s) = e.cos_sin(self.0).unwrap();
            (Sym(s), Sym(c))
        })
    }
    fn tan(self) -> Sym {
        ComplexField::sin(self) / ComplexField::cos(self)
    }
    fn asin(self) -> Sym {
        if self.as_const().is_some() || self.0 < 3 {
            return self.unary_const("asin", f64::asin);
        }
        let one = Sym::f(1.0);
        if self > one || self < -one {
            return Sym(0);
        }
        let c = ComplexField::sqrt(one - self * self);
        signed_angle(c, self, -std::f64::consts::FRAC_PI_2, std::f64::consts::FRAC_PI_2)
    }
    fn acos(self) -> Sym {
        if self.as_const().is_some() || self.0 < 3 {
            return self.unary_const("acos", f64::acos);
        }
        let one = Sym::f(1.0);
        if self > one || self < -one {
            return Sym(0);
        }
        if self == one {
            return Sym::f(0.0);
        }
        if self == -one {
            return Sym::f(std::f64::consts::PI);
        }
        let s = ComplexField::sqrt(one - self * self);
        angle_pair(self, s, 0.0, std::f64::consts::PI)
    }
    fn atan(self) -> Sym {
        if self.as_const().is_some() || self.0 < 3 {
            return self.unary_const("atan", f64::atan);
        }
        RealField::atan2(self, Sym::f(1.0))
    }
    fn sinh(self) -> Sym {
        self.unary_const("sinh", f64::sinh)
    }
    fn cosh(self) -> Sym {
        self.unary_const("cosh", f64::cosh)
    }
    fn tanh(self) -> Sym {
        self.unary_const("tanh", f64::tanh)
    }
    fn asinh(self) -> Sym {
        self.unary_const("asinh", f64::asinh)
    }
    fn acosh(self) -> Sym {
        self.unary_const("acosh", f64::acosh)
    }
    fn atanh(self) -> Sym {
        self.unary_const("atanh", f64::atanh)
    }
    fn log(self, b: Sym) -> Sym {
        let b = b.approx_value();
        self.unary_const("log", move |x| x.log(b))
    }
    fn log2(self) -> Sym {
        self.unary_const("log2", f64::log2)
    }
    fn log10(self) -> Sym {
        self.unary_const("log10", f64::log10)
    }
    fn ln(self) -> Sym {
        self.unary_const("ln", f64::ln)
    }
    fn ln_1p(self) -> Sym {
        self.unary_const("ln_1p", f64::ln_1p)
    }
    fn sqrt(self) -> Sym {
        Sym(with(|e| e.sqrt(self.0)))
    }
    fn exp(self) -> Sym {
        self.unary_const("exp", f64::exp)
    }
    fn exp2(self) -> Sym {
        self.unary_const("exp2", f64::exp2)
    }
    fn exp_m1(self) -> Sym {
        self.unary_const("exp_m1", f64::exp_m1)
    }
    fn powi(self, n: i32) -> Sym {
        let mut r = Sym::f(1.0);
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 {
            Sym::f(1.0) / r
        } else {
            r
        }
    }
    fn powf(self, n: Sym) -> Sym {
        match n.as_const() {
            Some(c) => {
                let f = c.to_f64();
                if f == f.trunc() && f.abs() < 64.0 {
                    return ComplexField::powi(self, f as i32);
                }
                if (2.0 * f) == (2.0 * f).trunc() && f.abs() < 64.0 {
                    let s = ComplexField::sqrt(self);
                    return ComplexField::powi(s, (2.0 * f) as i32);
                }
                self.unary_const("powf", move |x| x.powf(f))
            }
            None => abort(Abort::Unsupported("symbolic exponent".into())),
        }
    }
    fn powc(self, n: Sym) -> Sym {
        ComplexField::powf(self, n)
    }
    fn cbrt(self) -> Sym {
        self.unary_const("cbrt", f64::cbrt)
    }
    fn is_finite(&self) -> bool {
        self.0 >= 3
    }
    fn try_sqrt(self) -> Option<Sym> {
        if self >= Sym::f(0.0) {
            Some(ComplexField::sqrt(self))
        } else {
            None
        }
    }
}
impl RealField for Sym {
    fn is_sign_positive(&self) -> bool {
        *self >= Sym::f(0.0)
    }
    fn is_sign_negative(&self) -> bool {
        *self < Sym::f(0.0)
    }
    fn copysign(self, s: Sym) -> Sym {
        let a = Signed::abs(&self);
        if s >= Sym::f(0.0) {
            a
        } else {
            -a
        }
    }
    fn max(self, o: Sym) -> Sym {
        if self.0 == 0 {
            return o;
        }
        if o.0 == 0 {
            return self;
        }
        if self < o {
            o
        } else {
            self
        }
    }
    fn min(self, o: Sym) -> Sym {
        if self.0 == 0 {
            return o;
        }
        if o.0 == 0 {
            return self;
        }
        if self > o {
            o
        } else {
            self
        }
    }
    fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        if self < lo {
            lo
        } else if self > hi {
            hi
        } else {
            self
        }
    }
    fn atan2(self, x: Sym) -> Sym {
        if let (Some(a), Some(b)) = (self.as_const(), x.as_const()) {
            return Sym::f(a.to_f64().atan2(b.to_f64()));
        }
        let r = ComplexField::sqrt(self * self + x * x);
        if r == Sym::f(0.0) {
            return Sym::f(0.0);
        }
        signed_angle(x / r, self / r, -std::f64::consts::PI, std::f64::consts::PI)
    }
    fn min_value() -> Option<Sym> {
        Some(Sym::f(f64::MIN))
    }
    fn max_value() -> Option<Sym> {
        Some(Sym::f(f64::MAX))
    }
    fn pi() -> Sym {
        Sym::f(std::f64::consts::PI)
    }
    fn two_pi() -> Sym {
        Sym::f(std::f64::consts::PI + std::f64::consts::PI)
    }
    fn frac_pi_2() -> Sym {
        Sym::f(std::f64::consts::FRAC_PI_2)
    }
    fn frac_pi_3() -> Sym {
        Sym::f(std::f64::consts::FRAC_PI_3)
    }
    fn frac_pi_4() -> Sym {
        Sym::f(std::f64::consts::FRAC_PI_4)
    }
    fn frac_pi_6() -> Sym {
        Sym::f(std::f64::consts::FRAC_PI_6)
    }
    fn frac_pi_8() -> Sym {
        Sym::f(std::f64::consts::FRAC_PI_8)
    }
    fn frac_1_pi() -> Sym {
        Sym::f(std::f64::consts::FRAC_1_PI)
    }
    fn frac_2_pi() -> Sym {
        Sym::f(std::f64::consts::FRAC_2_PI)
    }
    fn frac_2_sqrt_pi() -> Sym {
        Sym::f(std::f64::consts::FRAC_2_SQRT_PI)
    }
    fn e() -> Sym {
        Sym::f(std::f64::consts::E)
    }
    fn log2_e() -> Sym {
        Sym::f(std::f64::consts::LOG2_E)
    }
    fn log10_e() -> Sym {
        Sym::f(std::f64::consts::LOG10_E)
    }
    fn ln_2() -> Sym {
        Sym::f(std::f64::consts::LN_2)
    }
    fn ln_10() -> Sym {
        Sym::f(std::f64::consts::LN_10)
    }
}

impl num_traits::Float for Sym {
    fn nan() -> Sym {
        Sym(0)
    }
    fn infinity() -> Sym {
        Sym(1)
    }
    fn neg_infinity() -> Sym {
        Sym(2)
    }
    fn neg_zero() -> Sym {
        Sym::f(0.0)
    }
    fn min_value() -> Sym {
        Sym::f(f64::MIN)
    }
    fn min_positive_value() -> Sym {
        Sym::f(f64::MIN_POSITIVE)
    }
    fn epsilon() -> Sym {
        Sym::f(f64::EPSILON)
    }
    fn max_value() -> Sym {
        Sym::f(f64::MAX)
    }
    fn is_nan(self) -> bool {
        self.0 == 0
    }
    fn is_infinite(self) -> bool {
        self.0 == 1 || self.0 == 2
    }
    fn is_finite(self) -> bool {
        self.0 >= 3
    }
    fn is_normal(self) -> bool {
        self.0 >= 3
    }
    fn classify(self) -> std::num::FpCategory {
        match self.0 {
            0 => std::num::FpCategory::Nan,
            1 | 2 => std::num::FpCategory::Infinite,
            _ => std::num::FpCategory::Normal,
        }
    }
    fn floor(self) -> Sym {
        ComplexField::floor(self)
    }
    fn ceil(self) -> Sym {
        ComplexField::ceil(self)
    }
    fn round(self) -> Sym {
        ComplexField::round(self)
    }
    fn trunc(self) -> Sym {
        ComplexField::trunc(self)
    }
    fn fract(self) -> Sym {
        ComplexField::fract(self)
    }
    fn abs(self) -> Sym {
        Signed::abs(&self)
    }
    fn signum(self) -> Sym {
        Signed::signum(&self)
    }
    fn is_sign_positive(self) -> bool {
        self >= Sym::f(0.0)
    }
    fn is_sign_negative(self) -> bool {
        self < Sym::f(0.0)
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn recip(self) -> Sym {
        Sym::f(1.0) / self
    }
    fn powi(self, n: i32) -> Sym {
        ComplexField::powi(self, n)
    }
    fn powf(self, n: Sym) -> Sym {
        ComplexField::powf(self, n)
    }
    fn sqrt(self) -> Sym {
        ComplexField::sqrt(self)
    }
    fn exp(self) -> Sym {
        ComplexField::exp(self)
    }
    fn exp2(self) -> Sym {
        ComplexField::exp2(self)
    }
    fn ln(self) -> Sym {
        ComplexField::ln(self)
    }
    fn log(self, b: Sym) -> Sym {
        ComplexField::log(self, b)
    }
    fn log2(self) -> Sym {
        ComplexField::log2(self)
    }
    fn log10(self) -> Sym {
        ComplexField::log10(self)
    }
    fn max(self, o: Sym) -> Sym {
        RealField::max(self, o)
    }
    fn min(self, o: Sym) -> Sym {
        RealField::min(self, o)
    }
    fn abs_sub(self, o: Sym) -> Sym {
        Signed::abs_sub(&self, &o)
    }
    fn cbrt(self) -> Sym {
        ComplexField::cbrt(self)
    }
    fn hypot(self, o: Sym) -> Sym {
        ComplexField::hypot(self, o)
    }
    fn sin(self) -> Sym {
        ComplexField::sin(self)
    }
    fn cos(self) -> Sym {
        ComplexField::cos(self)
    }
    fn tan(self) -> Sym {
        ComplexField::tan(self)
    }
    fn asin(self) -> Sym {
        ComplexField::asin(self)
    }
    fn acos(self) -> Sym {
        ComplexField::acos(self)
    }
    fn atan(self) -> Sym {
        ComplexField::atan(self)
    }
    fn atan2(self, o: Sym) -> Sym {
        RealField::atan2(self, o)
    }
    fn sin_cos(self) -> (Sym, Sym) {
        ComplexField::sin_cos(self)
    }
    fn exp_m1(self) -> Sym {
        ComplexField::exp_m1(self)
    }
    fn ln_1p(self) -> Sym {
        ComplexField::ln_1p(self)
    }
    fn sinh(self) -> Sym {
        ComplexField::sinh(self)
    }
    fn cosh(self) -> Sym {
        ComplexField::cosh(self)
    }
    fn tanh(self) -> Sym {
        ComplexField::tanh(self)
    }
    fn asinh(self) -> Sym {
        ComplexField::asinh(self)
    }
    fn acosh(self) -> Sym {
        ComplexField::acosh(self)
    }
    fn atanh(self) -> Sym {
        ComplexField::atanh(self)
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        num_traits::Float::integer_decode(self.to_f64().unwrap())
    }
}
macro_rules! fconst { ($($n:ident),*) => { impl num_traits::FloatConst for Sym { $( #[allow(non_snake_case)] fn $n() -> Sym { Sym::f(<f64 as num_traits::FloatConst>::$n()) } )* } } }
fconst!(E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8, LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2);

impl From<Sym> for argmin::core::KvValue {
    fn from(_: Sym) -> argmin::core::KvValue {
        argmin::core::KvValue::Float(0.0)
    }
}
impl serde::Serialize for Sym {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        // an opaque token: the value is the arena index
        s.serialize_u32(self.0)
    }
}
impl<'de> serde::Deserialize<'de> for Sym {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Sym, D::Error> {
        u32::deserialize(d).map(Sym)
    }
}
impl curvo::prelude::FloatingPoint for Sym {}

#[allow(dead_code)]
fn _unused(_: Rc<Poly>) {}
