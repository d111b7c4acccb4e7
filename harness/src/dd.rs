//! Double-double arithmetic (about 106 bits): the oracle's number type, and also a scalar type the
//! crate under observation is instantiated with.
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::fmt;
use std::num::FpCategory;
use std::ops::*;

#[derive(Clone, Copy, Default)]
pub struct DD {
    pub hi: f64,
    pub lo: f64,
}

#[inline(always)]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline(always)]
fn quick(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
#[inline(always)]
fn split(a: f64) -> (f64, f64) {
    let t = 134217729.0 * a;
    let h = t - (t - a);
    (h, a - h)
}
#[inline(always)]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}

impl DD {
    pub const ZERO: DD = DD { hi: 0.0, lo: 0.0 };
    pub const ONE: DD = DD { hi: 1.0, lo: 0.0 };
    #[inline(always)]
    pub fn new(hi: f64, lo: f64) -> DD {
        if !hi.is_finite() {
            return DD { hi, lo: 0.0 };
        }
        DD { hi, lo }
    }
    #[inline(always)]
    pub fn f(x: f64) -> DD {
        DD { hi: x, lo: 0.0 }
    }
    pub fn to_f64(self) -> f64 {
        self.hi + self.lo
    }
    /// exact product with a power of two given as f64
    #[inline(always)]
    pub fn mul_pow2(self, p: f64) -> DD {
        DD::new(self.hi * p, self.lo * p)
    }
    pub fn sq(self) -> DD {
        self * self
    }
    pub fn sqrt_dd(self) -> DD {
        if self.hi <= 0.0 || !self.hi.is_finite() {
            return DD::new(self.hi.sqrt(), 0.0);
        }
        // scale into the safe range of the error-free transforms
        let e = exponent(self.hi);
        if !(-400..=400).contains(&e) {
            let h = e.div_euclid(2);
            let s = mul2(mul2(self, -2 * h), 0);
            return mul2(s.sqrt_dd(), h);
        }
        let x = 1.0 / self.hi.sqrt();
        let ax = self.hi * x;
        let r = self - DD::f(ax).sq();
        let (h, l) = two_sum(ax, r.hi * (x * 0.5));
        DD::new(h, l)
    }
    pub fn abs_dd(self) -> DD {
        if self.hi.is_sign_negative() {
            -self
        } else {
            self
        }
    }
}

pub fn exponent(x: f64) -> i32 {
    if x == 0.0 || !x.is_finite() {
        return 0;
    }
    let b = ((x.to_bits() >> 52) & 0x7ff) as i32;
    if b == 0 {
        exponent(x * 2f64.powi(200)) - 200
    } else {
        b - 1023
    }
}
/// x * 2^e in steps that never overflow spuriously
pub fn ldexp(mut x: f64, mut e: i32) -> f64 {
    while e > 900 {
        x *= 2f64.powi(900);
        e -= 900;
    }
    while e < -900 {
        x *= 2f64.powi(-900);
        e += 900;
    }
    x * 2f64.powi(e)
}
pub fn mul2(x: DD, e: i32) -> DD {
    DD::new(ldexp(x.hi, e), ldexp(x.lo, e))
}

impl Add for DD {
    type Output = DD;
    #[inline(always)]
    fn add(self, o: DD) -> DD {
        let (s, e) = two_sum(self.hi, o.hi);
        if !s.is_finite() {
            return DD { hi: s, lo: 0.0 };
        }
        let (t, f) = two_sum(self.lo, o.lo);
        let (s, e) = quick(s, e + t);
        let (s, e) = quick(s, e + f);
        DD { hi: s, lo: e }
    }
}
impl Neg for DD {
    type Output = DD;
    #[inline(always)]
    fn neg(self) -> DD {
        DD {
            hi: -self.hi,
            lo: -self.lo,
        }
    }
}
impl Sub for DD {
    type Output = DD;
    #[inline(always)]
    fn sub(self, o: DD) -> DD {
        self + (-o)
    }
}
impl Mul for DD {
    type Output = DD;
    #[inline(always)]
    fn mul(self, o: DD) -> DD {
        let (p, e) = two_prod(self.hi, o.hi);
        if !p.is_finite() || !e.is_finite() || p == 0.0 {
            return DD {
                hi: self.hi * o.hi,
                lo: 0.0,
            };
        }
        let (s, e) = quick(p, e + (self.hi * o.lo + self.lo * o.hi));
        DD { hi: s, lo: e }
    }
}
impl Div for DD {
    type Output = DD;
    #[inline(always)]
    fn div(self, o: DD) -> DD {
        let q1 = self.hi / o.hi;
        if !q1.is_finite() || q1 == 0.0 || !o.hi.is_finite() {
            return DD { hi: q1, lo: 0.0 };
        }
        let r = self - o * DD::f(q1);
        let q2 = r.hi / o.hi;
        let r = r - o * DD::f(q2);
        let q3 = r.hi / o.hi;
        let (a, b) = quick(q1, q2);
        if !b.is_finite() {
            return DD { hi: q1, lo: 0.0 };
        }
        DD { hi: a, lo: b } + DD::f(q3)
    }
}
impl Rem for DD {
    type Output = DD;
    fn rem(self, o: DD) -> DD {
        let q = (self / o).trunc();
        self - o * q
    }
}
macro_rules! asg {
    ($t:ident,$f:ident,$op:tt) => {
        impl $t for DD {
            #[inline(always)]
            fn $f(&mut self, o: DD) {
                *self = *self $op o;
            }
        }
    };
}
asg!(AddAssign, add_assign, +);
asg!(SubAssign, sub_assign, -);
asg!(MulAssign, mul_assign, *);
asg!(DivAssign, div_assign, /);
asg!(RemAssign, rem_assign, %);
impl PartialEq for DD {
    #[inline(always)]
    fn eq(&self, o: &DD) -> bool {
        self.hi == o.hi && self.lo == o.lo
    }
}
impl PartialOrd for DD {
    #[inline(always)]
    fn partial_cmp(&self, o: &DD) -> Option<std::cmp::Ordering> {
        match self.hi.partial_cmp(&o.hi) {
            Some(std::cmp::Ordering::Equal) => self.lo.partial_cmp(&o.lo),
            x => x,
        }
    }
}
impl fmt::Display for DD {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.hi)
    }
}
impl fmt::Debug for DD {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:e}", self.hi)
    }
}
impl fmt::LowerExp for DD {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::LowerExp::fmt(&self.hi, f)
    }
}
impl fmt::UpperExp for DD {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::UpperExp::fmt(&self.hi, f)
    }
}
impl Zero for DD {
    fn zero() -> DD {
        DD::ZERO
    }
    fn is_zero(&self) -> bool {
        self.hi == 0.0
    }
}
impl One for DD {
    fn one() -> DD {
        DD::ONE
    }
}
impl Num for DD {
    type FromStrRadixErr = num_traits::ParseFloatError;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(DD::f)
    }
}
impl ToPrimitive for DD {
    fn to_i64(&self) -> Option<i64> {
        DD::to_f64(*self).to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        DD::to_f64(*self).to_u64()
    }
    fn to_f32(&self) -> Option<f32> {
        DD::to_f64(*self).to_f32()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(DD::to_f64(*self))
    }
}
impl NumCast for DD {
    fn from<T: ToPrimitive>(n: T) -> Option<DD> {
        n.to_f64().map(DD::f)
    }
}
impl std::iter::Sum for DD {
    fn sum<I: Iterator<Item = DD>>(i: I) -> DD {
        i.fold(DD::ZERO, |a, b| a + b)
    }
}
macro_rules! via {
    ($($f:ident),*) => { $( fn $f(self) -> DD { DD::f(self.to_f64().$f()) } )* };
}
impl Float for DD {
    fn nan() -> DD {
        DD::f(f64::NAN)
    }
    fn infinity() -> DD {
        DD::f(f64::INFINITY)
    }
    fn neg_infinity() -> DD {
        DD::f(f64::NEG_INFINITY)
    }
    fn neg_zero() -> DD {
        DD { hi: -0.0, lo: -0.0 }
    }
    fn min_value() -> DD {
        DD::f(f64::MIN)
    }
    fn min_positive_value() -> DD {
        DD::f(f64::MIN_POSITIVE)
    }
    fn max_value() -> DD {
        DD::f(f64::MAX)
    }
    fn epsilon() -> DD {
        DD::f(super::sc::DD_EPS)
    }
    fn is_nan(self) -> bool {
        self.hi.is_nan()
    }
    fn is_infinite(self) -> bool {
        self.hi.is_infinite()
    }
    fn is_finite(self) -> bool {
        self.hi.is_finite()
    }
    fn is_normal(self) -> bool {
        self.hi.is_normal()
    }
    fn classify(self) -> FpCategory {
        self.hi.classify()
    }
    fn floor(self) -> DD {
        let h = self.hi.floor();
        if h == self.hi {
            let (a, b) = quick(h, self.lo.floor());
            DD::new(a, b)
        } else {
            DD::f(h)
        }
    }
    fn ceil(self) -> DD {
        -(-self).floor()
    }
    fn round(self) -> DD {
        (self + DD::f(0.5)).floor()
    }
    fn trunc(self) -> DD {
        if self.hi >= 0.0 {
            self.floor()
        } else {
            self.ceil()
        }
    }
    fn fract(self) -> DD {
        self - self.trunc()
    }
    fn abs(self) -> DD {
        self.abs_dd()
    }
    fn signum(self) -> DD {
        if self.hi.is_nan() {
            self
        } else {
            DD::f(self.hi.signum())
        }
    }
    fn is_sign_positive(self) -> bool {
        self.hi.is_sign_positive()
    }
    fn is_sign_negative(self) -> bool {
        self.hi.is_sign_negative()
    }
    fn mul_add(self, a: DD, b: DD) -> DD {
        self * a + b
    }
    fn recip(self) -> DD {
        DD::ONE / self
    }
    fn powi(self, n: i32) -> DD {
        let mut r = DD::ONE;
        let mut b = self;
        let mut k = n.unsigned_abs();
        while k > 0 {
            if k & 1 == 1 {
                r *= b;
            }
            b *= b;
            k >>= 1;
        }
        if n < 0 {
            DD::ONE / r
        } else {
            r
        }
    }
    fn powf(self, n: DD) -> DD {
        DD::f(self.to_f64().powf(n.to_f64()))
    }
    fn sqrt(self) -> DD {
        self.sqrt_dd()
    }
    fn max(self, o: DD) -> DD {
        if self.is_nan() {
            o
        } else if o.is_nan() || self >= o {
            self
        } else {
            o
        }
    }
    fn min(self, o: DD) -> DD {
        if self.is_nan() {
            o
        } else if o.is_nan() || self <= o {
            self
        } else {
            o
        }
    }
    fn abs_sub(self, o: DD) -> DD {
        if self <= o {
            DD::ZERO
        } else {
            self - o
        }
    }
    fn hypot(self, o: DD) -> DD {
        let (a, b) = (self.abs_dd(), o.abs_dd());
        let (a, b) = if a >= b { (a, b) } else { (b, a) };
        if b.hi == 0.0 || !a.hi.is_finite() {
            return a;
        }
        let e = exponent(a.hi);
        let (x, y) = (mul2(a, -e), mul2(b, -e));
        mul2((x * x + y * y).sqrt_dd(), e)
    }
    fn log(self, b: DD) -> DD {
        DD::f(self.to_f64().log(b.to_f64()))
    }
    fn atan2(self, o: DD) -> DD {
        DD::f(self.to_f64().atan2(o.to_f64()))
    }
    fn sin_cos(self) -> (DD, DD) {
        (self.sin(), self.cos())
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        self.hi.integer_decode()
    }
    via!(
        exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh,
        cosh, tanh, asinh, acosh, atanh
    );
}
impl ndarray::ScalarOperand for DD {}
impl ndarray::NdFloat for DD {}
impl crate::MagnitudeCorrection for DD {
    fn correction() -> DD {
        DD::f(1e6)
    }
}
