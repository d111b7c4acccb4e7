//! Counting scalars: f32/f64 wrappers that count every arithmetic operation and comparison the
//! observed code performs and abort it (by panicking with `Budget`) once a logical budget is used
//! up. This makes "does it terminate?" a question about logical steps instead of wall-clock time.
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::fmt;
use std::num::FpCategory;
use std::ops::*;

thread_local! {
    pub static OPS: Cell<u64> = const { Cell::new(0) };
    pub static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
pub struct Budget(pub u64);

#[inline(always)]
fn tick() {
    OPS.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        if n > LIMIT.with(|l| l.get()) {
            LIMIT.with(|l| l.set(u64::MAX));
            std::panic::panic_any(Budget(n));
        }
    })
}
pub fn reset(limit: u64) {
    OPS.with(|c| c.set(0));
    LIMIT.with(|c| c.set(limit));
}
pub fn ops() -> u64 {
    OPS.with(|c| c.get())
}

macro_rules! cnt {
    ($T:ident, $f:ty) => {
        #[derive(Clone, Copy, Default)]
        #[repr(transparent)]
        pub struct $T(pub $f);
        cnt!(@bin $T, Add, add, AddAssign, add_assign, +);
        cnt!(@bin $T, Sub, sub, SubAssign, sub_assign, -);
        cnt!(@bin $T, Mul, mul, MulAssign, mul_assign, *);
        cnt!(@bin $T, Div, div, DivAssign, div_assign, /);
        cnt!(@bin $T, Rem, rem, RemAssign, rem_assign, %);
        impl Neg for $T {
            type Output = $T;
            fn neg(self) -> $T { $T(-self.0) }
        }
        impl PartialEq for $T {
            fn eq(&self, o: &$T) -> bool { tick(); self.0 == o.0 }
        }
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &$T) -> Option<std::cmp::Ordering> { tick(); self.0.partial_cmp(&o.0) }
        }
        impl fmt::Display for $T { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
        impl fmt::Debug for $T { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
        impl fmt::LowerExp for $T { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::LowerExp::fmt(&self.0, f) } }
        impl fmt::UpperExp for $T { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::UpperExp::fmt(&self.0, f) } }
        impl Zero for $T { fn zero() -> $T { $T(0.0) } fn is_zero(&self) -> bool { tick(); self.0 == 0.0 } }
        impl One for $T { fn one() -> $T { $T(1.0) } }
        impl Num for $T {
            type FromStrRadixErr = num_traits::ParseFloatError;
            fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> { <$f>::from_str_radix(s, r).map($T) }
        }
        impl ToPrimitive for $T {
            fn to_i64(&self) -> Option<i64> { self.0.to_i64() }
            fn to_u64(&self) -> Option<u64> { self.0.to_u64() }
            fn to_f32(&self) -> Option<f32> { self.0.to_f32() }
            fn to_f64(&self) -> Option<f64> { self.0.to_f64() }
        }
        impl NumCast for $T { fn from<N: ToPrimitive>(n: N) -> Option<$T> { <$f as NumCast>::from(n).map($T) } }
        impl std::iter::Sum for $T { fn sum<I: Iterator<Item = $T>>(i: I) -> $T { i.fold($T(0.0), |a, b| a + b) } }
        impl Float for $T {
            cnt!(@nullary $T, $f, nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, max_value, epsilon);
            cnt!(@pred $T, is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
            cnt!(@un $T, floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
            cnt!(@binf $T, powf, log, max, min, hypot, atan2);
            fn classify(self) -> FpCategory { self.0.classify() }
            fn mul_add(self, a: $T, b: $T) -> $T { tick(); $T(self.0.mul_add(a.0, b.0)) }
            fn powi(self, n: i32) -> $T { tick(); $T(self.0.powi(n)) }
            fn abs_sub(self, o: $T) -> $T { tick(); if self.0 <= o.0 { $T(0.0) } else { $T(self.0 - o.0) } }
            fn sin_cos(self) -> ($T, $T) { tick(); ($T(self.0.sin()), $T(self.0.cos())) }
            fn integer_decode(self) -> (u64, i16, i8) { self.0.integer_decode() }
        }
        impl ndarray::ScalarOperand for $T {}
        impl ndarray::NdFloat for $T {}
        impl crate::MagnitudeCorrection for $T {
            fn correction() -> $T { $T(<$f as crate::MagnitudeCorrection>::correction()) }
        }
    };
    (@bin $T:ident, $t:ident, $m:ident, $ta:ident, $ma:ident, $op:tt) => {
        impl $t for $T { type Output = $T; #[inline(always)] fn $m(self, o: $T) -> $T { tick(); $T(self.0 $op o.0) } }
        impl $ta for $T { #[inline(always)] fn $ma(&mut self, o: $T) { tick(); self.0 = self.0 $op o.0; } }
    };
    (@nullary $T:ident, $f:ty, $($m:ident),*) => { $( fn $m() -> $T { $T(<$f as Float>::$m()) } )* };
    (@pred $T:ident, $($m:ident),*) => { $( fn $m(self) -> bool { self.0.$m() } )* };
    (@un $T:ident, $($m:ident),*) => { $( fn $m(self) -> $T { tick(); $T(self.0.$m()) } )* };
    (@binf $T:ident, $($m:ident),*) => { $( fn $m(self, o: $T) -> $T { tick(); $T(self.0.$m(o.0)) } )* };
}
cnt!(C64, f64);
cnt!(C32, f32);
