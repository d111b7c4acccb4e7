//! The scalar types the real code is instantiated with.
use crate::cnt::{C32, C64};
use crate::dd::{ldexp, mul2, DD};
use crate::MagnitudeCorrection;
use ndarray::NdFloat;

/// Epsilon advertised by the double-double scalar (arithmetic is good to a few 2^-104).
pub const DD_EPS: f64 = 1.0 / (1u128 << 100) as f64;

pub trait Sc: NdFloat + std::iter::Sum + MagnitudeCorrection + Default {
    const NAME: &'static str;
    /// machine epsilon as f64
    const EPS: f64;
    /// entries are generated with magnitudes 10^-LO ..= 10^HI when extreme scales are wanted
    const LO: i32;
    const HI: i32;
    const COUNTING: bool = false;
    fn of(x: f64) -> Self;
    /// self * 2^e as a double-double (exact unless it underflows)
    fn dd(self, e: i32) -> DD;
    /// bit pattern; sign and payload of a NaN are unspecified, so all NaN are the same
    fn bits(self) -> u128;
    /// like `of`, adding random low-order bits where the type is wider than f64
    fn of_noisy(x: f64, _noise: f64) -> Self {
        Self::of(x)
    }
}
impl Sc for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    const LO: i32 = 280;
    const HI: i32 = 280;
    fn of(x: f64) -> f64 {
        x
    }
    fn dd(self, e: i32) -> DD {
        DD::f(ldexp(self, e))
    }
    fn bits(self) -> u128 {
        if self.is_nan() {
            return u128::MAX;
        }
        self.to_bits() as u128
    }
}
impl Sc for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    const LO: i32 = 33;
    const HI: i32 = 33;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn dd(self, e: i32) -> DD {
        DD::f(ldexp(self as f64, e))
    }
    fn bits(self) -> u128 {
        if self.is_nan() {
            return u128::MAX;
        }
        self.to_bits() as u128
    }
}
impl Sc for DD {
    const NAME: &'static str = "dd";
    const EPS: f64 = DD_EPS;
    const LO: i32 = 100;
    const HI: i32 = 100;
    fn of(x: f64) -> DD {
        DD::f(x)
    }
    fn dd(self, e: i32) -> DD {
        mul2(self, e)
    }
    fn bits(self) -> u128 {
        if self.hi.is_nan() || self.lo.is_nan() {
            return u128::MAX;
        }
        ((self.hi.to_bits() as u128) << 64) | self.lo.to_bits() as u128
    }
    fn of_noisy(x: f64, noise: f64) -> DD {
        let lo = x * noise * (f64::EPSILON / 4.0);
        DD::f(x) + DD::f(lo)
    }
}
impl Sc for C64 {
    const NAME: &'static str = "cnt64";
    const EPS: f64 = f64::EPSILON;
    const LO: i32 = 280;
    const HI: i32 = 280;
    const COUNTING: bool = true;
    fn of(x: f64) -> C64 {
        C64(x)
    }
    fn dd(self, e: i32) -> DD {
        self.0.dd(e)
    }
    fn bits(self) -> u128 {
        self.0.bits()
    }
}
impl Sc for C32 {
    const NAME: &'static str = "cnt32";
    const EPS: f64 = f32::EPSILON as f64;
    const LO: i32 = 33;
    const HI: i32 = 33;
    const COUNTING: bool = true;
    fn of(x: f64) -> C32 {
        C32(x as f32)
    }
    fn dd(self, e: i32) -> DD {
        self.0.dd(e)
    }
    fn bits(self) -> u128 {
        self.0.bits()
    }
}
