//! Dense helper types: `Mat<S>` (plain row-major values) and the double-double oracle matrix `Dm`.
use crate::ctx::Rng;
use crate::dd::{exponent, DD};
use crate::sc::Sc;
use ndarray::{s, Array1, Array2, ArrayBase, Axis, Data, Dimension, Ix1, Ix2, ShapeBuilder};

#[derive(Clone)]
pub struct Mat<S> {
    pub r: usize,
    pub c: usize,
    pub d: Vec<S>,
}
impl<S: Copy> Mat<S> {
    pub fn from_fn(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> S) -> Mat<S> {
        let mut d = Vec::with_capacity(r * c);
        for i in 0..r {
            for j in 0..c {
                d.push(f(i, j));
            }
        }
        Mat { r, c, d }
    }
    #[inline]
    pub fn at(&self, i: usize, j: usize) -> S {
        self.d[i * self.c + j]
    }
    #[inline]
    pub fn set(&mut self, i: usize, j: usize, x: S) {
        self.d[i * self.c + j] = x;
    }
    pub fn t(&self) -> Mat<S> {
        Mat::from_fn(self.c, self.r, |i, j| self.at(j, i))
    }
    pub fn map<T: Copy>(&self, mut f: impl FnMut(S) -> T) -> Mat<T> {
        Mat {
            r: self.r,
            c: self.c,
            d: self.d.iter().map(|&x| f(x)).collect(),
        }
    }
    pub fn arr(&self) -> Array2<S> {
        Array2::from_shape_vec((self.r, self.c), self.d.clone()).unwrap()
    }
    pub fn of_arr<D: Data<Elem = S>>(a: &ArrayBase<D, Ix2>) -> Mat<S> {
        Mat::from_fn(a.nrows(), a.ncols(), |i, j| a[(i, j)])
    }
    pub fn cols(&self, a: usize, b: usize) -> Mat<S> {
        Mat::from_fn(self.r, b - a, |i, j| self.at(i, a + j))
    }
}
impl<S: Sc> Mat<S> {
    pub fn hash(&self) -> u64 {
        let mut h = (self.r as u64) << 32 | self.c as u64;
        for x in &self.d {
            let b = x.bits();
            h = (h ^ b as u64 ^ (b >> 64) as u64)
                .wrapping_mul(0x100000001b3)
                .rotate_left(29);
        }
        h
    }
    pub fn maxexp(&self) -> i32 {
        let m = self
            .d
            .iter()
            .map(|x| x.dd(0).to_f64().abs())
            .fold(0.0, f64::max);
        exponent(m)
    }
    /// oracle copy, multiplied by 2^e
    pub fn dm(&self, e: i32) -> Dm {
        Dm {
            r: self.r,
            c: self.c,
            d: self.d.iter().map(|x| x.dd(e)).collect(),
        }
    }
    pub fn is_zero(&self) -> bool {
        self.d.iter().all(|x| x.is_zero())
    }
    pub fn show(&self) -> String {
        if self.r * self.c > 30 {
            return format!("{}x{}#{:016x}", self.r, self.c, self.hash());
        }
        let rows: Vec<String> = (0..self.r)
            .map(|i| {
                format!(
                    "[{}]",
                    (0..self.c)
                        .map(|j| format!("{:e}", self.at(i, j)))
                        .collect::<Vec<_>>()
                        .join(",")
                )
            })
            .collect();
        format!("{}x{}[{}]", self.r, self.c, rows.join(","))
    }
}

pub fn dm<S: Sc, D: Data<Elem = S>>(a: &ArrayBase<D, Ix2>, e: i32) -> Dm {
    let (r, c) = a.dim();
    let mut d = Vec::with_capacity(r * c);
    for i in 0..r {
        for j in 0..c {
            d.push(a[(i, j)].dd(e));
        }
    }
    Dm { r, c, d }
}
pub fn dv<S: Sc, D: Data<Elem = S>>(a: &ArrayBase<D, Ix1>, e: i32) -> Vec<DD> {
    a.iter().map(|x| x.dd(e)).collect()
}
pub fn all_finite<S: Sc, D: Data<Elem = S>, I: Dimension>(a: &ArrayBase<D, I>) -> bool {
    a.iter().all(|x| x.is_finite())
}
/// element-wise bit equality (dimension, then bits)
pub fn same_bits<S: Sc, D1: Data<Elem = S>, D2: Data<Elem = S>, I: Dimension>(
    a: &ArrayBase<D1, I>,
    b: &ArrayBase<D2, I>,
) -> bool {
    a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(x, y)| x.bits() == y.bits())
}

/// Oracle matrix in double-double.
#[derive(Clone)]
pub struct Dm {
    pub r: usize,
    pub c: usize,
    pub d: Vec<DD>,
}
impl Dm {
    pub fn zeros(r: usize, c: usize) -> Dm {
        Dm {
            r,
            c,
            d: vec![DD::ZERO; r * c],
        }
    }
    pub fn eye(n: usize) -> Dm {
        let mut m = Dm::zeros(n, n);
        for i in 0..n {
            m.d[i * n + i] = DD::ONE;
        }
        m
    }
    pub fn from_fn(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> DD) -> Dm {
        let mut d = Vec::with_capacity(r * c);
        for i in 0..r {
            for j in 0..c {
                d.push(f(i, j));
            }
        }
        Dm { r, c, d }
    }
    #[inline]
    pub fn at(&self, i: usize, j: usize) -> DD {
        self.d[i * self.c + j]
    }
    #[inline]
    pub fn set(&mut self, i: usize, j: usize, x: DD) {
        self.d[i * self.c + j] = x;
    }
    pub fn t(&self) -> Dm {
        Dm::from_fn(self.c, self.r, |i, j| self.at(j, i))
    }
    pub fn mul(&self, o: &Dm) -> Dm {
        assert_eq!(self.c, o.r);
        let mut m = Dm::zeros(self.r, o.c);
        for i in 0..self.r {
            for k in 0..self.c {
                let x = self.at(i, k);
                if x.hi == 0.0 {
                    // 0 * finite; keep NaN/inf visible
                    if o.d[k * o.c..(k + 1) * o.c].iter().all(|y| y.hi.is_finite()) {
                        continue;
                    }
                }
                let row = &o.d[k * o.c..(k + 1) * o.c];
                let out = &mut m.d[i * o.c..(i + 1) * o.c];
                for (y, z) in row.iter().zip(out.iter_mut()) {
                    *z = *z + x * *y;
                }
            }
        }
        m
    }
    pub fn sub(&self, o: &Dm) -> Dm {
        assert_eq!((self.r, self.c), (o.r, o.c));
        Dm {
            r: self.r,
            c: self.c,
            d: self.d.iter().zip(&o.d).map(|(a, b)| *a - *b).collect(),
        }
    }
    pub fn scale_cols(&self, v: &[DD]) -> Dm {
        Dm::from_fn(self.r, self.c, |i, j| self.at(i, j) * v[j])
    }
    pub fn fro(&self) -> f64 {
        fro(&self.d)
    }
    pub fn max(&self) -> f64 {
        let mut m = 0.0f64;
        for x in &self.d {
            let a = x.to_f64().abs();
            if a.is_nan() {
                return f64::NAN;
            }
            m = m.max(a);
        }
        m
    }
    pub fn col(&self, j: usize) -> Vec<DD> {
        (0..self.r).map(|i| self.at(i, j)).collect()
    }
    pub fn cols(&self, a: usize, b: usize) -> Dm {
        Dm::from_fn(self.r, b - a, |i, j| self.at(i, a + j))
    }
    pub fn col_norm(&self, j: usize) -> f64 {
        fro(&self.col(j))
    }
    pub fn finite(&self) -> bool {
        self.d.iter().all(|x| x.hi.is_finite())
    }
    /// max |Q^T Q - I|
    pub fn orth_err(&self) -> f64 {
        let mut e = 0.0f64;
        let t = self.t();
        for a in 0..self.c {
            for b in a..self.c {
                let mut s = DD::ZERO;
                for k in 0..self.r {
                    s = s + t.at(a, k) * t.at(b, k);
                }
                if a == b {
                    s = s - DD::ONE;
                }
                let x = s.to_f64().abs();
                if x.is_nan() {
                    return f64::INFINITY;
                }
                e = e.max(x);
            }
        }
        e
    }
    /// max |Q_a^T Q_b|
    pub fn cross(&self, o: &Dm) -> f64 {
        self.t().mul(o).max()
    }
}
/// Euclidean norm, rescaled so that squares never overflow or underflow
pub fn fro(v: &[DD]) -> f64 {
    let mut m = 0.0f64;
    for x in v {
        let a = x.to_f64().abs();
        if !a.is_finite() {
            return f64::INFINITY;
        }
        m = m.max(a);
    }
    if m == 0.0 {
        return 0.0;
    }
    let e = exponent(m);
    let mut s = 0.0f64;
    for x in v {
        let y = crate::dd::ldexp(x.to_f64(), -e);
        s += y * y;
    }
    crate::dd::ldexp(s.sqrt(), e)
}

/// The same in double-double, for oracle-scaled data (largest entry about 1).
pub fn fro_dd(v: &[DD]) -> DD {
    v.iter().fold(DD::ZERO, |s, x| s + *x * *x).sqrt_dd()
}

/// Independent reference: cyclic Jacobi eigenvalues/eigenvectors of a symmetric oracle matrix.
pub fn jacobi_eig(a: &Dm) -> (Vec<DD>, Dm) {
    let n = a.r;
    let mut a = a.clone();
    let mut v = Dm::eye(n);
    for _ in 0..60 {
        let mut off = 0.0;
        let mut dia = 0.0;
        for i in 0..n {
            for j in 0..n {
                let x = a.at(i, j).to_f64();
                if i == j {
                    dia += x * x
                } else {
                    off += x * x
                }
            }
        }
        if off <= 1e-60 * (dia + off) || off == 0.0 {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                let apq = a.at(p, q);
                if apq.hi == 0.0 {
                    continue;
                }
                let th = (a.at(q, q) - a.at(p, p)) / (apq + apq);
                let t = {
                    let s = if th.hi >= 0.0 { DD::ONE } else { -DD::ONE };
                    if th.hi.abs() > 1e100 {
                        DD::ONE / (th + th)
                    } else {
                        s / (th.abs_dd() + (th * th + DD::ONE).sqrt_dd())
                    }
                };
                let c = DD::ONE / (t * t + DD::ONE).sqrt_dd();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a.at(k, p), a.at(k, q));
                    a.set(k, p, c * x - s * y);
                    a.set(k, q, s * x + c * y);
                }
                for k in 0..n {
                    let (x, y) = (a.at(p, k), a.at(q, k));
                    a.set(p, k, c * x - s * y);
                    a.set(q, k, s * x + c * y);
                }
                a.set(p, q, DD::ZERO);
                a.set(q, p, DD::ZERO);
                for k in 0..n {
                    let (x, y) = (v.at(k, p), v.at(k, q));
                    v.set(k, p, c * x - s * y);
                    v.set(k, q, s * x + c * y);
                }
            }
        }
    }
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|&i, &j| {
        a.at(i, i)
            .partial_cmp(&a.at(j, j))
            .unwrap_or(std::cmp::Ordering::Equal)
    });
    let vals = idx.iter().map(|&i| a.at(i, i)).collect();
    let vecs = Dm::from_fn(n, n, |i, j| v.at(i, idx[j]));
    (vals, vecs)
}

// ------------------------------------------------------------------ memory layouts

pub const LAYOUTS: &[&str] = &[
    "C",
    "F",
    "C-rev0",
    "C-rev1",
    "C-rev01",
    "F-rev0",
    "F-rev1",
    "strided",
    "F-strided",
    "strided-rev",
];

/// An owned array holding `m` in the given layout. Strided layouts keep `fill` in the gaps.
pub fn layout<S: Copy>(m: &Mat<S>, lay: &str, fill: S) -> Array2<S> {
    let (r, c) = (m.r, m.c);
    let f_order = lay.starts_with('F');
    let (rev0, rev1) = match lay {
        "C-rev0" | "F-rev0" => (true, false),
        "C-rev1" | "F-rev1" => (false, true),
        "C-rev01" | "strided-rev" => (true, true),
        _ => (false, false),
    };
    let strided = lay.contains("strided");
    let (s0, s1, o0, o1) = if strided {
        (2isize, 3isize, 1usize, 2usize)
    } else {
        (1, 1, 0, 0)
    };
    let big = (o0 + r * s0 as usize + o0, o1 + c * s1 as usize + o1);
    let buf: Array2<S> = if f_order {
        Array2::from_elem(big.f(), fill)
    } else {
        Array2::from_elem(big, fill)
    };
    let e0 = o0 + r * s0 as usize;
    let e1 = o1 + c * s1 as usize;
    let mut a = buf.slice_move(s![o0..e0;s0, o1..e1;s1]);
    debug_assert_eq!(a.dim(), (r, c));
    if rev0 {
        a.invert_axis(Axis(0));
    }
    if rev1 {
        a.invert_axis(Axis(1));
    }
    for i in 0..r {
        for j in 0..c {
            a[(i, j)] = m.at(i, j);
        }
    }
    a
}
pub fn rand_layout<S: Sc>(m: &Mat<S>, rng: &mut Rng) -> (Array2<S>, &'static str) {
    let l = if rng.chance(0.4) {
        "C"
    } else {
        *rng.pick(LAYOUTS)
    };
    (layout(m, l, S::of(f64::NAN)), l)
}
pub fn arr1<S: Sc>(v: &[S]) -> Array1<S> {
    Array1::from(v.to_vec())
}
