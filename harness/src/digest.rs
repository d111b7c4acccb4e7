//! Bit-exact digests of every public routine on fixed inputs: the observable of C21.
use crate::ctx::Rng;
use crate::gen;
use crate::mat::*;
use crate::sc::Sc;
use linfa_linalg::bidiagonal::*;
use linfa_linalg::cholesky::*;
use linfa_linalg::eigh::*;
use linfa_linalg::norm::*;
use linfa_linalg::qr::*;
use linfa_linalg::reflection::*;
use linfa_linalg::svd::*;
use linfa_linalg::triangular::*;
use linfa_linalg::tridiagonal::*;
use linfa_linalg::Order;
use ndarray::{Array1, Array2, ArrayBase, Data, Dimension};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait DSc: Sc {}
impl DSc for f32 {}
impl DSc for f64 {}

pub struct Inputs<S> {
    pub tall: Array2<S>,
    pub wide: Array2<S>,
    pub square: Array2<S>,
    pub sym: Array2<S>,
    pub spd: Array2<S>,
    pub psd: Array2<S>,
    pub rhs: Array2<S>,
    pub axis: Array1<S>,
    pub bias: S,
    pub seed: u64,
}
impl<S: DSc> Inputs<S> {
    pub fn new(seed: u64) -> Inputs<S> {
        let mut r = Rng::new(seed);
        let rng = &mut r;
        let big = if cfg!(miri) {
            4
        } else if rng.chance(0.05) {
            70
        } else if rng.chance(0.3) {
            20
        } else {
            9
        };
        let n = 1 + rng.below(big);
        let k = 1 + rng.below(n);
        // some inputs of extreme magnitude, some with non-finite entries
        let exp = match rng.below(10) {
            0 => rng.range(-(S::HI as i64), S::HI as i64) as i32,
            1 => rng.range(-8, 8) as i32,
            _ => 0,
        };
        let poison = rng.chance(0.08);
        let conv = |m: Mat<f64>, rng: &mut Rng| -> Array2<S> {
            let mut m = m.map(|x| S::of(x * 10f64.powi(exp)));
            if poison && rng.chance(0.4) {
                let (i, j) = (rng.below(m.r), rng.below(m.c));
                let v = *rng.pick(&[S::nan(), S::infinity(), S::neg_infinity()]);
                m.set(i, j, v);
                if m.r == m.c {
                    m.set(j, i, v);
                }
            }
            rand_layout(&m, rng).0
        };
        let tall = gen::rect(rng, n, k).0;
        let wide = gen::rect(rng, k, n).0;
        let square = gen::rect(rng, n, n).0;
        let sym = gen::sym(rng, n).0;
        let spd = gen::spd(rng, n, 1e3).0;
        let psd = {
            let f = Mat::from_fn(k, n, |_, _| rng.normal());
            gen::mul(&f.t(), &f)
        };
        let rhs = Mat::from_fn(n, 1 + rng.below(4), |_, _| rng.sf());
        let ax: Vec<f64> = (0..k).map(|_| rng.normal()).collect();
        let nn = ax.iter().map(|x| x * x).sum::<f64>().sqrt();
        let bias = S::of(rng.normal());
        Inputs {
            tall: conv(tall, rng),
            wide: conv(wide, rng),
            square: conv(square, rng),
            sym: conv(sym, rng),
            spd: conv(spd, rng),
            psd: conv(psd, rng),
            rhs: conv(rhs, rng),
            axis: ax.iter().map(|x| S::of(x / nn)).collect(),
            bias,
            seed: rng.u64(),
        }
    }
}

/// FNV over bit patterns; NaNs are canonicalised because IEEE leaves their payload open.
pub struct H(pub u64);
impl H {
    pub fn u(&mut self, x: u64) {
        for b in x.to_le_bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    pub fn s<S: Sc>(&mut self, x: S) {
        let b = if x.is_nan() {
            S::nan().bits()
        } else {
            x.bits()
        };
        self.u(b as u64);
        self.u((b >> 64) as u64);
    }
    pub fn a<S: Sc, D: Data<Elem = S>, I: Dimension>(&mut self, a: &ArrayBase<D, I>) {
        for d in a.shape() {
            self.u(*d as u64);
        }
        for x in a.iter() {
            self.s(*x);
        }
    }
    pub fn opt<S: Sc>(&mut self, a: &Option<Array2<S>>) {
        self.u(a.is_some() as u64);
        if let Some(a) = a {
            self.a(a);
        }
    }
}
macro_rules! res {
    ($h:expr, $e:expr, $p:pat => $b:expr) => {
        match $e {
            Ok($p) => {
                $h.u(1);
                $b
            }
            Err(e) => {
                let s = e.to_string();
                $h.u(2);
                $h.u(crate::ctx::hash_str(&s));
            }
        }
    };
}

const NAMES: &[&str] = &[
    "qr",
    "qr.solve",
    "qr.solve_tr",
    "qr.inverse",
    "least_squares",
    "cholesky",
    "cholesky_dirty",
    "solvec",
    "invc",
    "triangular",
    "solve_triangular",
    "tridiagonal",
    "bidiagonal tall",
    "bidiagonal wide",
    "eigh",
    "eigvalsh",
    "svd",
    "svd values",
    "svd wide",
    "norms",
    "reflect_cols",
    "reflect_rows",
    "sort",
    "qr_into views",
    "hostile",
    "lobpcg",
    "truncated_eig",
    "truncated_svd",
    "eig_iterator",
];
#[cfg(feature = "iterative")]
pub const OPS: usize = 29;
/// operations that exist without the optional feature come first
pub const DIRECT_OPS: usize = 25;
#[cfg(not(feature = "iterative"))]
pub const OPS: usize = DIRECT_OPS;

pub fn name(op: usize) -> &'static str {
    NAMES[op]
}

/// Runs one operation and hashes its complete outcome (values, errors, panics).
pub fn run<S: DSc>(op: usize, i: &Inputs<S>) -> u64 {
    let mut h = H(0xcbf29ce484222325);
    if catch_unwind(AssertUnwindSafe(|| run_in(op, i, &mut h))).is_err() {
        // the message may differ between builds; that it panics may not
        return 0xdead_0000_0000_0000 | op as u64;
    }
    h.0
}
fn run_in<S: DSc>(op: usize, i: &Inputs<S>, h: &mut H) {
    match op {
        0 => res!(h, i.tall.qr(), d => {
            h.a(&d.generate_q());
            h.a(&d.into_r());
        }),
        1 => res!(h, i.square.qr().and_then(|d| d.solve(&i.rhs)), x => h.a(&x)),
        2 => res!(h, i.square.qr().and_then(|d| d.solve_tr(&i.rhs)), x => h.a(&x)),
        3 => {
            res!(h, i.square.qr().and_then(|d| { h.u(d.is_invertible() as u64); d.inverse() }), x => h.a(&x))
        }
        4 => {
            let mut t = i.tall.clone();
            res!(h, t.least_squares(&i.rhs), x => h.a(&x));
            let b = Array2::from_shape_fn((i.wide.nrows(), 2), |(r, c)| S::of(r as f64 - c as f64));
            let mut t = i.wide.clone();
            res!(h, t.least_squares(&b), x => h.a(&x));
        }
        5 => {
            res!(h, i.spd.cholesky(), x => h.a(&x));
            res!(h, i.psd.cholesky(), x => h.a(&x));
            res!(h, i.sym.cholesky(), x => h.a(&x));
        }
        6 => res!(h, i.spd.cholesky_dirty(), x => h.a(&x)),
        7 => {
            let mut t = i.spd.clone();
            res!(h, t.solvec(&i.rhs), x => h.a(&x));
            h.a(&t);
        }
        8 => res!(h, i.spd.invc(), x => h.a(&x)),
        9 => {
            for u in [UPLO::Upper, UPLO::Lower] {
                res!(h, i.square.clone().into_triangular(u), x => h.a(&x));
                h.u(i.square.is_triangular(u) as u64);
            }
        }
        10 => {
            for u in [UPLO::Upper, UPLO::Lower] {
                res!(h, i.square.solve_triangular(&i.rhs, u), x => h.a(&x));
                res!(h, i.square.clone().reversed_axes().solve_triangular(&i.rhs, u), x => h.a(&x));
            }
        }
        11 => res!(h, i.sym.clone().sym_tridiagonal(), d => {
            h.a(&d.generate_q());
            let (a, b) = d.into_diagonals();
            h.a(&a);
            h.a(&b);
        }),
        12 | 13 => {
            let m = if op == 12 { &i.tall } else { &i.wide };
            res!(h, m.clone().bidiagonal(), d => {
                h.u(d.is_upper_diag() as u64);
                h.a(&d.generate_u());
                h.a(&d.generate_vt());
                h.a(&d.into_b());
            })
        }
        14 => res!(h, i.sym.eigh(), (v, w) => { h.a(&v); h.a(&w); }),
        15 => res!(h, i.sym.eigvalsh(), v => h.a(&v)),
        16 => res!(h, i.tall.svd(true, true), (u, s, v) => { h.opt(&u); h.a(&s); h.opt(&v); }),
        17 => {
            res!(h, i.square.svd(false, false), (u, s, v) => { h.opt(&u); h.a(&s); h.opt(&v); });
            res!(h, i.square.svd(false, true), (u, s, v) => { h.opt(&u); h.a(&s); h.opt(&v); });
        }
        18 => res!(h, i.wide.svd(true, true), (u, s, v) => { h.opt(&u); h.a(&s); h.opt(&v); }),
        19 => {
            h.s(i.tall.norm_l1());
            h.s(i.wide.norm_l2());
            h.s(i.square.norm_max());
            h.s(i.rhs.norm_l1());
        }
        20 => {
            let r = Reflection::new(i.axis.clone(), i.bias);
            // reflect_cols wants rows == axis length
            let mut m = i.wide.clone();
            r.reflect_cols(&mut m);
            h.a(&m);
        }
        21 => {
            let r = Reflection::new(i.axis.clone(), i.bias);
            let mut m = i.tall.clone();
            r.reflect_rows(&mut m);
            h.a(&m);
        }
        22 => {
            res!(h, i.sym.eigh().map(|x| x.sort_eig(Order::Largest)), (v, w) => { h.a(&v); h.a(&w); });
            res!(h, i.tall.svd(true, true).map(|x| x.sort_svd(Order::Smallest)), (u, s, v) => { h.opt(&u); h.a(&s); h.opt(&v); });
        }
        23 => {
            let mut t = i.tall.clone();
            res!(h, t.view_mut().qr_into(), d => { h.a(&d.generate_q()); h.a(&d.into_r()); });
            let mut t = i.spd.clone();
            res!(h, t.view_mut().cholesky_into(), x => h.a(&x));
        }
        24 => {
            // malformed shapes and non-finite values
            res!(h, i.wide.qr(), d => h.a(&d.into_r()));
            res!(h, i.tall.cholesky(), x => h.a(&x));
            res!(h, i.square.solve_triangular(&i.axis.clone().insert_axis(ndarray::Axis(1)), UPLO::Upper), x => h.a(&x));
            let mut m = i.tall.clone();
            m[(0, 0)] = S::nan();
            res!(h, m.qr(), d => h.a(&d.into_r()));
            let mut m = i.spd.clone();
            m[(0, 0)] = S::infinity();
            res!(h, m.cholesky(), x => h.a(&x));
            let e = Array2::<S>::zeros((0, 0));
            res!(h, e.eigh(), (v, w) => { h.a(&v); h.a(&w); });
            res!(h, e.svd(true, true), (u, s, v) => { h.opt(&u); h.a(&s); h.opt(&v); });
        }
        _ => iter_op(op, i, h),
    }
}
#[cfg(not(feature = "iterative"))]
fn iter_op<S: DSc>(_op: usize, _i: &Inputs<S>, _h: &mut H) {}
#[cfg(feature = "iterative")]
fn iter_op<S: DSc>(op: usize, i: &Inputs<S>, h: &mut H) {
    use linfa_linalg::lobpcg::*;
    use rand::{RngCore, SeedableRng};
    let n = i.sym.nrows();
    let k = 1 + (i.seed as usize) % n.min(4);
    let order = if i.seed & 1 == 0 {
        Order::Largest
    } else {
        Order::Smallest
    };
    let mut rng = rand_xoshiro::Xoshiro256Plus::seed_from_u64(i.seed);
    let its = if cfg!(miri) { 3 } else { 10 };
    let eat = |h: &mut H, r: LobpcgResult<S>| match r {
        Ok(r) | Err((_, Some(r))) => {
            h.a(&r.eigvals);
            h.a(&r.eigvecs);
            for x in r.rnorm {
                h.s(x);
            }
        }
        Err((e, None)) => h.u(crate::ctx::hash_str(&e.to_string())),
    };
    match op {
        25 => {
            let mut g = Rng::new(i.seed);
            let x = Array2::from_shape_fn((n, k), |_| S::of(g.sf()));
            let r = lobpcg(|y| i.sym.dot(&y), x, |_| {}, None, 1e-5, its + 2, order);
            eat(h, r);
        }
        26 => {
            let mut e = TruncatedEig::new_with_rng(i.sym.clone(), order, &mut rng)
                .precision(1e-4)
                .maxiter(its);
            let r = e.decompose(k);
            eat(h, r);
            let r = e.decompose(1);
            eat(h, r);
            drop(e);
            h.u(rng.next_u64());
        }
        27 => {
            let r = TruncatedSvd::new_with_rng(i.tall.clone(), order, &mut rng)
                .precision(1e-3)
                .maxiter(its)
                .decompose(k.min(i.tall.ncols()));
            match r {
                Ok(r) => {
                    h.a(&r.values());
                    let (u, s, v) = r.values_vectors();
                    h.a(&u);
                    h.a(&s);
                    h.a(&v);
                }
                Err(e) => h.u(crate::ctx::hash_str(&e.to_string())),
            }
            h.u(rng.next_u64());
        }
        _ => {
            let e = TruncatedEig::new_with_rng(i.psd.clone(), order, rng)
                .precision(1e-4)
                .maxiter(its);
            for (v, w) in e.into_iter().take(3) {
                h.a(&v);
                h.a(&w);
            }
        }
    }
}

type E = Result<(), (String, String)>;
fn same<S: Sc, I: Dimension>(what: &str, a: &ndarray::Array<S, I>, b: &ndarray::Array<S, I>) -> E {
    let eq = a.shape() == b.shape()
        && a.iter()
            .zip(b.iter())
            .all(|(x, y)| x.bits() == y.bits() || (x.is_nan() && y.is_nan()));
    if eq {
        Ok(())
    } else {
        Err((
            what.to_string(),
            format!("{what} returned a different result when asked again"),
        ))
    }
}
/// Random histories of accessor calls on decomposition objects and clones of them.
pub fn accessors<S: DSc>(i: &Inputs<S>, rng: &mut Rng) -> E {
    // QR of a tall and of a square matrix
    for m in [&i.tall, &i.square] {
        let Ok(d) = m.qr() else { continue };
        let square = m.nrows() == m.ncols();
        let q = d.generate_q();
        let r = d.clone().into_r();
        let inv = d.is_invertible();
        let b = if square { &i.rhs } else { &i.rhs };
        let x = d.solve(b).ok();
        let xt = if square { d.solve_tr(b).ok() } else { None };
        let iv = if square { d.inverse().ok() } else { None };
        let opt = |w: &str, a: &Option<Array2<S>>, b: &Option<Array2<S>>| match (a, b) {
            (None, None) => Ok(()),
            (Some(a), Some(b)) => same(w, a, b),
            _ => Err((
                w.to_string(),
                format!("{w} changed between success and failure"),
            )),
        };
        let mut cur = d.clone();
        for _ in 0..10 {
            match rng.below(8) {
                0 => same("qr.generate_q", &cur.generate_q(), &q)?,
                1 => same("qr.into_r", &cur.clone().into_r(), &r)?,
                2 => {
                    if cur.is_invertible() != inv {
                        return Err(("qr.is_invertible".into(), "is_invertible changed".into()));
                    }
                }
                3 => opt("qr.solve", &cur.solve(b).ok(), &x)?,
                4 if square => opt("qr.solve_tr", &cur.solve_tr(b).ok(), &xt)?,
                5 if square => opt("qr.inverse", &cur.inverse().ok(), &iv)?,
                6 => {
                    let (a, b) = cur.clone().into_decomp();
                    same("qr.into_decomp", &a, &q)?;
                    same("qr.into_decomp", &b, &r)?;
                }
                _ => cur = cur.clone(),
            }
        }
        same("qr.into_r", &d.into_r(), &r)?;
    }
    if let Ok(d) = i.sym.clone().sym_tridiagonal() {
        let q = d.generate_q();
        let (a, b) = d.clone().into_diagonals();
        let t = d.clone().into_tridiag_matrix();
        for _ in 0..6 {
            match rng.below(3) {
                0 => same("tridiagonal.generate_q", &d.generate_q(), &q)?,
                1 => {
                    let (x, y) = d.clone().into_diagonals();
                    same("tridiagonal.into_diagonals", &x, &a)?;
                    same("tridiagonal.into_diagonals", &y, &b)?;
                }
                _ => same(
                    "tridiagonal.into_tridiag_matrix",
                    &d.clone().into_tridiag_matrix(),
                    &t,
                )?,
            }
        }
    }
    for m in [&i.tall, &i.wide] {
        let Ok(d) = m.clone().bidiagonal() else {
            continue;
        };
        let (u, v, up) = (d.generate_u(), d.generate_vt(), d.is_upper_diag());
        let b = d.clone().into_b();
        let (x, y) = d.clone().into_diagonals();
        for _ in 0..8 {
            match rng.below(5) {
                0 => same("bidiagonal.generate_u", &d.generate_u(), &u)?,
                1 => same("bidiagonal.generate_vt", &d.generate_vt(), &v)?,
                2 => same("bidiagonal.into_b", &d.clone().into_b(), &b)?,
                3 => {
                    let (p, q) = d.clone().into_diagonals();
                    same("bidiagonal.into_diagonals", &p, &x)?;
                    same("bidiagonal.into_diagonals", &q, &y)?;
                }
                _ => {
                    if d.is_upper_diag() != up {
                        return Err((
                            "bidiagonal.is_upper_diag".into(),
                            "is_upper_diag changed".into(),
                        ));
                    }
                }
            }
        }
    }
    #[cfg(feature = "iterative")]
    {
        use linfa_linalg::lobpcg::*;
        use rand::SeedableRng;
        let rg = rand_xoshiro::Xoshiro256Plus::seed_from_u64(i.seed);
        let k = i.tall.ncols().min(3);
        let t = TruncatedSvd::new_with_rng(i.tall.clone(), Order::Largest, rg.clone())
            .precision(1e-3)
            .maxiter(8);
        let t2 = t.clone();
        // the Gram matrix of extreme values overflows, which the solver answers with a panic
        let dec = |t: TruncatedSvd<S, _>| catch_unwind(AssertUnwindSafe(|| t.decompose(k))).ok();
        let (r, r2) = (dec(t), dec(t2));
        if r.is_some() != r2.is_some() {
            return Err((
                "truncated_svd.clone".into(),
                "clone behaves differently".into(),
            ));
        }
        if let (Some(Ok(r)), Some(Ok(r2))) = (r, r2) {
            let (u, s, v) = r.values_vectors();
            for _ in 0..3 {
                match rng.below(3) {
                    0 => same("truncated_svd.values", &r.values(), &s)?,
                    1 => {
                        let (a, b, c) = r2.values_vectors();
                        same("truncated_svd.values_vectors", &a, &u)?;
                        same("truncated_svd.values_vectors", &b, &s)?;
                        same("truncated_svd.values_vectors", &c, &v)?;
                    }
                    _ => {
                        let (a, b, c) = r.clone().values_vectors();
                        same("truncated_svd.clone", &a, &u)?;
                        same("truncated_svd.clone", &b, &s)?;
                        same("truncated_svd.clone", &c, &v)?;
                    }
                }
            }
        }
        let mut e = TruncatedEig::new_with_rng(i.sym.clone(), Order::Smallest, rg)
            .precision(1e-3)
            .maxiter(6);
        let mut e2 = e.clone();
        let (Ok(a) | Err((_, Some(a)))) = e.decompose(1) else {
            return Ok(());
        };
        let (Ok(b) | Err((_, Some(b)))) = e2.decompose(1) else {
            return Err((
                "truncated_eig.clone".into(),
                "clone behaves differently".into(),
            ));
        };
        same("truncated_eig.clone", &a.eigvals, &b.eigvals)?;
        same("truncated_eig.clone", &a.eigvecs, &b.eigvecs)?;
    }
    Ok(())
}
