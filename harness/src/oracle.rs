//! Deterministic oracles over the observed results of one call. All arithmetic is double-double on
//! copies rescaled by a power of two so that the largest input entry is about 1.
use crate::ctx::{Ctx, R};
use crate::dd::DD;
use crate::mat::*;
use crate::sc::Sc;
use ndarray::{Array1, Array2, ArrayBase, Data, Ix1, Ix2};

/// tolerance constants (multiples of eps * dimension), calibrated in DESIGN.md
pub const K_ORTH: f64 = 30.0;
pub const K_REC: f64 = 30.0;
pub const K_EIG: f64 = 60.0;
pub const K_SVD: f64 = 60.0;
pub const K_SOLVE: f64 = 60.0;

pub fn dims(r: usize, c: usize) -> f64 {
    (r + c) as f64 + 2.0
}
pub fn shape_is<S, D: Data<Elem = S>>(
    c: &Ctx,
    what: &str,
    a: &ArrayBase<D, Ix2>,
    r: usize,
    k: usize,
) -> R {
    if a.dim() != (r, k) {
        return c.viol(
            &format!("{what}/shape"),
            format!("{what}: shape {:?}, expected ({r}, {k})", a.dim()),
        );
    }
    Ok(())
}
pub fn finite2<S: Sc, D: Data<Elem = S>>(c: &Ctx, what: &str, a: &ArrayBase<D, Ix2>) -> R {
    if !all_finite(a) {
        return c.viol(
            &format!("{what}/non-finite"),
            format!("{what} contains NaN or infinity"),
        );
    }
    Ok(())
}
pub fn finite1<S: Sc, D: Data<Elem = S>>(c: &Ctx, what: &str, a: &ArrayBase<D, Ix1>) -> R {
    if !all_finite(a) {
        return c.viol(
            &format!("{what}/non-finite"),
            format!("{what} contains NaN or infinity: {a:?}"),
        );
    }
    Ok(())
}
pub fn orth<S: Sc>(c: &mut Ctx, what: &str, q: &Dm) -> R {
    let e = q.orth_err();
    c.le(
        &format!("{what}/orthonormal"),
        e,
        K_ORTH * S::EPS * dims(q.r, q.c),
    )
}

/// the matrix under test and its rescaled oracle copy
pub struct Or {
    pub a: Dm,
    pub e: i32,
    pub n: f64,
}
pub fn or<S: Sc>(m: &Mat<S>) -> Or {
    let e = -m.maxexp();
    let a = m.dm(e);
    let n = a.fro();
    Or { a, e, n }
}

pub fn qr_ok<S: Sc, D: Data<Elem = S>>(
    c: &mut Ctx,
    o: &Or,
    q: &Array2<S>,
    r: &ArrayBase<D, Ix2>,
) -> R {
    let (m, n) = (o.a.r, o.a.c);
    shape_is(c, "Q", q, m, n)?;
    shape_is(c, "R", r, n, n)?;
    finite2(c, "Q", q)?;
    finite2(c, "R", r)?;
    for i in 0..n {
        for j in 0..i {
            if !r[(i, j)].is_zero() {
                return c.viol("R/not-triangular", format!("R[{i},{j}] = {:e}", r[(i, j)]));
            }
        }
        if !(r[(i, i)] >= S::zero()) {
            return c.viol(
                "R/negative-diagonal",
                format!("R[{i},{i}] = {:e}", r[(i, i)]),
            );
        }
    }
    let qd = dm(q, 0);
    orth::<S>(c, "Q", &qd)?;
    let rec = qd.mul(&dm(r, o.e)).sub(&o.a).fro();
    c.le("QR=A", rec, K_REC * S::EPS * dims(m, n) * o.n)
}

/// `l` holds the factor in its lower triangle; `clean`: upper must be exactly zero
pub fn chol_ok<S: Sc, D: Data<Elem = S>>(
    c: &mut Ctx,
    what: &str,
    m: &Mat<S>,
    l: &ArrayBase<D, Ix2>,
    clean: bool,
) -> R {
    let n = m.r;
    shape_is(c, what, l, n, n)?;
    // L scales with sqrt: use an even exponent
    let mut e = -m.maxexp();
    if e % 2 != 0 {
        e += 1;
    }
    let a = m.dm(e);
    let ld = Dm::from_fn(n, n, |i, j| {
        if i >= j {
            l[(i, j)].dd(e / 2)
        } else {
            DD::ZERO
        }
    });
    for i in 0..n {
        if !(l[(i, i)] > S::zero()) {
            return c.viol(
                &format!("{what}/diagonal-not-positive"),
                format!("L[{i},{i}] = {:e}", l[(i, i)]),
            );
        }
        if clean {
            for j in i + 1..n {
                if !l[(i, j)].is_zero() {
                    return c.viol(
                        &format!("{what}/upper-not-zero"),
                        format!("L[{i},{j}] = {:e}", l[(i, j)]),
                    );
                }
            }
        }
    }
    if !ld.finite() {
        return c.viol(
            &format!("{what}/non-finite"),
            "factor contains NaN or infinity",
        );
    }
    let rec = ld.mul(&ld.t()).sub(&a).fro();
    c.le(
        &format!("{what}: LLt=A"),
        rec,
        K_REC * S::EPS * dims(n, n) * a.fro(),
    )
}

pub fn tridiag_ok<S: Sc>(
    c: &mut Ctx,
    o: &Or,
    q: &Array2<S>,
    t: &Array2<S>,
    d: &Array1<S>,
    off: &Array1<S>,
) -> R {
    let n = o.a.r;
    shape_is(c, "Q", q, n, n)?;
    shape_is(c, "T", t, n, n)?;
    finite2(c, "Q", q)?;
    finite2(c, "T", t)?;
    if d.len() != n || off.len() + 1 != n {
        return c.viol(
            "diagonals/length",
            format!("lengths {} {}", d.len(), off.len()),
        );
    }
    for i in 0..n {
        for j in 0..n {
            let x = t[(i, j)];
            let want = if i == j {
                d[i]
            } else if i.abs_diff(j) == 1 {
                off[i.min(j)]
            } else {
                S::zero()
            };
            if x != want {
                return c.viol(
                    "T/entries",
                    format!("T[{i},{j}] = {x:e}, expected {want:e}"),
                );
            }
        }
    }
    if off.iter().any(|x| !(*x >= S::zero())) {
        return c.viol("T/negative-off-diagonal", format!("{off:?}"));
    }
    let qd = dm(q, 0);
    orth::<S>(c, "Q", &qd)?;
    let rec = qd.mul(&dm(t, o.e)).mul(&qd.t()).sub(&o.a).fro();
    c.le("QTQt=A", rec, K_REC * S::EPS * dims(n, n) * o.n)
}

pub fn bidiag_ok<S: Sc>(
    c: &mut Ctx,
    o: &Or,
    upper: bool,
    u: &Array2<S>,
    b: &Array2<S>,
    vt: &Array2<S>,
    d: &Array1<S>,
    off: &Array1<S>,
) -> R {
    let (m, n) = (o.a.r, o.a.c);
    let k = m.min(n);
    if upper != (m >= n) {
        return c.viol(
            "orientation",
            format!("is_upper_diag() = {upper} for {m}x{n}"),
        );
    }
    shape_is(c, "U", u, m, k)?;
    shape_is(c, "B", b, k, k)?;
    shape_is(c, "Vt", vt, k, n)?;
    finite2(c, "U", u)?;
    finite2(c, "B", b)?;
    finite2(c, "Vt", vt)?;
    if d.len() != k || off.len() + 1 != k {
        return c.viol(
            "diagonals/length",
            format!("lengths {} {}", d.len(), off.len()),
        );
    }
    for i in 0..k {
        for j in 0..k {
            let x = b[(i, j)];
            let want = if i == j {
                d[i]
            } else if upper && j == i + 1 {
                off[i]
            } else if !upper && i == j + 1 {
                off[j]
            } else {
                S::zero()
            };
            if x != want {
                return c.viol(
                    "B/entries",
                    format!("B[{i},{j}] = {x:e}, expected {want:e}"),
                );
            }
            if !(x >= S::zero()) {
                return c.viol("B/negative", format!("B[{i},{j}] = {x:e}"));
            }
        }
    }
    let ud = dm(u, 0);
    let vd = dm(vt, 0);
    orth::<S>(c, "U", &ud)?;
    orth::<S>(c, "V", &vd.t())?;
    let rec = ud.mul(&dm(b, o.e)).mul(&vd).sub(&o.a).fro();
    c.le("UBVt=A", rec, K_REC * S::EPS * dims(m, n) * o.n)
}

pub fn eig_ok<S: Sc>(c: &mut Ctx, o: &Or, vals: &Array1<S>, vecs: &Array2<S>) -> R {
    let n = o.a.r;
    if vals.len() != n {
        return c.viol(
            "eigenvalues/count",
            format!("{} eigenvalues for n={n}", vals.len()),
        );
    }
    shape_is(c, "eigenvectors", vecs, n, n)?;
    finite1(c, "eigenvalues", vals)?;
    finite2(c, "eigenvectors", vecs)?;
    let v = dm(vecs, 0);
    orth::<S>(c, "eigenvectors", &v)?;
    let l = dv(vals, o.e);
    let res = o.a.mul(&v).sub(&v.scale_cols(&l));
    let mut w = 0.0f64;
    for j in 0..n {
        w = w.max(res.col_norm(j));
    }
    c.le("Av=lv", w, K_EIG * S::EPS * dims(n, n) * o.n)
}

pub fn svals_ok<S: Sc>(c: &Ctx, k: usize, s: &Array1<S>) -> R {
    if s.len() != k {
        return c.viol(
            "singular-values/count",
            format!("{} singular values, expected {k}", s.len()),
        );
    }
    for x in s.iter() {
        if !x.is_finite() || !(*x >= S::zero()) {
            return c.viol("singular-values/sign", format!("singular values {s:?}"));
        }
    }
    Ok(())
}
pub fn svd_ok<S: Sc>(c: &mut Ctx, o: &Or, u: &Array2<S>, s: &Array1<S>, vt: &Array2<S>) -> R {
    let (m, n) = (o.a.r, o.a.c);
    let k = m.min(n);
    svals_ok(c, k, s)?;
    shape_is(c, "U", u, m, k)?;
    shape_is(c, "Vt", vt, k, n)?;
    finite2(c, "U", u)?;
    finite2(c, "Vt", vt)?;
    let ud = dm(u, 0);
    let vd = dm(vt, 0);
    orth::<S>(c, "U", &ud)?;
    orth::<S>(c, "V", &vd.t())?;
    let rec = ud.scale_cols(&dv(s, o.e)).mul(&vd).sub(&o.a).fro();
    c.le("USVt=A", rec, K_SVD * S::EPS * dims(m, n) * o.n)
}
/// a factor computed alone: `w` (columns) orthonormal, |op^T w_i| = s_i, and op^T w_i mutually orthogonal
pub fn single_factor_ok<S: Sc>(
    c: &mut Ctx,
    what: &str,
    o: &Or,
    w: &Dm,
    s: &Array1<S>,
    left: bool,
) -> R {
    let k = s.len();
    let a = if left { o.a.t() } else { o.a.clone() };
    if w.c != k || w.r != a.c {
        return c.viol(
            &format!("{what}/shape"),
            format!("factor shape {}x{}", w.r, w.c),
        );
    }
    if !w.finite() {
        return c.viol(&format!("{what}/non-finite"), "factor not finite");
    }
    orth::<S>(c, what, w)?;
    let p = a.mul(w);
    let sd = dv(s, o.e);
    let mut worst = 0.0f64;
    for i in 0..k {
        worst = worst.max((fro_dd(&p.col(i)) - sd[i]).to_f64().abs());
    }
    let t = S::EPS * dims(a.r, a.c);
    c.le(&format!("{what}: |A w|=s"), worst, K_SVD * t * o.n)?;
    let g = p.t().mul(&p);
    let mut off = 0.0f64;
    for i in 0..k {
        for j in 0..k {
            if i != j {
                off = off.max(g.at(i, j).to_f64().abs());
            }
        }
    }
    c.le(
        &format!("{what}: A w_i orthogonal"),
        off,
        K_SVD * t * o.n * o.n,
    )
}

/// Rescaling exponents for a linear system: matrix and right-hand side separately.
pub fn col_exp<S: Sc>(b: &Mat<S>, j: usize) -> i32 {
    let m = (0..b.r)
        .map(|i| b.at(i, j).dd(0).to_f64().abs())
        .fold(0.0, f64::max);
    crate::dd::exponent(m)
}
/// per column: || A x - b || <= K eps n |A| |x|
pub fn solve_ok<S: Sc, D: Data<Elem = S>>(
    c: &mut Ctx,
    what: &str,
    o: &Or,
    x: &ArrayBase<D, Ix2>,
    b: &Mat<S>,
) -> R {
    shape_is(c, what, x, o.a.c, b.c)?;
    finite2(c, what, x)?;
    for j in 0..b.c {
        let eb = -col_exp(b, j);
        let bd = Dm::from_fn(b.r, 1, |i, _| b.at(i, j).dd(eb));
        // x' = x * 2^(eb - e) so that (A 2^e) x' = b 2^eb
        let xd = Dm::from_fn(o.a.c, 1, |i, _| x[(i, j)].dd(eb - o.e));
        let res = o.a.mul(&xd).sub(&bd).fro();
        // absolute slack for results that are subnormal
        let slack = if xd.fro() > 0.0 {
            0.0
        } else {
            4.0 * S::EPS * bd.fro()
        };
        c.le(
            &format!("{what}: Ax=b"),
            res,
            K_SOLVE * S::EPS * dims(o.a.r, o.a.c) * o.n * xd.fro() + slack,
        )?;
    }
    Ok(())
}
