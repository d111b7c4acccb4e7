//! C01-C11: factorisations and solvers.
use crate::ctx::*;
use crate::dd::DD;
use crate::gen::*;
use crate::mat::*;
use crate::oracle::*;
use crate::sc::Sc;
use crate::{by_scalar, store_into, store_ref};
use linfa_linalg::bidiagonal::*;
use linfa_linalg::cholesky::*;
use linfa_linalg::qr::*;
use linfa_linalg::triangular::*;
use linfa_linalg::tridiagonal::*;
use linfa_linalg::{LinalgError, Result as LR};
use ndarray::{Array1, Array2};

pub fn maxk<S: Sc>() -> f64 {
    (1e-3 / S::EPS).min(1e12)
}

// ------------------------------------------------------------------------------------------ C01
pub fn c01(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c01_t, k)
}
pub fn c01_t<S: Sc>(c: &mut Ctx) -> R {
    let (r, k) = tall(c);
    let k = if c.rng.chance(0.01) { 0 } else { k };
    let m = rect_s::<S>(c, r, k, Scale::Wide);
    c.nontrivial = !m.is_zero() && k > 0;
    c01_on(c, &m)
}
pub fn c01_on<S: Sc>(c: &mut Ctx, m: &Mat<S>) -> R {
    let n = m.r;
    let o = or(m);
    let (q, rr) = match c.rng.below(4) {
        0 => {
            c.ev("qr");
            store_ref!(c, m, a => c.ok("qr", n, || a.qr().map(|d| d.into_decomp()))?)
        }
        1 => {
            c.ev("qr_into.into_decomp");
            store_into!(c, m, a => c.ok("qr_into", n, || a.qr_into().map(|d| { let (q, r) = d.into_decomp(); (q, r.to_owned()) }))?)
        }
        2 => {
            c.ev("qr_into.generate_q/into_r");
            store_into!(c, m, a => c.ok("qr_into", n, || a.qr_into().map(|d| { let q = d.generate_q(); (q, d.into_r().to_owned()) }))?)
        }
        _ => {
            c.ev("qr.clone");
            store_ref!(c, m, a => c.ok("qr", n, || a.qr().map(|d| { let d2 = d.clone(); let q = d.generate_q(); (q, d2.into_r()) }))?)
        }
    };
    qr_ok(c, &o, &q, &rr)
}

// ------------------------------------------------------------------------------------------ C02
/// right-hand side whose columns have very different scales around the scale of `a`
pub fn rhs<S: Sc>(c: &mut Ctx, rows: usize, cols: usize, aexp: i32) -> Mat<S> {
    let far = c.rng.chance(0.2);
    let span = match (S::EPS > 1e-10, far) {
        (true, false) => 6,
        (true, true) => 30,
        (false, false) => 60,
        _ => 420,
    };
    let lim = ((S::HI - 4) as f64 * std::f64::consts::LOG2_10) as i64;
    let mut b = Mat::from_fn(rows, cols, |_, _| S::of(0.0));
    for j in 0..cols {
        let e = (aexp as i64 + c.rng.range(-span, span)).clamp(-lim, lim) as i32;
        let kind = c.rng.below(8);
        let one = c.rng.below(rows.max(1));
        for i in 0..rows {
            let x = match kind {
                0 => c.rng.range(-3, 3) as f64,
                1 => (i == one) as u8 as f64,
                2 => 0.0,
                3 => {
                    if c.rng.chance(0.3) {
                        c.rng.sf()
                    } else {
                        0.0
                    }
                }
                _ => c.rng.sf(),
            };
            b.set(i, j, S::of(crate::dd::ldexp(x, e)));
        }
    }
    b
}
/// replaces some columns of `b` by A*x0 (rounded) for a moderate x0, so that the solution is small
/// compared with norm(A^-1)*norm(b); `a` is the matrix multiplied by 2^e
fn hit_range<S: Sc>(c: &mut Ctx, a: &Dm, e: i32, b: &mut Mat<S>) {
    for j in 0..b.c {
        if !c.rng.chance(0.4) {
            continue;
        }
        let sparse = c.rng.chance(0.3);
        let x0 = Dm::from_fn(a.c, 1, |_, _| {
            DD::f(if sparse && c.rng.chance(0.7) { 0.0 } else { c.rng.sf() })
        });
        let p = a.mul(&x0);
        for i in 0..b.r {
            let x = crate::dd::mul2(p.at(i, 0), -e);
            b.set(i, j, S::of(x.hi) + S::of(x.lo));
        }
        c.ev("right-hand side from a moderate solution");
    }
}
/// number of right-hand sides: usually few, sometimes more than the dimension
fn rhs_count(c: &mut Ctx, n: usize, few: &[usize]) -> usize {
    if n <= 24 && c.rng.chance(0.05) {
        n + 1 + c.rng.below(2 * n + 2)
    } else {
        *c.rng.pick(few)
    }
}
/// square matrix with condition number at most maxk, or None
pub fn nonsingular<S: Sc>(c: &mut Ctx, sc: Scale) -> Option<Mat<S>> {
    let n = c.dim();
    let m = if c.rng.chance(0.4) {
        rect_s::<S>(c, n, n, sc)
    } else {
        let mut s = spectrum(&mut c.rng, n, false);
        let mx = s.iter().cloned().fold(0.0, f64::max).max(1e-300);
        let lo = 1.0 / (maxk::<S>() * 0.5).powf(c.rng.f());
        s.iter_mut().for_each(|x| *x = (*x / mx).max(lo));
        let m = from_svd(&mut c.rng, n, n, &s);
        c.class("gen:conditioned");
        c.note(format!("conditioned {n}x{n} {}", S::NAME));
        let m = finish::<S>(c, m, false, sc);
        c.mix(m.hash());
        m
    };
    let k = cond(&m);
    if !(k <= maxk::<S>()) {
        c.ev("skipped: ill-conditioned");
        return None;
    }
    c.nontrivial = true;
    Some(m)
}
pub fn c02(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c02_t, k)
}
pub fn c02_t<S: Sc>(c: &mut Ctx) -> R {
    let Some(m) = nonsingular::<S>(c, Scale::Wide) else {
        return Ok(());
    };
    c02_on(c, &m)
}
pub fn c02_on<S: Sc>(c: &mut Ctx, m: &Mat<S>) -> R {
    let n = m.r;
    let o = or(m);
    let ot = Or {
        a: o.a.t(),
        e: o.e,
        n: o.n,
    };
    let kc = rhs_count(c, n, &[0, 1, 1, 2, 3, 5, 9]);
    let mut b = rhs::<S>(c, n, kc, m.maxexp());
    let tr = c.rng.chance(0.4);
    hit_range(c, if tr { &ot.a } else { &o.a }, o.e, &mut b);
    let by_ref = c.rng.chance(0.5);
    c.ev(if by_ref {
        "decompose: qr"
    } else {
        "decompose: qr_into"
    });
    macro_rules! go {
        ($d:expr) => {{
            let d = $d;
            let inv = c.call("is_invertible", n, || d.is_invertible())?;
            c.check("is_invertible", inv, || "nonsingular matrix reported as not invertible".into())?;
            let what = c.rng.below(5);
            match what {
                0 => {
                    c.ev("solve");
                    let x = store_ref!(c, &b, bb => c.ok("solve", n, || d.solve(bb))?);
                    solve_ok(c, "solve", &o, &x, &b)?;
                }
                1 => {
                    c.ev("solve_into");
                    let x = store_into!(c, &b, bb => c.ok("solve_into", n, || d.solve_into(bb).map(|x| x.to_owned()))?);
                    solve_ok(c, "solve_into", &o, &x, &b)?;
                }
                2 => {
                    c.ev("solve_tr");
                    let x = store_ref!(c, &b, bb => c.ok("solve_tr", n, || d.solve_tr(bb))?);
                    solve_ok(c, "solve_tr", &ot, &x, &b)?;
                }
                3 => {
                    c.ev("solve_tr_into");
                    let x = store_into!(c, &b, bb => c.ok("solve_tr_into", n, || d.solve_tr_into(bb))?);
                    solve_ok(c, "solve_tr_into", &ot, &x, &b)?;
                }
                _ => {
                    c.ev("inverse");
                    let x = c.ok("inverse", n, || d.inverse())?;
                    let eye = Mat::from_fn(n, n, |i, j| S::of((i == j) as u8 as f64));
                    // entries of the inverse must be representable
                    if m.maxexp().abs() < (S::HI as f64 * 3.0) as i32 {
                        solve_ok(c, "inverse", &o, &x, &eye)?;
                    }
                }
            }
            // independence of the columns: change the other columns, this one may not move
            if kc >= 2 {
                let j = c.rng.below(kc);
                let junk = *c.rng.pick(&[0.0, 1.0, -3.5, f64::NAN, f64::INFINITY]);
                let b2 = Mat::from_fn(n, kc, |i, l| if l == j { b.at(i, l) } else { S::of(junk) });
                let (a1, a2) = (b.arr(), b2.arr());
                let tr = c.rng.chance(0.5);
                let (x1, x2) = if tr {
                    (c.ok("solve_tr", n, || d.solve_tr(&a1))?, c.ok("solve_tr", n, || d.solve_tr(&a2))?)
                } else {
                    (c.ok("solve", n, || d.solve(&a1))?, c.ok("solve", n, || d.solve(&a2))?)
                };
                c.ev("column independence");
                let same = same_bits(&x1.column(j), &x2.column(j));
                c.check("column-independence", same, || format!("column {j} of the solution changed when other right-hand sides changed (transposed: {tr})"))?;
            }
        }};
    }
    if by_ref {
        store_ref!(c, m, a => go!(c.ok("qr", n, || a.qr())?));
    } else {
        store_into!(c, m, a => go!(c.ok("qr_into", n, || a.qr_into())?));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C03
pub fn c03(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c03_t, k)
}
pub fn full_rank<S: Sc>(c: &mut Ctx, sc: Scale) -> Option<(Mat<S>, f64)> {
    let (r, k) = any_shape(c);
    let m = if c.rng.chance(0.5) {
        rect_s::<S>(c, r, k, sc)
    } else {
        let d = r.min(k);
        let mut s = spectrum(&mut c.rng, d, false);
        let mx = s.iter().cloned().fold(0.0, f64::max).max(1e-300);
        let lo = 1.0 / (maxk::<S>() * 0.5).powf(c.rng.f());
        s.iter_mut().for_each(|x| *x = (*x / mx).max(lo));
        let m = from_svd(&mut c.rng, r, k, &s);
        c.class("gen:conditioned");
        c.note(format!("conditioned {r}x{k} {}", S::NAME));
        let m = finish::<S>(c, m, false, sc);
        c.mix(m.hash());
        m
    };
    let kk = cond(&m);
    if !(kk <= maxk::<S>()) {
        c.ev("skipped: rank-deficient or ill-conditioned");
        return None;
    }
    c.nontrivial = true;
    Some((m, kk))
}
pub fn c03_t<S: Sc>(c: &mut Ctx) -> R {
    let Some((m, kk)) = full_rank::<S>(c, Scale::Wide) else {
        return Ok(());
    };
    c03_on(c, &m, kk)
}
pub fn c03_on<S: Sc>(c: &mut Ctx, m: &Mat<S>, kk: f64) -> R {
    let (r, n) = (m.r, m.c);
    let o = or(m);
    let kc = rhs_count(c, n, &[0, 1, 1, 2, 3, 5]);
    let mut b = rhs::<S>(c, r, kc, m.maxexp());
    let consistent = c.rng.chance(0.3);
    if consistent {
        // b = A * x0 rounded to the element type (so consistent up to rounding)
        let x0 = Mat::from_fn(n, kc, |_, _| S::of(c.rng.sf()));
        let p = m.dm(o.e).mul(&x0.dm(0));
        b = Mat::from_fn(r, kc, |i, j| {
            let x = crate::dd::mul2(p.at(i, j), -o.e);
            S::of(x.hi) + S::of(x.lo)
        });
        c.class("rhs:consistent");
    }
    c.class(if r > n {
        "shape:tall"
    } else if r == n {
        "shape:square"
    } else {
        "shape:wide"
    });
    let big = r.max(n);
    let x = if c.rng.chance(0.5) {
        c.ev("least_squares");
        store_into!(c, m, a => store_ref!(c, &b, bb => c.ok("least_squares", big, || a.least_squares(bb))?))
    } else {
        c.ev("least_squares_into");
        let (bl, _) = rand_layout(&b, &mut c.rng);
        store_into!(c, m, a => c.ok("least_squares_into", big, || a.least_squares_into(bl))?)
    };
    shape_is(c, "least_squares", &x, n, kc)?;
    finite2(c, "least_squares", &x)?;
    let t = S::EPS * dims(r, n);
    for j in 0..kc {
        let eb = -col_exp(&b, j);
        let bd = Dm::from_fn(r, 1, |i, _| b.at(i, j).dd(eb));
        let xd = Dm::from_fn(n, 1, |i, _| x[(i, j)].dd(eb - o.e));
        let res = o.a.mul(&xd).sub(&bd);
        let sc = bd.fro() + o.n * xd.fro();
        if r <= n || consistent {
            c.le(
                "least_squares: Ax=b (consistent)",
                res.fro(),
                K_SOLVE * t * sc,
            )?;
        }
        let g = o.a.t().mul(&res).fro();
        c.le("least_squares: At(Ax-b)=0", g, K_SOLVE * t * o.n * sc)?;
        if r < n && S::EPS > 1e-20 {
            // x in the row space: project with a double-double QR of A^T (MGS, twice)
            let q = mgs(&o.a.t());
            let p = q.mul(&q.t().mul(&xd)).sub(&xd).fro();
            c.le(
                "least_squares: minimum norm",
                p,
                K_SOLVE * (t * kk + 1e-26 * kk) * xd.fro(),
            )?;
        }
    }
    Ok(())
}
/// orthonormal basis of the columns (double-double modified Gram-Schmidt, two passes)
pub fn mgs(a: &Dm) -> Dm {

    let mut q = a.clone();
    for j in 0..a.c {
        for _ in 0..2 {
            for k in 0..j {
                let mut d = DD::ZERO;
                for i in 0..a.r {
                    d = d + q.at(i, k) * q.at(i, j);
                }
                for i in 0..a.r {
                    let x = q.at(i, j) - d * q.at(i, k);
                    q.set(i, j, x);
                }
            }
        }
        let mut s = DD::ZERO;
        for i in 0..a.r {
            s = s + q.at(i, j) * q.at(i, j);
        }
        let nn = s.sqrt_dd();
        if nn.hi > 0.0 {
            for i in 0..a.r {
                let x = q.at(i, j) / nn;
                q.set(i, j, x);
            }
        }
    }
    q
}

// ------------------------------------------------------------------------------------------ C04
pub fn c04(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c04_t, k)
}
fn non_inv<T>(c: &mut Ctx, what: &str, r: LR<T>) -> R {
    match r {
        Err(LinalgError::NonInvertible) => {
            c.ev("NonInvertible returned");
            Ok(())
        }
        Ok(_) => c.viol(
            &format!("{what}/accepted-singular"),
            format!("{what} succeeded on an exactly singular matrix"),
        ),
        Err(e) => c.viol(
            &format!("{what}/wrong-error"),
            format!("{what} returned {e:?}"),
        ),
    }
}
pub fn c04_t<S: Sc>(c: &mut Ctx) -> R {
    let (r, k) = tall(c);
    let (r, k) = (r.min(40), k.min(40));
    let r = if c.rng.chance(0.5) { k } else { r };
    let kind = c.rng.below(4);
    let mut m;
    let mut singular = true;
    match kind {
        0 => {
            m = rect_s::<S>(c, r, k, Scale::Wide);
            for _ in 0..1 + c.rng.below(2) {
                let j = c.rng.below(k);
                (0..r).for_each(|i| m.set(i, j, S::of(if i % 2 == 0 { 0.0 } else { -0.0 })));
                c.note(format!("zero column {j}"));
            }
            c.class("singular:zero-column");
        }
        1 => {
            // upper triangular / diagonal with one exactly zero pivot
            m = rect_s::<S>(c, r, k, Scale::Mild);
            let p = c.rng.below(k);
            let diag = c.rng.chance(0.3);
            for i in 0..r {
                for j in 0..k {
                    if i > j || (diag && i != j) {
                        m.set(i, j, S::zero());
                    } else if i == j && m.at(i, j).is_zero() {
                        m.set(i, j, S::one());
                    }
                }
            }
            m.set(p, p, S::zero());
            c.note(format!("zero pivot {p}"));
            c.class("singular:zero-pivot");
        }
        2 => {
            m = Mat::from_fn(r, k, |_, _| S::zero());
            c.class("singular:zero-matrix");
        }
        _ => {
            m = rect_s::<S>(c, r, k, Scale::Wide);
            singular = false;
            c.class("any-matrix");
        }
    }
    c.mix(m.hash());
    c.nontrivial = true;
    let kc = *c.rng.pick(&[0, 1, 2, 3]);
    let n = r;
    let b = rhs::<S>(c, r, kc, m.maxexp()).arr();
    let bt = rhs::<S>(c, k, kc, m.maxexp()).arr();
    let d = store_ref!(c, &m, a => c.ok("qr", n, || a.qr())?);
    let inv = c.call("is_invertible", n, || d.is_invertible())?;
    let s = c.call("solve", n, || d.solve(&b))?;
    let st = c.call("solve_tr", n, || d.solve_tr(&bt))?;
    let si = c.call("solve_into", n, || d.solve_into(b.clone()))?;
    let sti = c.call("solve_tr_into", n, || d.solve_tr_into(bt.clone()))?;
    let iv = c.call("inverse", n, || d.inverse())?;
    if singular {
        c.check("is_invertible/singular", !inv, || {
            "is_invertible() is true for an exactly singular matrix".into()
        })?;
        non_inv(c, "solve", s)?;
        non_inv(c, "solve_tr", st)?;
        non_inv(c, "solve_into", si)?;
        non_inv(c, "solve_tr_into", sti)?;
        if r == k {
            non_inv(c, "inverse", iv)?;
        }
        let l = store_into!(c, &m, a => c.call("least_squares", n, || a.least_squares(&b))?);
        non_inv(c, "least_squares", l)?;
        if r > k {
            let mt = m.t();
            let l = store_into!(c, &mt, a => c.call("least_squares", n, || a.least_squares_into(bt.clone()))?);
            non_inv(c, "least_squares (wide)", l)?;
        }
    } else {
        c.ev(if inv { "invertible" } else { "not invertible" });
        macro_rules! agree {
            ($w:expr, $x:expr) => {{
                let okk = $x.is_ok();
                let e = $x.err();
                c.check(
                    &format!("{}/agrees-with-is_invertible", $w),
                    okk == inv && (okk || matches!(e, Some(LinalgError::NonInvertible))),
                    || format!("is_invertible() = {inv} but {} gave {:?}", $w, e),
                )?;
            }};
        }
        // look for NaN / infinity before consuming the results
        let well = inv && cond(&m) <= maxk::<S>();
        if well {
            c.nontrivial = true;
            if let Ok(x) = &s {
                finite2(c, "solve", x)?;
            }
            if let Ok(x) = &st {
                finite2(c, "solve_tr", x)?;
            }
        }
        agree!("solve", s);
        agree!("solve_tr", st);
        agree!("solve_into", si);
        agree!("solve_tr_into", sti);
        if r == k {
            agree!("inverse", iv);
        }
        if well {
            let l = store_into!(c, &m, a => c.call("least_squares", n, || a.least_squares(&b))?);
            c.check("least_squares/well-conditioned", l.is_ok(), || {
                "least squares failed on a full-rank matrix".into()
            })?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C05
pub fn c05(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c05_t, k)
}
pub fn spd_case<S: Sc>(c: &mut Ctx, sc: Scale) -> Option<Mat<S>> {
    let n = c.dim();
    let kmax = (1e-3 / (n as f64 * S::EPS)).min(1e11);
    let m = spd_s::<S>(c, n, kmax, sc);
    if S::EPS > 1e-10 || n <= 12 {
        // rounding to the element type may have destroyed definiteness: measure it
        let k = cond(&m);
        if !(k <= kmax * 1.5) {
            c.ev("skipped: ill-conditioned");
            return None;
        }
    }
    c.nontrivial = true;
    Some(m)
}
pub fn c05_t<S: Sc>(c: &mut Ctx) -> R {
    let Some(m) = spd_case::<S>(c, Scale::Wide) else {
        return Ok(());
    };
    c05_on(c, &m)
}
pub fn c05_on<S: Sc>(c: &mut Ctx, m: &Mat<S>) -> R {
    let n = m.r;
    let which: Vec<usize> = if n <= 10 {
        (0..6).collect()
    } else {
        vec![c.rng.below(6), c.rng.below(6)]
    };
    let mut low: Option<Mat<S>> = None;
    for w in which {
        let (nm, clean, l) = match w {
            0 => (
                "cholesky",
                true,
                store_ref!(c, m, a => c.ok("cholesky", n, || a.cholesky())?),
            ),
            1 => (
                "cholesky_dirty",
                false,
                store_ref!(c, m, a => c.ok("cholesky_dirty", n, || a.cholesky_dirty())?),
            ),
            2 => (
                "cholesky_into",
                true,
                store_into!(c, m, a => c.ok("cholesky_into", n, || a.cholesky_into().map(|x| x.to_owned()))?),
            ),
            3 => (
                "cholesky_into_dirty",
                false,
                store_into!(c, m, a => c.ok("cholesky_into_dirty", n, || a.cholesky_into_dirty().map(|x| x.to_owned()))?),
            ),
            4 => (
                "cholesky_inplace",
                true,
                store_into!(c, m, a => { c.ok("cholesky_inplace", n, || a.cholesky_inplace().map(|_| ()))?; a.to_owned() }),
            ),
            _ => (
                "cholesky_inplace_dirty",
                false,
                store_into!(c, m, a => { c.ok("cholesky_inplace_dirty", n, || a.cholesky_inplace_dirty().map(|_| ()))?; a.to_owned() }),
            ),
        };
        c.ev(nm);
        chol_ok(c, nm, m, &l, clean)?;
        let me = Mat::from_fn(n, n, |i, j| if i >= j { l[(i, j)] } else { S::zero() });
        if let Some(p) = &low {
            // the same factor: L is unique, so variants may differ by rounding times conditioning only
            let e = -me.maxexp();
            let d = p.dm(e).sub(&me.dm(e)).fro();
            let k = if d > 0.0 { cond(m) } else { 1.0 };
            c.le(
                "variants agree",
                d,
                K_REC * S::EPS * dims(n, n) * k * me.dm(e).fro(),
            )?;
        }
        low = Some(me);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C06
pub fn c06(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c06_t, k)
}
/// what one of the Cholesky-based entry points did
fn chol_entry<S: Sc>(c: &mut Ctx, m: &Mat<S>, w: usize) -> R<(&'static str, LR<Array2<S>>)> {
    let n = m.r;
    let b = Mat::from_fn(n, 2, |i, j| S::of((i + j) as f64 + 1.0)).arr();
    Ok(match w {
        0 => (
            "cholesky",
            store_ref!(c, m, a => c.call("cholesky", n, || a.cholesky())?),
        ),
        1 => (
            "cholesky_dirty",
            store_ref!(c, m, a => c.call("cholesky_dirty", n, || a.cholesky_dirty())?),
        ),
        2 => (
            "cholesky_into",
            store_into!(c, m, a => c.call("cholesky_into", n, || a.cholesky_into().map(|x| x.to_owned()))?),
        ),
        3 => (
            "cholesky_into_dirty",
            store_into!(c, m, a => c.call("cholesky_into_dirty", n, || a.cholesky_into_dirty().map(|x| x.to_owned()))?),
        ),
        4 => (
            "cholesky_inplace",
            store_into!(c, m, a => c.call("cholesky_inplace", n, || a.cholesky_inplace().map(|x| x.to_owned()))?),
        ),
        5 => (
            "cholesky_inplace_dirty",
            store_into!(c, m, a => c.call("cholesky_inplace_dirty", n, || a.cholesky_inplace_dirty().map(|x| x.to_owned()))?),
        ),
        6 => (
            "solvec",
            store_into!(c, m, a => c.call("solvec", n, || a.solvec(&b))?),
        ),
        7 => (
            "solvec_into",
            store_into!(c, m, a => c.call("solvec_into", n, || a.solvec_into(b.clone()))?),
        ),
        8 => (
            "solvec_inplace",
            store_into!(c, m, a => { let mut b = b.clone(); c.call("solvec_inplace", n, || a.solvec_inplace(&mut b).map(|x| x.to_owned()))? }),
        ),
        9 => (
            "invc",
            store_ref!(c, m, a => c.call("invc", n, || a.invc())?),
        ),
        _ => (
            "invc_inplace",
            store_into!(c, m, a => c.call("invc_inplace", n, || a.invc_inplace())?),
        ),
    })
}
pub fn c06_t<S: Sc>(c: &mut Ctx) -> R {
    let n = 1 + {
        let b = if c.rng.chance(0.1) { 30 } else { 9 };
        c.rng.below(b)
    };
    let kind = c.rng.below(9);
    let p = c.rng.below(n);
    let mut must_reject = true;
    // integer unit lower triangular factor: every step below is exact in the element type
    let il = Mat::from_fn(n, n, |i, j| {
        if i == j {
            1.0
        } else if i > j && i - j <= 3 {
            c.rng.range(-1, 1) as f64
        } else {
            0.0
        }
    });
    let m: Mat<S>;
    match kind {
        0 | 1 => {
            // L D L^T with integer pivots, the p-th one zero or negative; later pivots arbitrary
            let d: Vec<f64> = (0..n)
                .map(|i| {
                    if i == p {
                        *c.rng.pick(&[0.0, -1.0, -4.0])
                    } else if i < p {
                        *c.rng.pick(&[1.0, 4.0, 16.0])
                    } else {
                        *c.rng.pick(&[1.0, 4.0, 0.0, -1.0])
                    }
                })
                .collect();
            let ld = Mat::from_fn(n, n, |i, j| il.at(i, j) * d[j]);
            c.class("nonpd:integer-LDLt");
            c.note(format!("LDLt pivots {d:?}"));
            let x = mul(&ld, &il.t());
            m = finish::<S>(c, x, true, Scale::One).map(|x| S::of(x.dd(0).to_f64().round()));
        }
        2 => {
            // SPD scaled, then one diagonal entry made zero or negative
            let mut x = spd_s::<S>(c, n, 1e3, Scale::Wide);
            let y = match c.rng.below(5) {
                0 => S::of(0.0),
                1 => S::of(-0.0),
                2 => -x.at(p, p),
                3 => -S::min_positive_value(),
                _ => -(x.at(p, p) * S::of(1e-5)),
            };
            x.set(p, p, y);
            c.class("nonpd:bad-diagonal");
            m = x;
        }
        3 => {
            // clearly indefinite spectrum
            let mut e = spectrum(&mut c.rng, n, false);
            let mx = e.iter().cloned().fold(0.0, f64::max).max(1e-300);
            e.iter_mut().for_each(|x| *x = (*x / mx).max(0.01));
            e[p] = -10f64.powf(-c.rng.f() * if S::EPS > 1e-10 { 2.0 } else { 8.0 });
            c.class("nonpd:indefinite");
            let x = from_eig(&mut c.rng, &e);
            m = finish::<S>(c, x, true, Scale::Wide);
        }
        4 => {
            // exactly singular Gram matrix of small integers with dependent leading columns
            let k = c.rng.below(n);
            let x = Mat::from_fn(n, n, |i, j| {
                (0..k).map(|t| il.at(i, t) * il.at(j, t)).sum::<f64>()
            });
            c.class("nonpd:singular-gram");
            m = x.map(|x| S::of(x));
        }
        5 | 6 => {
            // NaN on the diagonal or in the lower triangle
            let mut x = spd_s::<S>(c, n, 1e3, Scale::Mild);
            let (i, j) = if c.rng.chance(0.5) {
                (p, p)
            } else {
                let q = c.rng.below(n);
                (p.max(q), p.min(q))
            };
            x.set(i, j, S::nan());
            x.set(j, i, S::nan());
            c.note(format!("NaN at ({i},{j})"));
            c.class("nonpd:nan");
            m = x;
        }
        7 => {
            // infinities: rejected or not, but never a NaN result
            let mut x = spd_s::<S>(c, n, 1e3, Scale::Mild);
            let q = c.rng.below(n);
            let v = if c.rng.chance(0.5) {
                S::infinity()
            } else {
                S::neg_infinity()
            };
            x.set(p, q, v);
            x.set(q, p, v);
            must_reject = v < S::zero() && p == q;
            c.note(format!("{v} at ({p},{q})"));
            c.class("borderline:infinite");
            m = x;
        }
        _ => {
            // any symmetric matrix: no verdict on acceptance, but no NaN on success
            m = sym_s::<S>(c, n, Scale::Mild);
            let l = if m.is_zero() {
                vec![]
            } else {
                jacobi_eig(&m.dm(-m.maxexp())).0
            };
            must_reject = l.is_empty() || l[0].to_f64() < -1e3 * (n as f64) * S::EPS * n as f64;
            c.class(if must_reject {
                "nonpd:random"
            } else {
                "borderline:random"
            });
        }
    }
    c.mix(m.hash());
    c.nontrivial = true;
    for _ in 0..3 {
        let w = c.rng.below(11);
        let (nm, r) = chol_entry(c, &m, w)?;
        match r {
            Err(LinalgError::NotPositiveDefinite) => c.ev("rejected"),
            Err(e) => return c.viol(&format!("{nm}/wrong-error"), format!("{nm} returned {e:?}")),
            Ok(x) => {
                if must_reject {
                    return c.viol(
                        &format!("{nm}/accepted"),
                        format!(
                            "{nm} accepted a matrix that is not positive definite: {}",
                            m.show()
                        ),
                    );
                }
                c.ev("accepted (borderline)");
                // solutions and inverses may overflow if the pivots spread over too many orders of magnitude
                if w >= 6 && !moderate_pivots(&m) {
                    c.ev("solution may overflow: no verdict");
                    continue;
                }
                let nan = (0..n)
                    .any(|i| (0..x.ncols()).any(|j| (w >= 6 || j <= i) && x[(i, j)].is_nan()));
                c.check(&format!("{nm}/nan-success"), !nan, || {
                    format!("{nm} returned Ok with NaN: {}", m.show())
                })?;
            }
        }
    }
    Ok(())
}

/// all the squared Cholesky pivots lie within 2^-20 of the largest element, which is of moderate size
fn moderate_pivots<S: Sc>(m: &Mat<S>) -> bool {
    let n = m.r;
    let e = m.maxexp();
    if (0..n).any(|i| (0..n).any(|j| !m.at(i, j).is_finite())) {
        return true;
    }
    if e.abs() > 30 {
        return false;
    }
    let mut a = m.dm(-e);
    for k in 0..n {
        let p = a.at(k, k);
        if !(p.to_f64() >= 2f64.powi(-20)) {
            return false;
        }
        for i in k + 1..n {
            let f = a.at(i, k) / p;
            for j in k + 1..n {
                let v = a.at(i, j) - f * a.at(k, j);
                a.set(i, j, v);
            }
        }
    }
    true
}

// ------------------------------------------------------------------------------------------ C07
pub fn c07(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c07_t, k)
}
pub fn c07_t<S: Sc>(c: &mut Ctx) -> R {
    let Some(m) = spd_case::<S>(c, Scale::Wide) else {
        return Ok(());
    };
    c07_on(c, &m)
}
pub fn c07_on<S: Sc>(c: &mut Ctx, m: &Mat<S>) -> R {
    let n = m.r;
    let o = or(m);
    let kc = rhs_count(c, n, &[0, 1, 1, 2, 4, 7]);
    let mut b = rhs::<S>(c, n, kc, m.maxexp());
    hit_range(c, &o.a, o.e, &mut b);
    let eye = Mat::from_fn(n, n, |i, j| S::of((i == j) as u8 as f64));
    let inv_ok = m.maxexp().abs() < (S::HI as f64 * 3.0) as i32;
    let what = c.rng.below(5);
    match what {
        0 => {
            c.ev("solvec");
            let (x, f) = store_into!(c, m, a => { let x = store_ref!(c, &b, bb => c.ok("solvec", n, || a.solvec(bb))?); (x, a.to_owned()) });
            solve_ok(c, "solvec", &o, &x, &b)?;
            chol_ok(c, "solvec: matrix left behind", m, &f, false)?;
        }
        1 => {
            c.ev("solvec_into");
            let (bl, _) = rand_layout(&b, &mut c.rng);
            let (x, f) = store_into!(c, m, a => { let x = c.ok("solvec_into", n, || a.solvec_into(bl))?; (x, a.to_owned()) });
            solve_ok(c, "solvec_into", &o, &x, &b)?;
            chol_ok(c, "solvec_into: matrix left behind", m, &f, false)?;
        }
        2 => {
            c.ev("solvec_inplace");
            let (mut bl, _) = rand_layout(&b, &mut c.rng);
            let f = store_into!(c, m, a => { c.ok("solvec_inplace", n, || a.solvec_inplace(&mut bl).map(|_| ()))?; a.to_owned() });
            solve_ok(c, "solvec_inplace", &o, &bl, &b)?;
            chol_ok(c, "solvec_inplace: matrix left behind", m, &f, false)?;
        }
        3 => {
            c.ev("invc");
            let (a, _) = rand_layout(m, &mut c.rng);
            let keep = a.clone();
            let x = c.ok("invc", n, || a.invc())?;
            c.check("invc/input-modified", same_bits(&a, &keep), || {
                "invc modified its input".into()
            })?;
            if inv_ok {
                solve_ok(c, "invc", &o, &x, &eye)?;
            }
        }
        _ => {
            c.ev("invc_inplace");
            let (x, f) = store_into!(c, m, a => { let x = c.ok("invc_inplace", n, || a.invc_inplace())?; (x, a.to_owned()) });
            if inv_ok {
                solve_ok(c, "invc_inplace", &o, &x, &eye)?;
            }
            chol_ok(c, "invc_inplace: matrix left behind", m, &f, false)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C08
pub fn c08(c: &mut Ctx) -> R {
    match c.rng.below(6) {
        0 => tri_case::<i32>(c, |r| r.range(-3, 3) as i32, |x| *x as i64 as u64),
        1 => tri_case::<u8>(c, |r| r.below(3) as u8, |x| *x as u64),
        2 => tri_case::<f32>(c, |r| special(r) as f32, |x| x.to_bits() as u64),
        3 => tri_case::<i64>(
            c,
            |r| if r.chance(0.5) { 0 } else { r.u64() as i64 },
            |x| *x as u64,
        ),
        _ => tri_case::<f64>(c, special, |x| x.to_bits()),
    }
}
pub fn special(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.0,
        4 => -0.0,
        5 => 5e-324,
        6 => -1e-300,
        7 => f64::MAX,
        8 => 1e-40,
        _ => r.sf(),
    }
}
fn tri_case<T: Copy + num_traits::Zero + std::fmt::Debug + PartialEq + Send + 'static>(
    c: &mut Ctx,
    g: fn(&mut Rng) -> T,
    bits: fn(&T) -> u64,
) -> R {
    let top = match c.rng.below(1000) {
        0..=2 if !cfg!(miri) => 140,
        3..=80 => 50,
        _ => 14,
    };
    let n = c.rng.below(top);
    let k = if c.rng.chance(0.2) {
        c.rng.below(top)
    } else {
        n
    };
    let pz = *c.rng.pick(&[0.0, 0.2, 1.0]);
    let shape = c.rng.below(4); // fully random, upper only, lower only, one offending entry
    let (oi, oj) = (c.rng.below(n.max(1)), c.rng.below(k.max(1)));
    let neg_zero_ok = g;
    let m = Mat::from_fn(n, k, |i, j| {
        let keep = match shape {
            0 => true,
            1 => i <= j,
            2 => i >= j,
            _ => i <= j || (i, j) == (oi, oj),
        };
        if !keep {
            // zeros, sometimes negative zeros where the type has them
            let mut z = T::zero();
            for _ in 0..6 {
                let x = neg_zero_ok(&mut c.rng);
                if x.is_zero() {
                    z = x;
                    break;
                }
            }
            z
        } else if c.rng.chance(pz) {
            T::zero()
        } else {
            g(&mut c.rng)
        }
    });
    for x in &m.d {
        c.mix(bits(x));
    }
    c.mix((n * 64 + k) as u64);
    c.nontrivial = n > 1 && n == k;
    let fill = g(&mut c.rng);
    let lay = *c.rng.pick(LAYOUTS);
    c.class(&format!("layout:{lay}"));
    c.class(std::any::type_name::<T>());
    c.note(format!(
        "{n}x{k} {} {lay} shape{shape} {:?}",
        std::any::type_name::<T>(),
        if n * k <= 16 { Some(&m.d) } else { None }
    ));
    let mut a = layout(&m, lay, fill);
    for uplo in [UPLO::Upper, UPLO::Lower] {
        let off = |i: usize, j: usize| if uplo == UPLO::Upper { i > j } else { i < j };
        // test
        let want = n == k && (0..n).all(|i| (0..k).all(|j| !off(i, j) || m.at(i, j).is_zero()));
        let got = c.call("is_triangular", n, || a.is_triangular(uplo))?;
        c.ev(if want {
            "is_triangular: true"
        } else {
            "is_triangular: false"
        });
        c.check("is_triangular", got == want, || {
            format!("is_triangular({uplo:?}) = {got}, expected {want}")
        })?;
        let got = c.call("is_triangular", n, || {
            a.view()
                .reversed_axes()
                .is_triangular(if uplo == UPLO::Upper {
                    UPLO::Lower
                } else {
                    UPLO::Upper
                })
        })?;
        c.check("is_triangular", got == want, || {
            format!("transposed is_triangular({uplo:?}) = {got}, expected {want}")
        })?;
        // extraction
        let by_value = c.rng.chance(0.5);
        let r = if by_value {
            let b = layout(&m, lay, fill);
            c.call("into_triangular", n, || b.into_triangular(uplo))?
        } else {
            let mut b = layout(&m, lay, fill);
            c.call("triangular_inplace", n, || {
                b.triangular_inplace(uplo).map(|_| ())
            })?
            .map(|_| b)
        };
        match r {
            Ok(b) => {
                if n != k {
                    return c.viol(
                        "extraction/accepted-non-square",
                        format!("{n}x{k} accepted"),
                    );
                }
                for i in 0..n {
                    for j in 0..n {
                        let x = b[(i, j)];
                        if off(i, j) {
                            c.check("extraction/not-zeroed", x.is_zero(), || {
                                format!("{uplo:?}: entry ({i},{j}) = {x:?}")
                            })?;
                        } else {
                            c.check("extraction/changed", bits(&x) == bits(&m.at(i, j)), || {
                                format!(
                                    "{uplo:?}: entry ({i},{j}) changed from {:?} to {x:?}",
                                    m.at(i, j)
                                )
                            })?;
                        }
                    }
                }
                c.ev("extracted");
            }
            Err(LinalgError::NotSquare { .. }) if n != k => c.ev("rejected non-square"),
            Err(e) => return c.viol("extraction/error", format!("{e:?}")),
        }
    }
    // sanity: the source used for the query was not modified
    let same = (0..n).all(|i| (0..k).all(|j| bits(&a[(i, j)]) == bits(&m.at(i, j))));
    c.check("is_triangular/modified", same, || {
        "query modified the matrix".into()
    })?;
    if n > 0 && k > 0 {
        a[(0, 0)] = fill;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C09
pub fn c09(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c09_t, k)
}
pub fn c09_t<S: Sc>(c: &mut Ctx) -> R {
    if c.rng.chance(0.08) {
        return c09_exact::<S>(c);
    }
    let n = c.dim();
    let n = if c.rng.chance(0.02) { 0 } else { n };
    let mut m = rect_s::<S>(c, n, n, Scale::Wide);
    let strong = c.rng.chance(0.6);
    let ex = m.maxexp();
    for i in 0..n {
        if m.at(i, i).is_zero() || c.rng.chance(0.05) {
            m.set(
                i,
                i,
                S::of(crate::dd::ldexp(c.rng.sign() * (0.1 + c.rng.f()), ex)),
            );
        }
        if strong {
            // dominant diagonal avoids exponential growth of the solution
            let s = c.rng.sign() * (1.0 + c.rng.f()) * n as f64;
            m.set(i, i, S::of(crate::dd::ldexp(s, ex)));
        }
    }
    c.mix(m.hash());
    c.nontrivial = n > 1;
    let kc = rhs_count(c, n, &[0, 1, 1, 2, 3, 6]);
    let b = rhs::<S>(c, n, kc, ex);
    c09_on(c, &m, &b)
}
/// Systems of small integers with powers of two on the diagonal, whose rows and columns are scaled by
/// powers of two up to the ends of the range: every operation of a substitution is exact there, also
/// on subnormal numbers, so the solution is exact.
fn c09_exact<S: Sc>(c: &mut Ctx) -> R {
    use crate::dd::ldexp;
    let n = 1 + c.rng.below(8);
    let kc = 1 + c.rng.below(9);
    let upper = c.rng.chance(0.5);
    // exponents of the smallest positive and the largest number (two numbers make up the wide ones)
    let (lo, hi) = if S::EPS > 1e-10 {
        (-149, 127)
    } else if S::EPS > 1e-20 {
        (-1074, 1023)
    } else {
        (-900, 1000)
    };
    let x0: Vec<f64> = (0..n * kc).map(|_| c.rng.range(-3, 3) as f64).collect();
    let t0 = Dm::from_fn(n, n, |i, j| {
        DD::f(if i == j {
            c.rng.sign() * *c.rng.pick(&[1.0, 1.0, 2.0, 4.0])
        } else if (i < j) == upper {
            if c.rng.chance(0.3) {
                0.0
            } else {
                c.rng.range(-3, 3) as f64
            }
        } else {
            0.0
        })
    });
    // columns are scaled by 2^q, rows by 2^p: entries 2^(p+q) * {0..4}, b 2^p * (up to 4*3*8 = 2^7)
    let wild = c.rng.chance(0.5);
    let q: Vec<i32> = (0..n)
        .map(|_| if wild { c.rng.range(-20, 20) as i32 } else { 0 })
        .collect();
    let (qa, qb) = (*q.iter().min().unwrap(), *q.iter().max().unwrap());
    let p: Vec<i32> = {
        let base = c.rng.below(4);
        (0..n)
            .map(|_| {
                // lowest and highest exponents at which everything in the row is exact
                let (a, b) = (lo - qa.min(0), hi - 9 - qb.max(0));
                match base {
                    0 => a,
                    1 => b,
                    2 => a + c.rng.below(12) as i32,
                    _ => c.rng.range(a as i64, b as i64) as i32,
                }
            })
            .collect()
    };
    // the right-hand side and the solution of a column may be scaled as a whole
    let m = Mat::from_fn(n, n, |i, j| {
        let junk = (i > j) == upper && i != j;
        S::of(if junk {
            f64::NAN
        } else {
            ldexp(t0.at(i, j).to_f64(), p[i] + q[j])
        })
    });
    let b = Mat::from_fn(n, kc, |i, l| {
        let s: f64 = (0..n).map(|j| t0.at(i, j).to_f64() * x0[j * kc + l]).sum();
        S::of(ldexp(s, p[i]))
    });
    c.mix(m.hash());
    c.mix(b.hash());
    c.nontrivial = n > 1;
    c.class("exact system at the ends of the range");
    let uplo = if upper { UPLO::Upper } else { UPLO::Lower };
    c.note(format!("exact {n}x{n} {uplo:?} k={kc} p={p:?} q={q:?} {}", S::NAME));
    let (a, _) = rand_layout(&m, &mut c.rng);
    let (bl, _) = rand_layout(&b, &mut c.rng);
    let x = if c.rng.chance(0.5) {
        c.ok("solve_triangular", n, || a.solve_triangular(&bl, uplo))?
    } else {
        c.ok("solve_triangular_into", n, || a.solve_triangular_into(bl, uplo))?
    };
    shape_is(c, "triangular solve", &x, n, kc)?;
    for l in 0..kc {
        for j in 0..n {
            let got = x[(j, l)].dd(q[j]).to_f64();
            let want = x0[j * kc + l];
            c.check("exactly solvable system", (got - want).abs() <= 1e-3, || {
                format!("x[{j},{l}] * 2^{} is {got:e}, the solution is {want}", q[j])
            })?;
        }
    }
    c.ev_n("exact columns at the ends of the range", kc as u64);
    Ok(())
}
pub fn c09_on<S: Sc>(c: &mut Ctx, m: &Mat<S>, b: &Mat<S>) -> R {
    let (n, kc) = (m.r, b.c);
    let uplo = if c.rng.chance(0.5) {
        UPLO::Upper
    } else {
        UPLO::Lower
    };
    let on = |i: usize, j: usize| if uplo == UPLO::Upper { i <= j } else { i >= j };
    let (a, la) = rand_layout(m, &mut c.rng);
    let (bl, lb) = rand_layout(b, &mut c.rng);
    c.class(&format!("layout:{la}"));
    c.note(format!("{uplo:?} {la}/{lb} k={kc}"));
    let e = -m.maxexp();
    let x = match c.rng.below(3) {
        0 => {
            c.ev("solve_triangular");
            c.ok("solve_triangular", n, || a.solve_triangular(&bl, uplo))?
        }
        1 => {
            c.ev("solve_triangular_into");
            let b2 = layout(b, lb, S::nan());
            c.ok("solve_triangular_into", n, || {
                a.view().solve_triangular_into(b2, uplo)
            })?
        }
        _ => {
            c.ev("solve_triangular_inplace");
            let mut b2 = layout(b, lb, S::nan());
            {
                let mut v = b2.view_mut();
                c.ok("solve_triangular_inplace", n, || {
                    a.solve_triangular_inplace(&mut v, uplo).map(|_| ())
                })?;
            }
            b2
        }
    };
    shape_is(c, "triangular solve", &x, n, kc)?;
    // the opposite triangle is never consulted
    let junk = *c.rng.pick(&[f64::NAN, f64::INFINITY, 1e30, 0.0]);
    let pm = Mat::from_fn(n, n, |i, j| if on(i, j) { m.at(i, j) } else { S::of(junk) });
    let pa = layout(&pm, la, S::nan());
    let xp = c.ok("solve_triangular", n, || pa.solve_triangular(&bl, uplo))?;
    c.check("opposite-triangle-read", same_bits(&x, &xp), || {
        format!("result changed when the opposite triangle was filled with {junk}")
    })?;
    c.ev("opposite triangle poisoned");
    if !all_finite(&x) {
        // legitimate overflow of the exponentially growing solution: compare with a wide-range reference
        c.ev("overflowed (no accuracy verdict)");
        return Ok(());
    }
    let t = Dm::from_fn(n, n, |i, j| {
        if on(i, j) {
            m.at(i, j).dd(e)
        } else {
            crate::dd::DD::ZERO
        }
    });
    for j in 0..kc {
        let xe = (0..n)
            .map(|i| x[(i, j)].dd(0).to_f64().abs())
            .fold(0.0, f64::max);
        if xe == 0.0 {
            let bz = (0..n).all(|i| b.at(i, j).is_zero());
            c.check("zero solution", bz, || {
                "zero solution for non-zero right-hand side".into()
            })?;
            continue;
        }
        let ex = -crate::dd::exponent(xe);
        // exponents such that nothing of relevance underflows; skip columns that span too much
        let lo = (0..n)
            .map(|i| x[(i, j)].dd(0).to_f64().abs())
            .filter(|v| *v > 0.0)
            .fold(f64::INFINITY, f64::min);
        let minpos = S::min_positive_value().dd(0).to_f64();
        let tmin =
            t.d.iter()
                .map(|v| v.to_f64().abs())
                .filter(|v| *v > 0.0)
                .fold(f64::INFINITY, f64::min);
        // double-double numbers keep their precision only well inside the range of f64
        let narrow = S::EPS < 1e-20 && (xe > 1e130 || lo < 1e-130);
        if narrow
            || crate::dd::ldexp(lo, ex) * tmin < 1e-240
            || lo < minpos / S::EPS * 4.0
            || lo * crate::dd::ldexp(tmin, -e) < minpos / S::EPS * 4.0
            || crate::dd::ldexp(tmin, -e) < minpos
        {
            c.ev("column skipped: underflow range");
            continue;
        }
        // magnitude of partial sums |T||x| must stay representable
        let mut worst = 0.0f64;
        for i in 0..n {
            let mut s = crate::dd::DD::ZERO;
            let mut ab = 0.0f64;
            for k in 0..n {
                let p = t.at(i, k) * x[(k, j)].dd(ex);
                s = s + p;
                ab += p.to_f64().abs();
            }
            let r = (s - b.at(i, j).dd(ex + e)).to_f64().abs();
            if ab == 0.0 {
                if r != 0.0 {
                    worst = f64::INFINITY;
                }
                continue;
            }
            // products and quotients may underflow
            let tii = t.at(i, i).to_f64().abs();
            let under = crate::dd::ldexp(minpos * n as f64, e + ex)
                + crate::dd::ldexp(minpos, ex) * tii;
            worst = worst.max((r - under).max(0.0) / ab);
        }
        c.le(
            "componentwise |Tx-b| <= eps |T||x|",
            worst,
            8.0 * S::EPS * (n as f64 + 2.0),
        )?;
        c.ev("columns verified componentwise");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C10
pub fn c10(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c10_t, k)
}
pub fn c10_t<S: Sc>(c: &mut Ctx) -> R {
    let n = c.dim();
    let m = sym_s::<S>(c, n, Scale::Wide);
    c.nontrivial = n > 1 && !m.is_zero();
    c10_on(c, &m)
}
pub fn c10_on<S: Sc>(c: &mut Ctx, m: &Mat<S>) -> R {
    let n = m.r;
    let o = or(m);
    let (q, t, d, off) = store_into!(c, m, a => {
        let dec = c.ok("sym_tridiagonal", n, || a.sym_tridiagonal())?;
        let q = c.call("generate_q", n, || dec.generate_q())?;
        // decomposition objects are not clonable for every storage: recompute for the second accessor
        let t = c.call("into_tridiag_matrix", n, || dec.into_tridiag_matrix().to_owned())?;
        let a2 = m.arr();
        let dec2 = c.ok("sym_tridiagonal", n, || a2.sym_tridiagonal())?;
        let t2 = c.call("into_tridiag_matrix", n, || dec2.clone().into_tridiag_matrix())?;
        let q2 = c.call("generate_q", n, || dec2.generate_q())?;
        let (d, off) = c.call("into_diagonals", n, || dec2.into_diagonals())?;
        let (q, t) = if same_bits(&t, &t2) && same_bits(&q, &q2) { (q, t) } else {
            // layouts round differently: both must be valid on their own
            let dd: Array1<S> = (0..n).map(|i| t[(i, i)]).collect();
            let oo: Array1<S> = (1..n).map(|i| t[(i, i - 1)]).collect();
            tridiag_ok(c, &o, &q, &t, &dd, &oo)?;
            (q2, t2)
        };
        (q, t, d, off)
    });
    tridiag_ok(c, &o, &q, &t, &d, &off)
}

// ------------------------------------------------------------------------------------------ C11
pub fn c11(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c11_t, k)
}
pub fn c11_t<S: Sc>(c: &mut Ctx) -> R {
    let (r, k) = any_shape(c);
    let m = rect_s::<S>(c, r, k, Scale::Wide);
    c.nontrivial = r.min(k) > 1 && !m.is_zero();
    c11_on(c, &m)
}
pub fn c11_on<S: Sc>(c: &mut Ctx, m: &Mat<S>) -> R {
    let n = m.r.max(m.c);
    let o = or(m);
    let (up, u, vt, b, d, off) = store_into!(c, m, a => {
        let dec = c.ok("bidiagonal", n, || a.bidiagonal())?;
        let up = c.call("is_upper_diag", n, || dec.is_upper_diag())?;
        let vt = c.call("generate_vt", n, || dec.generate_vt())?;
        let u = c.call("generate_u", n, || dec.generate_u())?;
        let b = c.call("into_b", n, || dec.into_b())?;
        let dec2 = { let a2 = m.arr(); c.ok("bidiagonal", n, || a2.bidiagonal())? };
        let b2 = c.call("into_b", n, || dec2.clone().into_b())?;
        if same_bits(&b, &b2) {
            let (d, off) = c.call("into_diagonals", n, || dec2.into_diagonals())?;
            (up, u, vt, b, d, off)
        } else {
            let k = b.nrows();
            let dd: Array1<S> = (0..k).map(|i| b[(i, i)]).collect();
            let oo: Array1<S> = (1..k).map(|i| if up { b[(i - 1, i)] } else { b[(i, i - 1)] }).collect();
            bidiag_ok(c, &o, up, &u, &b, &vt, &dd, &oo)?;
            let up = dec2.is_upper_diag();
            let (u, vt) = (c.call("generate_u", n, || dec2.generate_u())?, c.call("generate_vt", n, || dec2.generate_vt())?);
            let (d, off) = c.call("into_diagonals", n, || dec2.into_diagonals())?;
            (up, u, vt, b2, d, off)
        }
    });
    bidiag_ok(c, &o, up, &u, &b, &vt, &d, &off)
}
