//! C12-C16: symmetric eigendecomposition, SVD, their options, scaling and work bounds.
use crate::cnt;
use crate::ctx::*;
use crate::dd::{ldexp, mul2, DD};
use crate::gen::*;
use crate::mat::*;
use crate::oracle::*;
use crate::sc::Sc;
use crate::{by_scalar, store_into, store_ref};
use linfa_linalg::bidiagonal::*;
use linfa_linalg::cholesky::*;
use linfa_linalg::eigh::*;
use linfa_linalg::qr::*;
use linfa_linalg::svd::*;
use linfa_linalg::tridiagonal::*;
use ndarray::Array1;

// ------------------------------------------------------------------------------------------ C12
pub fn c12(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c12_t, k)
}
pub fn c12_t<S: Sc>(c: &mut Ctx) -> R {
    let n = c.dim();
    let m = sym_s::<S>(c, n, Scale::Wide);
    c.nontrivial = n > 1 && !m.is_zero();
    c12_on(c, &m)
}
pub fn c12_on<S: Sc>(c: &mut Ctx, m: &Mat<S>) -> R {
    let n = m.r;
    let o = or(m);
    let (vals, vecs) = if c.rng.chance(0.5) {
        c.ev("eigh");
        store_ref!(c, m, a => c.ok("eigh", n, || a.eigh())?)
    } else {
        c.ev("eigh_into");
        store_into!(c, m, a => c.ok("eigh_into", n, || a.eigh_into())?)
    };
    eig_ok(c, &o, &vals, &vecs)
}

// ------------------------------------------------------------------------------------------ C13
pub fn c13(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c13_t, k)
}
pub fn c13_t<S: Sc>(c: &mut Ctx) -> R {
    let (r, k) = any_shape(c);
    let m = rect_s::<S>(c, r, k, Scale::Wide);
    c.nontrivial = r.min(k) > 1 && !m.is_zero();
    c13_on(c, &m)
}
pub fn c13_on<S: Sc>(c: &mut Ctx, m: &Mat<S>) -> R {
    let n = m.r.max(m.c);
    let o = or(m);
    let (u, s, vt) = if c.rng.chance(0.5) {
        c.ev("svd");
        store_ref!(c, m, a => c.ok("svd", n, || a.svd(true, true))?)
    } else {
        c.ev("svd_into");
        store_into!(c, m, a => c.ok("svd_into", n, || a.svd_into(true, true))?)
    };
    let (Some(u), Some(vt)) = (u, vt) else {
        return c.viol(
            "svd/factor-missing",
            "svd(true, true) did not return both factors",
        );
    };
    svd_ok(c, &o, &u, &s, &vt)
}

// ------------------------------------------------------------------------------------------ C14
pub fn c14(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c14_t, k)
}
fn sorted<S: Sc>(v: &Array1<S>, e: i32) -> Vec<DD> {
    let mut x = dv(v, e);
    x.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    x
}
pub fn multiset_close<S: Sc>(
    c: &mut Ctx,
    what: &str,
    a: &Array1<S>,
    b: &Array1<S>,
    e: i32,
    norm: f64,
    n: f64,
    k: f64,
) -> R {
    if a.len() != b.len() {
        return c.viol(
            &format!("{what}/count"),
            format!("{} values against {}", a.len(), b.len()),
        );
    }
    if !all_finite(a) || !all_finite(b) {
        return c.viol(&format!("{what}/non-finite"), format!("{a:?} {b:?}"));
    }
    let (x, y) = (sorted(a, e), sorted(b, e));
    let d = x
        .iter()
        .zip(&y)
        .map(|(p, q)| (*p - *q).to_f64().abs())
        .fold(0.0, f64::max);
    c.le(what, d, k * S::EPS * n * norm)
}
pub fn c14_t<S: Sc>(c: &mut Ctx) -> R {
    if c.rng.chance(0.4) {
        let n = c.dim();
        let m = sym_s::<S>(c, n, Scale::Wide);
        c.nontrivial = n > 1 && !m.is_zero();
        c14_eig(c, &m)
    } else {
        let (r, k) = any_shape(c);
        let m = rect_s::<S>(c, r, k, Scale::Wide);
        c.nontrivial = r.min(k) > 1 && !m.is_zero();
        c14_svd(c, &m)
    }
}
pub fn c14_eig<S: Sc>(c: &mut Ctx, m: &Mat<S>) -> R {
    let n = m.r;
    let o = or(m);
    let (v1, _) = c.ok("eigh", n, || m.arr().eigh())?;
    let v2 = if c.rng.chance(0.5) {
        c.ev("eigvalsh");
        store_ref!(c, m, a => c.ok("eigvalsh", n, || a.eigvalsh())?)
    } else {
        c.ev("eigvalsh_into");
        store_into!(c, m, a => c.ok("eigvalsh_into", n, || a.eigvalsh_into())?)
    };
    multiset_close(
        c,
        "eigvalsh = eigh values",
        &v1,
        &v2,
        o.e,
        o.n,
        dims(n, n),
        K_EIG,
    )
}
pub fn c14_svd<S: Sc>(c: &mut Ctx, m: &Mat<S>) -> R {
    let n = m.r.max(m.c);
    let o = or(m);
    let (_, s0, _) = c.ok("svd", n, || m.arr().svd(true, true))?;
    svals_ok(c, m.r.min(m.c), &s0)?;
    for (wu, wv) in [(false, false), (true, false), (false, true)] {
        c.ev(&format!("svd({wu},{wv})"));
        let (u, s, vt) = if c.rng.chance(0.5) {
            store_ref!(c, m, a => c.ok("svd", n, || a.svd(wu, wv))?)
        } else {
            store_into!(c, m, a => c.ok("svd_into", n, || a.svd_into(wu, wv))?)
        };
        if u.is_some() != wu || vt.is_some() != wv {
            return c.viol(
                "svd/factors-returned",
                format!(
                    "svd({wu},{wv}) returned u: {}, vt: {}",
                    u.is_some(),
                    vt.is_some()
                ),
            );
        }
        svals_ok(c, m.r.min(m.c), &s)?;
        multiset_close(
            c,
            "singular values independent of options",
            &s0,
            &s,
            o.e,
            o.n,
            dims(m.r, m.c),
            K_SVD,
        )?;
        if let Some(u) = u {
            single_factor_ok(c, "U alone", &o, &dm(&u, 0), &s, true)?;
        }
        if let Some(vt) = vt {
            single_factor_ok(c, "Vt alone", &o, &dm(&vt, 0).t(), &s, false)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C15
pub fn c15(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c15_t, k)
}
/// admissible exponents k such that all entries of 2^k m stay normal and the norm stays finite
fn exp_range<S: Sc>(m: &Mat<S>) -> Option<(i32, i32)> {
    let mut mn = i32::MAX;
    for x in &m.d {
        let v = x.dd(0).to_f64().abs();
        if v > 0.0 {
            mn = mn.min(crate::dd::exponent(v));
        }
    }
    if mn == i32::MAX {
        return None;
    }
    let mut emin = crate::dd::exponent(S::min_positive_value().dd(0).to_f64());
    let mut emax = crate::dd::exponent(S::max_value().dd(0).to_f64());
    if S::EPS < 1e-20 {
        // double-double numbers keep their precision only well inside the range of f64
        (emin, emax) = (-400, 400);
    }
    // singular values are at most the Frobenius norm <= sqrt(r c) max
    let g = ((m.r * m.c) as f64).sqrt().log2().ceil() as i32 + 2;
    let lo = emin - mn + 1;
    let hi = emax - m.maxexp() - g;
    if lo <= hi {
        Some((lo, hi))
    } else {
        None
    }
}
fn scaled<S: Sc>(m: &Mat<S>, k: i32) -> Mat<S> {
    m.map(|x| {
        let d = mul2(x.dd(0), k);
        S::of(d.hi) + S::of(d.lo)
    })
}
fn pick_exp(c: &mut Ctx, lo: i32, hi: i32) -> i32 {
    match c.rng.below(5) {
        0 => lo + c.rng.below(6) as i32,
        1 => hi - c.rng.below(6) as i32,
        2 => (lo / 2) + c.rng.range(-8, 8) as i32,
        3 => (hi / 2) + c.rng.range(-8, 8) as i32,
        _ => c.rng.range(lo as i64, hi as i64) as i32,
    }
    .clamp(lo, hi)
}
pub fn c15_t<S: Sc>(c: &mut Ctx) -> R {
    let slack_rel = |e: i32| {
        // spacing of subnormals, in oracle units
        8.0 * ldexp(S::min_positive_value().dd(0).to_f64() * S::EPS, e.min(1000))
    };
    if c.rng.chance(0.5) {
        let n = c.dim().min(40);
        let m = sym_s::<S>(c, n, Scale::One);
        let Some((lo, hi)) = exp_range(&m) else {
            c.ev("skipped: no normal scaling");
            return Ok(());
        };
        let k0 = 0.clamp(lo, hi);
        let k = pick_exp(c, lo, hi);
        c.note(format!("2^{k}"));
        let (a, b) = (scaled(&m, k0), scaled(&m, k));
        c.mix(b.hash());
        c.nontrivial = n > 1;
        let (oa, ob) = (or(&a), or(&b));
        let (v1, w1) = c.ok("eigh", n, || a.arr().eigh())?;
        let (v2, w2) = store_into!(c, &b, x => c.ok("eigh_into", n, || x.eigh_into())?);
        let v3 = store_ref!(c, &b, x => c.ok("eigvalsh", n, || x.eigvalsh())?);
        eig_ok(c, &oa, &v1, &w1)?;
        eig_ok(c, &ob, &v2, &w2)?;
        finite1(c, "eigvalsh", &v3)?;
        let (x, y, z) = (sorted(&v1, oa.e), sorted(&v2, ob.e), sorted(&v3, ob.e));
        let d = (0..n)
            .map(|i| {
                (x[i] - y[i])
                    .to_f64()
                    .abs()
                    .max((x[i] - z[i]).to_f64().abs())
            })
            .fold(0.0, f64::max);
        c.ev(if k > 0 { "scaled up" } else { "scaled down" });
        c.le(
            "eigenvalues scale",
            d,
            K_EIG * S::EPS * dims(n, n) * oa.n + slack_rel(ob.e),
        )?;
    } else {
        let (r, n) = any_shape(c);
        let (r, n) = (r.min(40), n.min(40));
        let m = rect_s::<S>(c, r, n, Scale::One);
        let Some((lo, hi)) = exp_range(&m) else {
            c.ev("skipped: no normal scaling");
            return Ok(());
        };
        let k0 = 0.clamp(lo, hi);
        let k = pick_exp(c, lo, hi);
        c.note(format!("2^{k}"));
        let (a, b) = (scaled(&m, k0), scaled(&m, k));
        c.mix(b.hash());
        c.nontrivial = r.min(n) > 1;
        let (oa, ob) = (or(&a), or(&b));
        let big = r.max(n);
        let (_, s1, _) = c.ok("svd", big, || a.arr().svd(true, true))?;
        let (u, s2, vt) =
            store_into!(c, &b, x => c.ok("svd_into", big, || x.svd_into(true, true))?);
        let (_, s3, _) = store_ref!(c, &b, x => c.ok("svd", big, || x.svd(false, false))?);
        svals_ok(c, r.min(n), &s1)?;
        svals_ok(c, r.min(n), &s3)?;
        let (Some(u), Some(vt)) = (u, vt) else {
            return c.viol("svd/factor-missing", "factor missing");
        };
        svd_ok(c, &ob, &u, &s2, &vt)?;
        let (x, y, z) = (sorted(&s1, oa.e), sorted(&s2, ob.e), sorted(&s3, ob.e));
        let d = (0..x.len())
            .map(|i| {
                (x[i] - y[i])
                    .to_f64()
                    .abs()
                    .max((x[i] - z[i]).to_f64().abs())
            })
            .fold(0.0, f64::max);
        c.ev(if k > 0 { "scaled up" } else { "scaled down" });
        c.le(
            "singular values scale",
            d,
            K_SVD * S::EPS * dims(r, n) * oa.n + slack_rel(ob.e),
        )?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C16
pub fn c16(c: &mut Ctx) -> R {
    let k = c.sk(&[(Sk::C64, 55), (Sk::C32, 45)]);
    #[cfg(feature = "iterative")]
    if c.rng.chance(0.12) {
        return super::iter::c16_lobpcg(c);
    }
    by_scalar!(c, c16_t, k)
}
/// scalar operations allowed: about ten times the worst ever observed on the unchanged tree
pub fn work_bound(r: usize, k: usize) -> u64 {
    let (m, n) = (r.max(k) as u64 + 2, r.min(k) as u64 + 2);
    3000 * m + 700 * m * n * n + 2000
}
pub fn poison<S: Sc>(c: &mut Ctx, m: &mut Mat<S>, symm: bool) {
    if m.d.is_empty() {
        return;
    }
    let cnt = 1 + c.rng.below(3);
    for _ in 0..cnt {
        let (i, j) = (c.rng.below(m.r), c.rng.below(m.c));
        let v = match c.rng.below(5) {
            0 => S::infinity(),
            1 => S::neg_infinity(),
            2 => S::max_value(),
            _ => S::nan(),
        };
        m.set(i, j, v);
        if symm {
            m.set(j, i, v);
        }
    }
}
pub fn c16_t<S: Sc>(c: &mut Ctx) -> R {
    let what = c.rng.below(8);
    let bad = c.rng.chance(0.35);
    let big = if c.thorough { 60 } else { 40 };
    let (r, k) = any_shape(c);
    let (r, k) = (r.min(big), k.min(big));
    let square = matches!(what, 0 | 1 | 5 | 6);
    let k = if square { r } else { k };
    let mut m = if what <= 1 || what == 5 {
        sym_s::<S>(c, r, Scale::Wide)
    } else if what == 6 {
        spd_s::<S>(c, r, 1e6, Scale::Wide)
    } else {
        rect_s::<S>(c, r, k, Scale::Wide)
    };
    if bad {
        poison(c, &mut m, square);
        c.class("values:non-finite");
    } else {
        c.class("values:finite");
    }
    c.mix(m.hash() ^ what as u64);
    c.nontrivial = r.min(k) > 1;
    let bound = work_bound(r, k);
    let a = m.arr();
    let nm = [
        "eigh",
        "eigvalsh",
        "svd",
        "svd values",
        "qr+solve",
        "tridiagonal",
        "cholesky",
        "bidiagonal",
    ][what];
    c.ev(nm);
    c.note(nm);
    cnt::reset(bound);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match what {
        0 => a.eigh().is_ok(),
        1 => a.eigvalsh().is_ok(),
        2 => a.svd(true, true).is_ok(),
        3 => a.svd(false, false).is_ok(),
        4 => {
            if r >= k {
                let b = ndarray::Array2::from_elem((r, 2), S::one());
                a.qr().and_then(|d| d.solve(&b)).is_ok()
            } else {
                let b = ndarray::Array2::from_elem((r, 2), S::one());
                a.clone().least_squares(&b).is_ok()
            }
        }
        5 => a.clone().sym_tridiagonal().map(|d| d.generate_q()).is_ok(),
        6 => a.invc().is_ok(),
        _ => a
            .clone()
            .bidiagonal()
            .map(|d| (d.generate_u(), d.generate_vt()))
            .is_ok(),
    }));
    let ops = cnt::ops();
    cnt::reset(u64::MAX);
    c.st.calls += 1;
    match res {
        Ok(ok) => {
            c.ev(if ok { "returned Ok" } else { "returned Err" });
            let b = if bad {
                "work (non-finite input)"
            } else {
                "work (finite input)"
            };
            c.le(&format!("{nm}: {b}"), ops as f64, bound as f64)?;
            // finite input must never fail to decompose
            c.check(
                &format!("{nm}/failed"),
                ok || bad || matches!(what, 4 | 6),
                || "error on finite input".into(),
            )
        }
        Err(p) => {
            if p.downcast_ref::<cnt::Budget>().is_some() {
                return c.viol(
                    &format!("{nm}/work"),
                    format!("{nm}: more than {bound} scalar operations: {}", m.show()),
                );
            }
            if bad {
                // a panic is a return, but not "with a value or an error"
                return c.viol(
                    &format!("{nm}/panic"),
                    format!(
                        "{nm} panicked: {} {}",
                        PANIC_MSG.with(|m| m.borrow().clone()),
                        m.show()
                    ),
                );
            }
            c.viol(
                &format!("{nm}/panic"),
                format!("{nm} panicked: {}", PANIC_MSG.with(|m| m.borrow().clone())),
            )
        }
    }
}
