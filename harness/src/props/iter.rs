//! C22-C26 and the iterative parts of C16 and C18: LOBPCG and the solvers built on it.
use super::spectral::poison;
use crate::by_scalar;
use crate::cnt;
use crate::ctx::*;
use crate::dd::DD;
use crate::gen;
use crate::mat::*;
use crate::oracle::*;
use crate::sc::Sc;
use linfa_linalg::lobpcg::*;
use linfa_linalg::LinalgError;
use ndarray::{Array1, Array2, ArrayView2, ArrayViewMut2, Axis};
use rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;
use std::cell::{Cell, RefCell};

type M = Mat<f64>;

/// A symmetric problem with known eigensystem (ascending).
pub struct Prob<S> {
    pub a: Mat<S>,
    pub q: M,
    pub ev: Vec<f64>,
    pub norm: f64,
}
fn build<S: Sc>(rng: &mut Rng, mut ev: Vec<f64>) -> Prob<S> {
    let n = ev.len();
    ev.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let diag = rng.chance(0.15);
    let q = if diag {
        let mut p: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut p);
        Mat::from_fn(n, n, |i, j| (p[j] == i) as u8 as f64)
    } else {
        gen::orthogonal(rng, n)
    };
    let mut a = Mat::from_fn(n, n, |_, _| 0.0);
    for i in 0..n {
        for j in i..n {
            let s: f64 = (0..n).map(|k| q.at(i, k) * ev[k] * q.at(j, k)).sum();
            a.set(i, j, s);
            a.set(j, i, s);
        }
    }
    let norm = ev.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    Prob {
        a: a.map(|x| S::of(x)),
        q,
        ev,
        norm,
    }
}
fn run_lobpcg<S: Sc>(
    c: &mut Ctx,
    a: &Array2<S>,
    x: Array2<S>,
    pre: Option<&Array2<S>>,
    y: Option<ArrayView2<S>>,
    tol: f32,
    maxiter: usize,
    order: Order,
    calls: &Cell<u64>,
) -> R<LobpcgResult<S>> {
    let n = x.nrows();
    c.call("lobpcg", 6 * n + 8, || {
        lobpcg(
            |v: ArrayView2<S>| {
                calls.set(calls.get() + 1);
                a.dot(&v)
            },
            x,
            |mut v: ArrayViewMut2<S>| {
                if let Some(p) = pre {
                    let w = p.dot(&v);
                    v.assign(&w);
                }
            },
            y,
            tol,
            maxiter,
            order,
        )
    })
}
fn result<S>(r: LobpcgResult<S>) -> (Option<LinalgError>, Option<Lobpcg<S>>) {
    match r {
        Ok(x) => (None, Some(x)),
        Err((e, x)) => (Some(e), x),
    }
}
fn rand_order(c: &mut Ctx) -> Order {
    if c.rng.chance(0.5) {
        c.class("order:largest");
        Order::Largest
    } else {
        c.class("order:smallest");
        Order::Smallest
    }
}
fn start<S: Sc>(c: &mut Ctx, n: usize, k: usize) -> Array2<S> {
    let pos = c.rng.chance(0.5);
    let v: Vec<S> = (0..n * k)
        .map(|_| S::of(if pos { c.rng.f() } else { c.rng.sf() }))
        .collect();
    let m = Mat { r: n, c: k, d: v };
    c.mix(m.hash());
    rand_layout(&m, &mut c.rng).0
}
/// SPD preconditioner of moderate condition
fn precond<S: Sc>(c: &mut Ctx, p: &Prob<S>) -> Option<Array2<S>> {
    let n = p.ev.len();
    match c.rng.below(6) {
        0 => {
            c.class("precond:scaled identity");
            let s = 10f64.powf(2.0 * c.rng.sf());
            Some(Mat::from_fn(n, n, |i, j| S::of(if i == j { s } else { 0.0 })).arr())
        }
        1 => {
            c.class("precond:diagonal");
            let d: Vec<f64> = (0..n).map(|_| 0.5 + 1.5 * c.rng.f()).collect();
            Some(Mat::from_fn(n, n, |i, j| S::of(if i == j { d[i] } else { 0.0 })).arr())
        }
        2 => {
            c.class("precond:spd");
            let e: Vec<f64> = (0..n).map(|_| 0.5 + 1.5 * c.rng.f()).collect();
            let m = gen::from_eig(&mut c.rng, &e);
            Some(m.map(|x| S::of(x)).arr())
        }
        _ => {
            c.class("precond:none");
            None
        }
    }
}

// ------------------------------------------------------------------------------------------ C22
pub fn c22(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c22_t, k)
}
/// everything that must hold of any returned iterate
#[allow(clippy::too_many_arguments)]
pub fn lob_ok<S: Sc>(
    c: &mut Ctx,
    p: &Prob<S>,
    k: usize,
    order: Order,
    r: &Lobpcg<S>,
    y: Option<&M>,
    cond2: Option<f64>,
) -> R {
    let n = p.ev.len();
    c.check(
        "lobpcg/count",
        r.eigvals.len() == k && r.rnorm.len() == k,
        || {
            format!(
                "{} eigenvalues, {} norms for k={k}",
                r.eigvals.len(),
                r.rnorm.len()
            )
        },
    )?;
    shape_is(c, "eigvecs", &r.eigvecs, n, k)?;
    finite1(c, "eigvals", &r.eigvals)?;
    finite2(c, "eigvecs", &r.eigvecs)?;
    let sorted = (1..k).all(|i| match order {
        Order::Largest => r.eigvals[i - 1] >= r.eigvals[i],
        Order::Smallest => r.eigvals[i - 1] <= r.eigvals[i],
    });
    c.check("lobpcg/order", sorted, || format!("{:?}", r.eigvals))?;
    let Some(cond2) = cond2 else {
        c.ev("structure of an exhausted iteration checked");
        return Ok(());
    };
    c.ev("regular iterates checked");
    let v = dm(&r.eigvecs, 0);
    let oe = v.orth_err();
    c.le(
        "lobpcg: orthonormal",
        oe,
        k_lob::<S>() * cond2 * S::EPS * dims(n, k),
    )?;
    // far from convergence nothing is close to singular
    let far = r.rnorm.iter().all(|x| x.dd(0).to_f64() > 1e-3 * p.norm);
    if far {
        c.le("lobpcg: orthonormal far from convergence", oe, 1e2 * K_FAR * cond2 * S::EPS * dims(n, k))?;
    }
    let a = p.a.dm(0);
    let l = dv(&r.eigvals, 0);
    let full = a.mul(&v).sub(&v.scale_cols(&l));
    // the residual of the constrained problem has no component in the space of the constraints
    let res = match y {
        Some(y) => project_out(&full, y),
        None => full.clone(),
    };
    let t = S::EPS * dims(n, n) * p.norm * cond2;
    let mut worst = 0.0f64;
    for i in 0..k {
        worst = worst.max((res.col_norm(i) - r.rnorm[i].dd(0).to_f64()).abs());
    }
    c.le("lobpcg: rnorm = |Ax-lx|", worst, 0.1 * k_res::<S>() * t)?;
    let worst_r = worst;
    let mut worst = 0.0f64;
    let mut out = 0.0f64;
    for i in 0..k {
        let li = l[i].to_f64();
        let d =
            p.ev.iter()
                .map(|e| (e - li).abs())
                .fold(f64::INFINITY, f64::min);
        worst = worst.max(d - full.col_norm(i));
        out = out.max(li - p.ev[n - 1]).max(p.ev[0] - li);
    }
    c.le(
        "lobpcg: eigenvalue within residual",
        worst.max(0.0),
        0.1 * k_res::<S>() * t,
    )?;
    if far {
        c.le("lobpcg: rnorm far from convergence", worst_r, K_FAR * t)?;
        c.le("lobpcg: inside spectrum far from convergence", out.max(0.0), K_FAR * t)?;
        c.ev("iterates far from convergence");
    }
    c.le("lobpcg: inside spectrum", out.max(0.0), k_res::<S>() * t)?;
    if let Some(y) = y {
        let yd = y.map(|x| DD::f(x));
        let yd = Dm {
            r: y.r,
            c: y.c,
            d: yd.d,
        };
        let ny = (0..y.c).map(|j| yd.col_norm(j)).fold(0.0, f64::max);
        // the projection solves with the Gram matrix of the constraints
        let (e, _) = jacobi_eig(&yd.t().mul(&yd));
        let ycond2 = e[e.len() - 1].to_f64() / e[0].to_f64();
        c.le(
            "lobpcg: orthogonal to constraints",
            yd.cross(&v),
            k_loby::<S>() * cond2 * ycond2 * S::EPS * dims(n, k) * ny,
        )?;
        if far {
            c.le(
                "lobpcg: orthogonal to constraints far from convergence",
                yd.cross(&v),
                1e2 * K_FAR * cond2 * ycond2 * S::EPS * dims(n, k) * ny,
            )?;
        }
    }
    Ok(())
}
const K_FAR: f64 = 1e3;
fn k_res<S: Sc>() -> f64 {
    if S::EPS > 1e-10 {
        1e4
    } else {
        1e6
    }
}
/// A residual close to the tolerance loses its orthogonality to the constraints when it is normalised
fn k_loby<S: Sc>() -> f64 {
    if S::EPS > 1e-10 {
        1e5
    } else {
        1e11
    }
}
/// component of every column orthogonal to the columns of `y`
fn project_out(x: &Dm, y: &M) -> Dm {
    let mut xd = x.clone();
    let (n, k) = (xd.r, xd.c);
    let mut basis: Vec<Vec<DD>> = vec![];
    for j in 0..y.c {
        let mut v: Vec<DD> = (0..n).map(|i| DD::f(y.at(i, j))).collect();
        for _ in 0..2 {
            for b in &basis {
                let d = v.iter().zip(b).fold(DD::f(0.0), |s, (x, y)| s + *x * *y);
                v.iter_mut().zip(b).for_each(|(x, y)| *x = *x - d * *y);
            }
        }
        let s = v.iter().fold(DD::f(0.0), |s, x| s + *x * *x).sqrt_dd();
        v.iter_mut().for_each(|x| *x = *x / s);
        basis.push(v);
    }
    for b in &basis {
        for j in 0..k {
            let d = (0..n).fold(DD::f(0.0), |s, i| s + xd.at(i, j) * b[i]);
            for i in 0..n {
                let t = xd.at(i, j) - d * b[i];
                xd.set(i, j, t);
            }
        }
    }
    xd
}
/// squared condition number of the start block after the constraints were projected out
fn start_cond2<S: Sc>(x: &Array2<S>, y: Option<&M>) -> Option<f64> {
    let xd = dm(x, 0);
    let xd = match y {
        Some(y) => project_out(&xd, y),
        None => xd,
    };
    let (e, _) = jacobi_eig(&xd.t().mul(&xd));
    let lo = e[0].to_f64();
    let hi = dm(x, 0).fro().powi(2);
    (lo > 0.0).then(|| hi / lo)
}
/// The search space may contain directions whose Gram eigenvalue is just above the cutoff of the
/// generalised eigensolver (1e-10 for f64, 1e3 eps for f32): the accuracy is eps / cutoff at worst
fn k_lob<S: Sc>() -> f64 {
    if S::EPS > 1e-10 {
        4e3
    } else {
        3e7
    }
}

/// orthonormal or merely independent constraint block spanning eigenvectors or anything
fn constraints<S: Sc>(c: &mut Ctx, p: &Prob<S>, ny: usize, invariant: bool, pick: &[usize]) -> M {
    let n = p.ev.len();
    let base = if invariant {
        Mat::from_fn(n, ny, |i, j| p.q.at(i, pick[j]))
    } else {
        gen::orthogonal(&mut c.rng, n).cols(0, ny)
    };
    match c.rng.below(4) {
        0 => {
            c.class("constraints:scaled");
            let s: Vec<f64> = (0..ny)
                .map(|_| 2f64.powi(c.rng.range(-3, 3) as i32))
                .collect();
            Mat::from_fn(n, ny, |i, j| base.at(i, j) * s[j])
        }
        1 => {
            c.class("constraints:oblique basis");
            let mut w = gen::eye(ny);
            // only some of the columns overlap in half of the cases
            let fill = if c.rng.chance(0.5) { 1.0 } else { 0.4 };
            for i in 0..ny {
                for j in 0..i {
                    if c.rng.chance(fill) {
                        w.set(i, j, c.rng.sf());
                    }
                }
                w.set(i, i, 0.5 + 2.0 * c.rng.f());
            }
            if c.rng.chance(0.5) {
                // unit columns
                for j in 0..ny {
                    let s = (0..ny).map(|i| w.at(i, j).powi(2)).sum::<f64>().sqrt();
                    for i in 0..ny {
                        w.set(i, j, w.at(i, j) / s);
                    }
                }
                c.class("constraints:unit columns");
            }
            if c.rng.chance(0.5) {
                let mut o: Vec<usize> = (0..ny).collect();
                c.rng.shuffle(&mut o);
                w = Mat::from_fn(ny, ny, |i, j| w.at(i, o[j]));
            }
            gen::mul(&base, &w)
        }
        _ => {
            c.class("constraints:orthonormal");
            base
        }
    }
}
fn any_spectrum(c: &mut Ctx, n: usize) -> Vec<f64> {
    let mut v = gen::spectrum(&mut c.rng, n, true);
    if c.rng.chance(0.5) {
        let s = 10f64.powf(2.0 * c.rng.sf());
        v.iter_mut().for_each(|x| *x *= s);
    }
    v
}
pub fn c22_t<S: Sc>(c: &mut Ctx) -> R {
    let n = 1 + {
        let b = if c.rng.chance(0.2) { 30 } else { 12 };
        c.rng.below(b)
    };
    let k = 1 + {
        let b = if c.rng.chance(0.3) { n } else { n.min(4) };
        c.rng.below(b)
    };
    let k = k.min(n);
    let ny = if c.rng.chance(0.35) && n > k {
        1 + c.rng.below((n - k).min(5))
    } else {
        0
    };
    let order = rand_order(c);
    // a spectrum with few distinct values exhausts the search space after a few steps
    let generic = c.rng.chance(0.5);
    let ev = if generic {
        c.class("spectrum:generic");
        let s = 10f64.powf(2.0 * c.rng.sf());
        let o = *c.rng.pick(&[0.0, 0.0, 1.0, -1.0, 0.5]);
        (0..n)
            .map(|i| s * ((i as f64 + 0.8 * c.rng.f()) / n as f64 - o))
            .collect()
    } else {
        c.class("spectrum:any");
        any_spectrum(c, n)
    };
    let p = build::<S>(&mut c.rng, ev);
    c.mix(p.a.hash());
    let a = rand_layout(&p.a, &mut c.rng).0;
    let inv = ny == 0 || c.rng.chance(0.6);
    let y = (ny > 0).then(|| {
        let pick: Vec<usize> = (0..ny).collect();
        let y = constraints(c, &p, ny, inv, &pick);
        let y: Mat<S> = y.map(|x| S::of(x));
        y
    });
    let pre = precond(c, &p);
    let x = start::<S>(c, n, k);
    let tol = 10f32.powf(-(c.rng.f() * 8.0) as f32);
    let maxiter = *c.rng.pick(&[0, 1, 2, 3, 5, 10, 20, 50]);
    c.note(format!(
        "n={n} k={k} ny={ny} {order:?} tol={tol:e} maxiter={maxiter} {}",
        S::NAME
    ));
    c.nontrivial = n > 1 && p.norm > 0.0;
    // Once the search space is exhausted the residual consists of rounding errors only: the iterate
    // stays well defined, but its accuracy is that of the noise
    let noise = 100.0 * S::EPS * dims(n, n) * p.norm;
    let tiny = p.norm < if S::EPS > 1e-10 { 1e-12 } else { 1e-100 };
    let regular = tol as f64 > noise && !tiny && (generic || k == 1 || maxiter <= 1);
    let yf = y.as_ref().map(|y| y.map(|x| x.dd(0).to_f64()));
    // the residuals are orthogonal to a search space of 3k columns: if less than k directions are left,
    // their Gram matrix is singular
    let crowd = if 4 * k + ny > n && k > 1 && maxiter > 0 && S::EPS < 1e-10 {
        1e4
    } else {
        1.0
    };
    let cond2 = start_cond2(&x, yf.as_ref())
        .filter(|c| *c < 0.01 / (S::EPS * n as f64))
        .map(|x| x * crowd);
    let ya = y.as_ref().map(|y| rand_layout(y, &mut c.rng).0);
    let calls = Cell::new(0);
    let r = run_lobpcg(
        c,
        &a,
        x,
        pre.as_ref(),
        ya.as_ref().map(|y| y.view()),
        tol,
        maxiter,
        order,
        &calls,
    )?;
    let (e, r) = result(r);
    c.ev(match (&e, &r) {
        (None, _) => "Ok",
        (Some(_), Some(_)) => "Err with best iterate",
        _ => "Err without iterate",
    });
    if let Some(r) = r {
        c.ev_n("Ritz pairs checked", k as u64);
        lob_ok(
            c,
            &p,
            k,
            order,
            &r,
            yf.as_ref(),
            if regular { cond2 } else { None },
        )?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C23
pub fn c23(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c23_t, k)
}
/// ascending spectrum in which `k` values at the wanted end are separated by a clear relative gap
fn separated(c: &mut Ctx, n: usize, k: usize, order: Order) -> (Vec<f64>, f64) {
    let gap = 0.3 + c.rng.f();
    let shift = *c.rng.pick(&[0.0, 1.0, -1.0, 2.0]);
    let rest: Vec<f64> = match c.rng.below(3) {
        0 => (0..n - k).map(|_| c.rng.f()).collect(),
        1 => (0..n - k).map(|i| i as f64 / (n - k) as f64).collect(),
        // clustered, but without repetition: a minimal polynomial of low degree exhausts the search space
        _ => (0..n - k)
            .map(|i| (i % 2) as f64 * 0.5 + 0.4 * c.rng.f())
            .collect(),
    };
    let top = rest.iter().cloned().fold(0.0, f64::max);
    let rep = c.rng.chance(0.2);
    let mut v = rest;
    let mut last = top + gap;
    for i in 0..k {
        v.push(last);
        if !(rep && i % 2 == 0) {
            last += 0.2 + c.rng.f();
        }
    }
    c.class(if rep {
        "wanted:repeated"
    } else {
        "wanted:distinct"
    });
    for x in v.iter_mut() {
        *x += shift;
    }
    if order == Order::Smallest {
        v.iter_mut().for_each(|x| *x = -*x);
    }
    (v, gap)
}
pub fn c23_t<S: Sc>(c: &mut Ctx) -> R {
    let n = 6 + {
        let b = if c.rng.chance(0.2) { 50 } else { 20 };
        c.rng.below(b)
    };
    let ny = if c.rng.chance(0.35) {
        1 + c.rng.below(if n > 12 { 4 } else { 2 })
    } else {
        0
    };
    let k = 1 + c.rng.below(((n - ny) / 5).clamp(1, 5));
    let order = rand_order(c);
    // the ny most extreme pairs are removed by the constraints, so separate k + ny of them
    let (ev, gap) = separated(c, n, k + ny, order);
    let mut p = build::<S>(&mut c.rng, ev);
    let scale = if c.rng.chance(0.4) {
        2f64.powi(c.rng.range(-24, 24) as i32)
    } else {
        1.0
    };
    if scale != 1.0 {
        p.a = p.a.map(|x| x * S::of(scale));
        p.ev.iter_mut().for_each(|x| *x *= scale);
        p.norm *= scale;
        c.class("scaled problem");
    }
    c.mix(p.a.hash());
    let a = rand_layout(&p.a, &mut c.rng).0;
    // wanted indices (ascending eigenvalues), most extreme first
    let ext: Vec<usize> = match order {
        Order::Largest => (0..n).rev().collect(),
        Order::Smallest => (0..n).collect(),
    };
    let arbitrary = ny > 0 && c.rng.chance(0.4);
    // which of the extreme ones are constrained away
    let mut head: Vec<usize> = ext[..k + ny].to_vec();
    let mut pick = vec![];
    for _ in 0..ny {
        let i = c.rng.below(head.len());
        pick.push(head.remove(i));
    }
    let y: Option<Mat<S>> =
        (ny > 0).then(|| constraints(c, &p, ny, !arbitrary, &pick).map(|x| S::of(x)));
    // wanted pairs and the clear distance to the rest
    let (want, basis, gap) = if arbitrary {
        c.class("constraints:arbitrary subspace");
        let yf: M = y.as_ref().unwrap().map(|x| x.dd(0).to_f64());
        match restricted(&p, &yf, k, order) {
            // keep to problems as well separated as the others
            Some((w, b, g)) if g > 0.2 * scale => (w, b, g),
            _ => {
                c.ev("restricted problem not separated: skipped");
                c.nontrivial = false;
                return Ok(());
            }
        }
    } else {
        let b = Dm::from_fn(n, n - head.len(), |i, j| {
            let o: Vec<usize> = (0..n).filter(|l| !head.contains(l)).collect();
            DD::f(p.q.at(i, o[j]))
        });
        (head.iter().map(|i| p.ev[*i]).collect(), b, gap * scale)
    };
    let y = y.map(|y| rand_layout(&y, &mut c.rng).0);
    let pre = precond(c, &p);
    let span = p.ev[n - 1] - p.ev[0];
    let floor = if S::EPS > 1e-10 { 2e-4 } else { 1e-9 };
    let rel = floor * 10f64.powf(c.rng.f() * if S::EPS > 1e-10 { 1.0 } else { 5.0 });
    let tol = (rel * p.norm.max(span)) as f32;
    let maxiter = 200 + c.rng.below(200);
    c.note(format!(
        "n={n} k={k} ny={ny} {order:?} tol={tol:e} gap={gap:.2} {}",
        S::NAME
    ));
    c.nontrivial = true;
    let acc = tol as f64 + 50.0 * S::EPS * dims(n, n) * p.norm;
    attempts(c, |c, _| {
        let x = start::<S>(c, n, k);
        let calls = Cell::new(0);
        let r = run_lobpcg(
            c,
            &a,
            x,
            pre.as_ref(),
            y.as_ref().map(|y| y.view()),
            tol,
            maxiter,
            order,
            &calls,
        )?;
        let (e, r) = result(r);
        c.ev(if e.is_none() {
            "converged"
        } else {
            "Err with iterate"
        });
        let Some(r) = r else {
            return c.viol("lobpcg/failed", format!("no result: {e:?}"));
        };
        c.check("lobpcg/not converged", e.is_none(), || {
            format!("a regular problem ends with {e:?}")
        })?;
        c.check(
            "lobpcg/count",
            r.eigvals.len() == k && r.eigvecs.dim() == (n, k),
            || "wrong shapes".into(),
        )?;
        // converged to the tolerance (a deactivated column may drift by a small factor)
        let worst = r
            .rnorm
            .iter()
            .map(|x| x.dd(0).to_f64())
            .fold(
                0.0,
                |a: f64, b| if b.is_nan() { f64::NAN } else { a.max(b) },
            );
        c.le("lobpcg: residual reaches tolerance", worst, C23_RES * acc)?;
        let mut d = 0.0f64;
        for i in 0..k {
            d = d.max((r.eigvals[i].dd(0).to_f64() - want[i]).abs());
        }
        c.le("lobpcg: extreme eigenvalues", d, C23_VAL * acc)?;
        // subspace: component outside the wanted eigenspace
        let out = basis.t().mul(&dm(&r.eigvecs, 0));
        let out = (0..k).map(|i| out.col_norm(i)).fold(0.0, f64::max);
        c.le(
            "lobpcg: eigenvectors in the extreme subspace",
            out,
            C23_VEC * acc / gap,
        )?;
        c.ev_n("extreme pairs matched", k as u64);
        c.ev_n("operator applications", calls.get());
        Ok(())
    })
}
/// A start block may by chance be so close to another invariant subspace that the iteration settles
/// there within the tolerance. A failure counts if it repeats from independent start blocks.
fn attempts(c: &mut Ctx, mut f: impl FnMut(&mut Ctx, usize) -> R) -> R {
    let first = match f(c, 0) {
        Ok(()) => return Ok(()),
        Err(v) => v,
    };
    if first.sig.ends_with("/panic") {
        return Err(first);
    }
    c.ev("failure repeated from other starts");
    let mut fails = 0;
    for t in 1..=3 {
        fails += f(c, t).is_err() as usize;
    }
    if fails >= 2 {
        return Err(first);
    }
    c.ev("failure not confirmed");
    Ok(())
}
/// extreme eigenvalues of the problem restricted to the complement of `y`, a basis of everything
/// outside their eigenspace, and their distance to the rest
fn restricted<S: Sc>(p: &Prob<S>, y: &M, k: usize, order: Order) -> Option<(Vec<f64>, Dm, f64)> {
    let n = p.ev.len();
    let m = n - y.c;
    // orthonormal basis of the complement: eigenvectors of the projector
    let id = Dm::eye(n);
    let pr = project_out(&id, y);
    let (e, v) = jacobi_eig(&pr);
    let idx: Vec<usize> = (0..n).filter(|i| e[*i].to_f64() > 0.5).collect();
    if idx.len() != m {
        return None;
    }
    let q = Dm::from_fn(n, m, |i, j| v.at(i, idx[j]));
    let (l, w) = jacobi_eig(&q.t().mul(&p.a.dm(0)).mul(&q));
    let mut o: Vec<usize> = (0..m).collect();
    if order == Order::Largest {
        o.reverse();
    }
    let vals: Vec<f64> = o[..k].iter().map(|i| l[*i].to_f64()).collect();
    let gap = (l[o[k]].to_f64() - vals[k - 1]).abs();
    let z = q.mul(&w);
    let rest = Dm::from_fn(n, n - k, |i, j| {
        if j < m - k {
            z.at(i, o[k + j])
        } else {
            let idx: Vec<usize> = (0..n).filter(|i| e[*i].to_f64() <= 0.5).collect();
            v.at(i, idx[j - (m - k)])
        }
    });
    Some((vals, rest, gap))
}
const C23_RES: f64 = 10.0;
const C23_VAL: f64 = 10.0;
const C23_VEC: f64 = 20.0;

// ------------------------------------------------------------------------------------------ C24
pub fn c24(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c24_t, k)
}
pub fn c24_t<S: Sc>(c: &mut Ctx) -> R {
    let n = 1 + {
        let b = if c.rng.chance(0.15) { 30 } else { 12 };
        c.rng.below(b)
    };
    let k = 1 + c.rng.below(n.min(4));
    let order = rand_order(c);
    let ev = any_spectrum(c, n);
    let p = build::<S>(&mut c.rng, ev);
    c.mix(p.a.hash());
    let a = rand_layout(&p.a, &mut c.rng).0;
    let ny = if c.rng.chance(0.25) && n > k { 1 } else { 0 };
    let y = (ny > 0).then(|| {
        let inv = c.rng.chance(0.5);
        let y = constraints(c, &p, ny, inv, &[0]);
        y.map(|x| S::of(x)).arr()
    });
    let pre = precond(c, &p);
    let x = start::<S>(c, n, k);
    let tol = 10f32.powf(-(c.rng.f() * 10.0) as f32);
    let cap = 10 * n;
    let mut budgets: Vec<usize> = vec![0, 1, 2, 3];
    let m = 4 + c.rng.below(12);
    budgets.push(m);
    budgets.push(m + 1);
    budgets.push(m + 1 + c.rng.below(20));
    if c.rng.chance(0.3) {
        budgets.push(cap + 5);
        budgets.sort();
    }
    c.note(format!(
        "n={n} k={k} ny={ny} {order:?} tol={tol:e} {}",
        S::NAME
    ));
    c.nontrivial = n > 1 && p.norm > 0.0;
    let mut prev: Option<(usize, S)> = None;
    let tolf = tol as f64;
    for b in budgets {
        let calls = Cell::new(0);
        let r = run_lobpcg(
            c,
            &a,
            x.clone(),
            pre.as_ref(),
            y.as_ref().map(|y| y.view()),
            tol,
            b,
            order,
            &calls,
        )?;
        let (e, r) = result(r);
        c.ev("budgeted runs");
        let allowed = b.min(cap) as u64 + 1;
        c.check("lobpcg/operator calls", calls.get() <= allowed, || {
            format!("{} operator applications with budget {b}", calls.get())
        })?;
        let Some(r) = r else {
            c.ev("failed before the first iterate");
            c.check("lobpcg/lost iterate", calls.get() <= 1, || {
                format!(
                    "error {e:?} after {} applications carries no iterate",
                    calls.get()
                )
            })?;
            if prev.is_some() {
                return c.viol(
                    "lobpcg/lost iterate",
                    format!("a larger budget ({b}) returns no iterate: {e:?}"),
                );
            }
            continue;
        };
        let tot: S = r.rnorm.iter().fold(S::zero(), |a, b| a + *b);
        if e.is_none() {
            let worst = r
                .rnorm
                .iter()
                .map(|x| x.dd(0).to_f64())
                .fold(
                    0.0,
                    |a: f64, b| if b.is_nan() { f64::NAN } else { a.max(b) },
                );
            if calls.get() < allowed {
                c.ev("stopped on tolerance");
                // with several pairs the one that was locked first may have moved since
                if k == 1 {
                    c.ev("single pair stopped within tolerance");
                    c.le(
                        "lobpcg: stops early only within tolerance",
                        worst,
                        tolf * (1.0 + 1e-6),
                    )?;
                }
            } else {
                c.ev("stopped on budget");
            }
        } else {
            c.ev("stopped on failure with best iterate");
        }
        if let Some((pb, pt)) = prev {
            let slack = (pt.dd(0).to_f64().abs()) * 8.0 * S::EPS * k as f64;
            let worse = tot.dd(0).to_f64() - pt.dd(0).to_f64();
            c.check("lobpcg/not the best iterate", worse <= slack, || {
                format!("total residual {tot:e} with budget {b}, {pt:e} with budget {pb}")
            })?;
            c.ev("budget pairs compared");
        }
        prev = Some((b, tot));
        if b == 0 {
            c.check(
                "lobpcg/zero budget",
                e.is_none() && calls.get() == 1,
                || format!("zero budget: {e:?}, {} applications", calls.get()),
            )?;
            ritz(c, &p, &x, y.as_ref(), k, order, &r)?;
        }
    }
    Ok(())
}
/// zero budget: Rayleigh-Ritz approximation of span(x) (projected away from the constraints)
fn ritz<S: Sc>(
    c: &mut Ctx,
    p: &Prob<S>,
    x: &Array2<S>,
    y: Option<&Array2<S>>,
    k: usize,
    order: Order,
    r: &Lobpcg<S>,
) -> R {
    let n = p.ev.len();
    let mut basis: Vec<Vec<f64>> = vec![];
    let mut cond = 1.0f64;
    let mut add = |v: Vec<f64>, basis: &mut Vec<Vec<f64>>| {
        let n0 = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        let mut v = v;
        for _ in 0..2 {
            for b in basis.iter() {
                let d: f64 = v.iter().zip(b).map(|(x, y)| x * y).sum();
                v.iter_mut().zip(b).for_each(|(x, y)| *x -= d * y);
            }
        }
        let n1 = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        cond = cond.max(n0 / n1);
        v.iter_mut().for_each(|x| *x /= n1);
        basis.push(v);
    };
    let mut ny = 0;
    if let Some(y) = y {
        for j in 0..y.ncols() {
            add(
                (0..n).map(|i| y[(i, j)].dd(0).to_f64()).collect(),
                &mut basis,
            );
            ny += 1;
        }
    }
    for j in 0..k {
        add(
            (0..n).map(|i| x[(i, j)].dd(0).to_f64()).collect(),
            &mut basis,
        );
    }
    // Cholesky orthonormalisation squares the conditioning of the start block
    if !(cond < 1e2) {
        c.ev("start block too ill-conditioned for the Ritz comparison");
        return Ok(());
    }
    let q = Dm::from_fn(n, k, |i, j| DD::f(basis[ny + j][i]));
    let h = q.t().mul(&p.a.dm(0)).mul(&q);
    let (mut vals, _) = jacobi_eig(&h);
    if order == Order::Largest {
        vals.reverse();
    }
    let mut d = 0.0f64;
    for i in 0..k {
        d = d.max((vals[i] - r.eigvals[i].dd(0)).to_f64().abs());
    }
    c.ev("initial Ritz approximations compared");
    c.le(
        "lobpcg: initial Ritz values",
        d,
        500.0 * cond * cond * S::EPS * dims(n, k) * p.norm,
    )
}

// ------------------------------------------------------------------------------------------ C25
pub fn c25(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c25_t, k)
}
pub fn c25_t<S: Sc>(c: &mut Ctx) -> R {
    let n = 2 + {
        let b = if c.rng.chance(0.15) { 20 } else { 9 };
        c.rng.below(b)
    };
    let step = if c.rng.chance(0.5) {
        1
    } else {
        1 + c.rng.below(n.min(4))
    };
    let order = rand_order(c);
    let nice = c.rng.chance(0.7);
    let ev: Vec<f64> = if nice {
        // well separated throughout
        let s = *c.rng.pick(&[1.0, 1.0, -1.0]);
        let o = *c.rng.pick(&[0.0, 0.5, -3.0]);
        (0..n)
            .map(|i| s * (i as f64 + 0.4 * c.rng.f()) + o)
            .collect()
    } else {
        any_spectrum(c, n)
    };
    c.class(if nice {
        "spectrum:separated"
    } else {
        "spectrum:any"
    });
    let p = build::<S>(&mut c.rng, ev);
    c.mix(p.a.hash());
    let ny = if c.rng.chance(0.3) {
        1 + c.rng.below((n - 1).min(2))
    } else {
        0
    };
    let mut pick: Vec<usize> = (0..n).collect();
    c.rng.shuffle(&mut pick);
    pick.truncate(ny);
    let y = (ny > 0).then(|| {
        let y = constraints(c, &p, ny, true, &pick);
        y.map(|x| S::of(x))
    });
    let prec = if S::EPS > 1e-10 {
        1e-3f32
    } else {
        10f32.powi(-(c.rng.range(3, 8) as i32))
    };
    // with few iterations some blocks are reported and others end the enumeration
    let hasty = c.rng.chance(0.35);
    let maxiter = if hasty {
        c.class("few iterations");
        1 + c.rng.below(10)
    } else {
        30 + c.rng.below(100)
    };
    let pre = if c.rng.chance(0.2) {
        precond(c, &p)
    } else {
        None
    };
    let take = if c.rng.chance(0.5) {
        n + 2
    } else {
        1 + c.rng.below(n)
    };
    let via_into = step == 1 && c.rng.chance(0.5);
    c.note(format!(
        "n={n} step={step} ny={ny} {order:?} prec={prec:e} nice={nice} take={take} {}",
        S::NAME
    ));
    c.nontrivial = true;
    let mut want: Vec<f64> = (0..n)
        .filter(|i| !pick.contains(i))
        .map(|i| p.ev[i])
        .collect();
    if order == Order::Largest {
        want.reverse();
    }
    attempts(c, |c, _| {
        let seed = c.rng.u64();
        let mut eig = TruncatedEig::new_with_rng(
            rand_layout(&p.a, &mut c.rng).0,
            order,
            Xoshiro256Plus::seed_from_u64(seed),
        )
        .precision(prec)
        .maxiter(maxiter);
        if let Some(y) = &y {
            eig = eig.orthogonal_to(rand_layout(y, &mut c.rng).0);
        }
        if let Some(m) = &pre {
            eig = eig.precondition_with(m.clone());
        }
        let it = match c.call("into_iter", n, || {
            if via_into {
                Ok(eig.into_iter())
            } else {
                eig.into_iter_step_size(step)
            }
        })? {
            Ok(i) => i,
            Err(e) => return c.viol("iterator/construction", format!("{e}")),
        };
        enumerate(c, &p, it, y.as_ref(), step, take, nice && !hasty, &want)
    })
}
#[allow(clippy::too_many_arguments)]
fn enumerate<S: Sc>(
    c: &mut Ctx,
    p: &Prob<S>,
    mut it: TruncatedEigIterator<S, Xoshiro256Plus>,
    y: Option<&Mat<S>>,
    step: usize,
    take: usize,
    nice: bool,
    want: &[f64],
) -> R {
    let n = p.ev.len();
    let ny = n - want.len();
    // with several columns the residuals need enough directions outside of the search space
    let roomy = |found: usize| step == 1 || n - ny - found >= 5 * step;
    let mut vals: Vec<f64> = vec![];
    let mut vecs: Vec<Vec<DD>> = vec![];
    let mut ended = false;
    let mut short = false;
    let mut worst = 0.0f64;
    let mut all_roomy = true;
    while vals.len() < take {
        let room = roomy(vals.len());
        let item = if nice && room {
            c.call("iterator.next", 6 * n + 8, || it.next())?
        } else {
            // dependent constraints are refused by a panic
            match c.try_call(6 * n + 8, || it.next()) {
                Ok(i) => i,
                Err(_) => {
                    c.ev("iteration of a degenerate problem ended by refusal");
                    break;
                }
            }
        };
        let Some((v, w)) = item else {
            ended = true;
            break;
        };
        all_roomy &= room;
        c.ev("blocks");
        c.check("iterator/block after short block", !short, || {
            "a block follows a shorter block".into()
        })?;
        c.check(
            "iterator/block size",
            v.len() == w.ncols() && w.nrows() == n && !v.is_empty() && v.len() <= step,
            || format!("{} values, vectors {:?}, step {step}", v.len(), w.dim()),
        )?;
        short = v.len() < step;
        finite1(c, "iterator values", &v)?;
        finite2(c, "iterator vectors", &w)?;
        // residual in the complement of everything found before
        let q = vecs.len();
        let con = Mat::from_fn(n, ny + q, |i, j| match y {
            Some(y) if j < ny => y.at(i, j).dd(0).to_f64(),
            _ => vecs[j - ny][i].to_f64(),
        });
        let wd = dm(&w, 0);
        let res = p.a.dm(0).mul(&wd).sub(&wd.scale_cols(&dv(&v, 0)));
        let res = if con.c > 0 {
            project_out(&res, &con)
        } else {
            res
        };
        for j in 0..v.len() {
            worst = worst.max(res.col_norm(j));
            vals.push(v[j].dd(0).to_f64());
            vecs.push(w.column(j).iter().map(|x| x.dd(0)).collect());
        }
        c.check("iterator/too many pairs", vals.len() + ny <= n, || {
            format!("{} pairs and {ny} constraints for n={n}", vals.len())
        })?;
        if short {
            c.check("iterator/short block", vals.len() + ny >= n, || {
                format!("short block after {} pairs", vals.len())
            })?;
        }
    }
    let m = vals.len();
    c.ev_n("pairs", m as u64);
    if m == 0 {
        return c.check("iterator/no pairs", !(nice && roomy(0)), || {
            "no pair for a well-separated problem".into()
        });
    }
    if !all_roomy {
        c.ev("only the structure of a crowded enumeration checked");
        return Ok(());
    }
    let v = Dm::from_fn(n, m, |i, j| vecs[j][i]);
    c.le(
        "iterator: orthonormal",
        v.orth_err(),
        k_it::<S>() * S::EPS * dims(n, m),
    )?;
    c.le(
        "iterator: residual below the convergence threshold",
        worst,
        0.1 + 1e3 * S::EPS * dims(n, n) * p.norm,
    )?;
    if let Some(y) = &y {
        let yd = y.dm(0);
        let yn = (0..y.c).map(|j| yd.col_norm(j)).fold(0.0, f64::max);
        c.le(
            "iterator: orthogonal to constraints",
            yd.cross(&v),
            k_it::<S>() * S::EPS * dims(n, m) * yn,
        )?;
    }
    if !nice {
        return Ok(());
    }
    // values in order, equal to the extreme part of the remaining spectrum
    let mut d = 0.0f64;
    for i in 0..m {
        d = d.max((vals[i] - want[i]).abs());
    }
    c.le("iterator: extreme spectrum enumerated", d, 0.05)?;
    if ended {
        c.check("iterator/ended early", m == n - ny || !roomy(m), || {
            format!("{m} of {} pairs", n - ny)
        })?;
        if m == n - ny {
            c.ev("complete enumerations");
        }
    }
    Ok(())
}
fn k_it<S: Sc>() -> f64 {
    if S::EPS > 1e-10 {
        1e4
    } else {
        1e7
    }
}

// ------------------------------------------------------------------------------------------ C26
pub fn c26(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c26_t, k)
}
pub fn c26_t<S: Sc>(c: &mut Ctx) -> R {
    let r = 1 + {
        let b = if c.rng.chance(0.15) { 30 } else { 10 };
        c.rng.below(b)
    };
    let n = if c.rng.chance(0.2) {
        r
    } else {
        1 + {
            let b = if c.rng.chance(0.15) { 30 } else { 10 };
            c.rng.below(b)
        }
    };
    let k = r.min(n);
    let num = if c.rng.chance(0.05) {
        0
    } else {
        1 + {
            let b = if c.rng.chance(0.3) { k } else { k.min(3) };
            c.rng.below(b)
        }
    };
    let order = rand_order(c);
    let nice = c.rng.chance(0.6);
    let s: Vec<f64> = if nice {
        // the smallest values converge slowly when they are clustered relative to the largest
        let base = if order == Order::Smallest {
            k as f64
        } else {
            0.0
        };
        (0..k)
            .map(|i| base + (i + 1) as f64 + 0.3 * c.rng.f())
            .collect()
    } else {
        gen::spectrum(&mut c.rng, k, false)
    };
    c.class(if nice {
        "spectrum:separated"
    } else {
        "spectrum:any"
    });
    let scale = if c.rng.chance(0.3) {
        c.class("scaled problem");
        c.rng.range(-32, 20) as i32
    } else {
        0
    };
    let s: Vec<f64> = s.iter().map(|x| crate::dd::ldexp(*x, scale)).collect();
    let m = gen::from_svd(&mut c.rng, r, n, &s);
    let m: Mat<S> = m.map(|x| S::of(x));
    c.mix(m.hash());
    let sv = gen::sv_ref(&m);
    let smax = sv.first().copied().unwrap_or(0.0);
    let prec = crate::dd::ldexp(1.0, scale) as f32 * if S::EPS > 1e-10 {
        *c.rng.pick(&[1e-2f32, 3e-2])
    } else {
        10f32.powi(-(c.rng.range(2, 5) as i32))
    };
    let maxiter = if nice { 150 } else { 20 } + c.rng.below(200);
    c.note(format!(
        "{r}x{n} num={num} {order:?} prec={prec:e} maxiter={maxiter} nice={nice} {}",
        S::NAME
    ));
    c.nontrivial = smax > 0.0 && num > 0;
    // the residuals need enough directions outside of the search space
    // (a square start block is often too badly conditioned to be orthonormalised accurately in f32)
    let roomy = num == 1 || 5 * num <= k || (num == k && (k <= 2 || S::EPS < 1e-10));
    let arr = rand_layout(&m, &mut c.rng).0;
    attempts(c, |c, _| {
        let seed = c.rng.u64();
        let svd =
            TruncatedSvd::new_with_rng(arr.clone(), order, Xoshiro256Plus::seed_from_u64(seed))
                .precision(prec)
                .maxiter(maxiter);
        let res = c.call("truncated_svd.decompose", 6 * k + 8, || svd.decompose(num))?;
        let res = match res {
            Ok(x) => x,
            Err(e) => {
                c.ev("Err");
                return c.check("truncated_svd/failed", !nice && num > 0, || format!("{e}"));
            }
        };
        c.ev("Ok");
        let vals = c.call("truncated_svd.values", k, || res.values())?;
        let (u, sg, vt) = c.call("truncated_svd.values_vectors", k, || res.values_vectors())?;
        let q = vals.len();
        c.check("truncated_svd/count", q <= num, || {
            format!("{q} values, {num} requested")
        })?;
        c.check(
            "truncated_svd/values agree",
            q == sg.len() && (0..q).all(|i| vals[i].bits() == sg[i].bits()),
            || format!("{vals:?} and {sg:?}"),
        )?;
        if num == 0 {
            c.ev("zero triplets requested");
            return c.check(
                "truncated_svd/empty",
                u.ncols() == 0 && vt.nrows() == 0,
                || "factors not empty".into(),
            );
        }
        svals_ok(c, q, &vals)?;
        let sorted = (1..q).all(|i| match order {
            Order::Largest => vals[i - 1] >= vals[i],
            Order::Smallest => vals[i - 1] <= vals[i],
        });
        c.check("truncated_svd/order", sorted, || format!("{vals:?}"))?;
        shape_is(c, "truncated U", &u, r, q)?;
        shape_is(c, "truncated Vt", &vt, q, n)?;
        finite2(c, "truncated U", &u)?;
        finite2(c, "truncated Vt", &vt)?;
        let ad = m.dm(0);
        let ud = dm(&u, 0);
        let vd = dm(&vt, 0).t();
        let sd = dv(&vals, 0);
        // eigenproblem residual tolerance is prec^2, singular residual is that divided by s
        let av = ad.mul(&vd).sub(&ud.scale_cols(&sd));
        let atu = ad.t().mul(&ud).sub(&vd.scale_cols(&sd));
        let e2 = (prec as f64) * (prec as f64) + C26_EPS * S::EPS * dims(r, n) * smax * smax;
        let mut worst = 0.0f64;
        let mut good = vec![];
        let level = if S::EPS > 1e-10 { 0.05 } else { 1e-4 };
        let mut conv = true;
        for i in 0..q {
            let s = sd[i].to_f64();
            if s < level * smax || s == 0.0 {
                c.ev("value near rounding level");
                continue;
            }
            good.push(i);
            let x = av.col_norm(i).max(atu.col_norm(i));
            worst = worst.max(x / (e2 / s));
            conv &= x <= C26_RES * e2 / s;
        }
        if nice && roomy {
            c.le("truncated_svd: Av=su, Atu=sv", worst, C26_RES)?;
            let mut sv = sv.clone();
            sv.sort_by(|a, b| a.partial_cmp(b).unwrap());
            if order == Order::Largest {
                sv.reverse();
            }
            c.check("truncated_svd/missing values", q == num, || {
                format!("{q} of {num} values")
            })?;
            let mut d = 0.0f64;
            for i in 0..q {
                d = d.max((sd[i].to_f64() - sv[i]).abs() / (e2 / sv[i]));
            }
            c.le("truncated_svd: extreme singular values", d, C26_RES)?;
            c.ev_n("extreme singular values matched", q as u64);
        } else if conv {
            c.ev("converged on an arbitrary spectrum");
        }
        // orthonormality of the triplets that converged
        if conv && !good.is_empty() {
            let ug = Dm::from_fn(r, good.len(), |i, j| ud.at(i, good[j]));
            let vg = Dm::from_fn(n, good.len(), |i, j| vd.at(i, good[j]));
            let smin = good
                .iter()
                .map(|i| sd[*i].to_f64())
                .fold(f64::INFINITY, f64::min);
            let t = C26_ORTH * (e2 / (smin * smin) + S::EPS * dims(r, n));
            let e = ug.orth_err().max(vg.orth_err());
            c.le("truncated_svd: orthonormal", e, t)?;
            c.ev_n("triplets checked", good.len() as u64);
        }
        Ok(())
    })
}
const C26_EPS: f64 = 200.0;
const C26_RES: f64 = 10.0;
const C26_ORTH: f64 = 50.0;

// ------------------------------------------------------------------------------- C16 (iterative)
pub fn c16_lobpcg(c: &mut Ctx) -> R {
    let k = c.sk(&[(Sk::C64, 55), (Sk::C32, 45)]);
    by_scalar!(c, c16_lob, k)
}
fn c16_lob<S: Sc>(c: &mut Ctx) -> R {
    let n = 1 + c.rng.below(12);
    let k = 1 + c.rng.below(n.min(4));
    let order = rand_order(c);
    let ev = any_spectrum(c, n);
    let mut p = build::<S>(&mut c.rng, ev);
    let bad = c.rng.chance(0.3);
    if bad {
        poison(c, &mut p.a, true);
    }
    // an operator that is not even symmetric, or changes with every call
    let kind = c.rng.below(4);
    let a = p.a.arr();
    let x = start::<S>(c, n, k);
    let maxiter = if c.rng.chance(0.3) {
        10 * n + c.rng.below(50)
    } else {
        c.rng.below(30)
    };
    let tol = *c.rng.pick(&[0.0f32, 1e-12, 1e-6, 1e-2, f32::NAN]);
    c.mix(p.a.hash());
    c.nontrivial = true;
    c.class(if bad {
        "values:non-finite"
    } else {
        "values:finite"
    });
    c.note(format!(
        "lobpcg n={n} k={k} {order:?} tol={tol:e} maxiter={maxiter} operator kind {kind} {}",
        S::NAME
    ));
    let calls = Cell::new(0u64);
    let noise = RefCell::new(Rng::new(c.rng.u64()));
    let allowed = maxiter.min(10 * n) as u64 + 1;
    // every iteration solves an eigenproblem of order 3k
    let bound = allowed
        * (super::spectral::work_bound(3 * k, 3 * k) * 3 + 400 * (n * n * k) as u64 + 20_000);
    cnt::reset(bound);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        lobpcg(
            |v: ArrayView2<S>| {
                calls.set(calls.get() + 1);
                if calls.get() > allowed + 3 {
                    std::panic::panic_any(cnt::Budget(calls.get()));
                }
                let mut w = a.dot(&v);
                match kind {
                    1 => {
                        // unsymmetric
                        let s = w.sum_axis(Axis(0));
                        w.row_mut(0).assign(&s);
                    }
                    2 => {
                        let mut r = noise.borrow_mut();
                        w.mapv_inplace(|x| x + S::of(r.sf()));
                    }
                    _ => {}
                }
                w
            },
            x,
            |_| {},
            None,
            tol,
            maxiter,
            order,
        )
        .is_ok()
    }));
    let ops = cnt::ops();
    cnt::reset(u64::MAX);
    c.st.calls += 1;
    c.ev("lobpcg");
    c.check("lobpcg/operator calls", calls.get() <= allowed, || {
        format!("{} operator applications, {allowed} allowed", calls.get())
    })?;
    match res {
        Ok(ok) => {
            c.ev(if ok { "returned Ok" } else { "returned Err" });
            c.le("lobpcg: work", ops as f64, bound as f64)
        }
        Err(p) if p.downcast_ref::<cnt::Budget>().is_some() => c.viol(
            "lobpcg/work",
            format!("lobpcg: more than {bound} scalar operations"),
        ),
        Err(_) if bad => {
            // a refusal of NaN also ends the call
            c.ev("returned by panic (non-finite operator)");
            c.le("lobpcg: work", ops as f64, bound as f64)
        }
        Err(_) => c.viol(
            "lobpcg/panic",
            format!(
                "lobpcg panicked: {}",
                PANIC_MSG.with(|m| m.borrow().clone())
            ),
        ),
    }
}

// ------------------------------------------------------------------------------- C18 (iterative)
pub fn c18_iter<S: Sc>(c: &mut Ctx, r: usize, k: usize) -> R {
    // r >= 1 rows, k columns requested
    if cfg!(miri) && c.idx % 4 != 0 {
        return Ok(());
    }
    let a = Array2::from_shape_fn((r, r), |(i, j)| {
        S::of(if i == j { 1.0 + i as f64 } else { 0.0 })
    });
    let x = Array2::from_shape_fn((r, k), |(i, j)| {
        S::of(((i * 7 + j * 3) % 5) as f64 + if i == j { 9.0 } else { 0.0 })
    });
    if k > r {
        let e = c.call("lobpcg", 6 * r, || {
            lobpcg(
                |v: ArrayView2<S>| a.dot(&v),
                x.clone(),
                |_| {},
                None,
                1e-4,
                5,
                Order::Largest,
            )
        })?;
        let good =
            matches!(e, Err((LinalgError::NotThin { rows, cols }, None)) if rows == r && cols == k);
        c.check("lobpcg/NotThin", good, || {
            format!("{r}x{k} start block accepted or wrong error")
        })?;
        c.ev("NotThin");
    }
    let rng = Xoshiro256Plus::seed_from_u64(c.idx);
    let e = c.call("truncated_eig", 6 * r, || {
        let mut e = TruncatedEig::new_with_rng(a.clone(), Order::Smallest, rng.clone());
        if cfg!(miri) {
            e.maxiter(2).decompose(k)
        } else {
            e.decompose(k)
        }
    })?;
    let good = match (&e, k) {
        (Ok(l), 0) => l.eigvals.is_empty() && l.eigvecs.is_empty() && l.rnorm.is_empty(),
        (Err((LinalgError::NotThin { rows, cols }, None)), k) if k > r => *rows == r && *cols == k,
        // a random start block may be too dependent to be orthonormalised
        (Err((LinalgError::NotPositiveDefinite, None)), k) if 1 < k && k <= r => true,
        (Ok(l) | Err((_, Some(l))), k) if k <= r => {
            l.eigvals.len() == k && l.eigvecs.dim() == (r, k)
        }
        _ => false,
    };
    c.check("truncated_eig/shape", good, || {
        format!(
            "{k} pairs of a {r}x{r} problem: {:?}",
            e.as_ref().err().map(|x| x.0.to_string())
        )
    })?;
    let m = Array2::from_shape_fn((r, r + 2), |(i, j)| {
        S::of(if i == j { 1.0 + i as f64 } else { 0.0 })
    });
    let m = if c.rng.chance(0.5) {
        m.reversed_axes()
    } else {
        m
    };
    let e = c.call("truncated_svd", 6 * r, || {
        let e = TruncatedSvd::new_with_rng(m, Order::Largest, rng);
        let e = if cfg!(miri) { e.maxiter(2) } else { e };
        e.decompose(k)
            .map(|x| (x.values(), x.values_vectors()))
    })?;
    let good = match (&e, k) {
        (Ok((v, (u, s, t))), 0) => v.is_empty() && s.is_empty() && u.ncols() == 0 && t.nrows() == 0,
        (Err(LinalgError::NotThin { rows, cols }), k) if k > r => *rows == r && *cols == k,
        (Err(LinalgError::NotPositiveDefinite), k) if 1 < k && k <= r => true,
        (Ok((v, _)), k) if k <= r => v.len() <= k,
        _ => false,
    };
    c.check("truncated_svd/shape", good, || {
        format!(
            "{k} triplets with smaller side {r}: {:?}",
            e.as_ref().err().map(|x| x.to_string())
        )
    })?;
    c.ev("iterative shapes");
    Ok(())
}
#[allow(dead_code)]
// ------------------------------------------------------------------------------------------ C31
pub fn c31(c: &mut Ctx) -> R {
    let k = c.std_sk();
    if c.rng.chance(0.35) {
        by_scalar!(c, c31_svd, k)
    } else {
        by_scalar!(c, c31_eig, k)
    }
}
fn same_lob<S: Sc>(a: &LobpcgResult<S>, b: &LobpcgResult<S>) -> bool {
    let f = |r: &LobpcgResult<S>| match r {
        Ok(x) => (true, Some(lob_bits(x))),
        Err((_, x)) => (false, x.as_ref().map(lob_bits)),
    };
    f(a) == f(b)
}
fn lob_bits<S: Sc>(x: &Lobpcg<S>) -> Vec<u128> {
    x.eigvals
        .iter()
        .chain(x.eigvecs.iter())
        .chain(x.rnorm.iter())
        .map(|v| v.bits() as u128)
        .collect()
}
/// generic, well spread spectrum
fn spread(c: &mut Ctx, n: usize) -> Vec<f64> {
    let s = 10f64.powf(1.5 * c.rng.sf());
    let o = *c.rng.pick(&[0.0, 0.0, 1.0, 0.5]);
    (0..n)
        .map(|i| s * ((i as f64 + 0.8 * c.rng.f()) / n as f64 - o))
        .collect()
}
/// rounding errors grow with every iteration, the comparison of two runs only tolerates so many of them
fn iterations<S: Sc>(c: &mut Ctx, k: usize) -> usize {
    let m = *c.rng.pick(&[0usize, 1, 1, 2, 2, 3, 4, 6]);
    match (S::EPS > 1e-10, k) {
        (true, 1) => m.min(4),
        (true, _) => m.min(2),
        (false, 3) => m.min(4),
        _ => m,
    }
}
/// The solver runs with the configuration it was built with: its outcome is the one of LOBPCG started from
/// the same block (observed through a run without iterations) with the same settings.
pub fn c31_eig<S: Sc>(c: &mut Ctx) -> R {
    let k = 1 + c.rng.below(3);
    let ny = if c.rng.chance(0.3) { 1 + c.rng.below(2) } else { 0 };
    let m = iterations::<S>(c, k);
    let n = if m <= 1 && c.rng.chance(0.5) {
        c.class("few dimensions");
        ny + k * (1 + m) + 1 + c.rng.below(4)
    } else {
        5 * k + ny + {
            let b = if c.rng.chance(0.2) { 30 } else { 8 };
            c.rng.below(b)
        }
    };
    let order = rand_order(c);
    let ev = spread(c, n);
    let p = build::<S>(&mut c.rng, ev);
    c.mix(p.a.hash());
    let pick: Vec<usize> = (0..ny).collect();
    let inv = c.rng.chance(0.5);
    let y = (ny > 0).then(|| constraints(c, &p, ny, inv, &pick).map(|x| S::of(x)).arr());
    let pre = precond(c, &p);
    let seed = c.rng.u64();
    // loose precisions end the iteration early, tight ones do not
    let prec = (p.norm * 10f64.powf(-3.0 * c.rng.f())) as f32;
    let defaults = c.rng.chance(0.15);
    c.note(format!(
        "n={n} k={k} ny={ny} {order:?} prec={prec:e} maxiter={m} defaults={defaults} {}",
        S::NAME
    ));
    c.nontrivial = true;
    let lay = rand_layout(&p.a, &mut c.rng).0;
    let fresh = |a: &Array2<S>| {
        TruncatedEig::new_with_rng(a.clone(), order, Xoshiro256Plus::seed_from_u64(seed))
    };
    type T<S> = TruncatedEig<S, Xoshiro256Plus>;
    // every setter, in an order drawn at random, some of them overwritten by a later call
    let mut steps: Vec<u8> = vec![];
    for s in [0u8, 1, 2, 3] {
        if (s == 2 && y.is_none()) || (s == 3 && pre.is_none()) || (s < 2 && defaults) {
            continue;
        }
        steps.push(s);
    }
    let build_up = |c: &mut Ctx, m: usize, prec: f32| -> T<S> {
        let mut o = steps.clone();
        c.rng.shuffle(&mut o);
        let mut e: T<S> = fresh(&lay);
        if !defaults && c.rng.chance(0.3) {
            c.class("setter called twice");
            e = e.maxiter(m + 7).precision(1e-3 * prec);
        }
        for s in o {
            e = match s {
                0 => e.precision(prec),
                1 => e.maxiter(m),
                2 => e.orthogonal_to(y.clone().unwrap()),
                _ => e.precondition_with(pre.clone().unwrap()),
            };
        }
        e
    };
    let (mut e1, mut e2) = (build_up(c, m, prec), build_up(c, m, prec));
    let r1 = c.call("truncated_eig.decompose", 6 * n + 8, || e1.decompose(k))?;
    let r2 = c.call("truncated_eig.decompose", 6 * n + 8, || e2.decompose(k))?;
    c.check("truncated_eig/setter order", same_lob(&r1, &r2), || {
        "the order in which the builder methods were called matters".into()
    })?;
    let (m, prec) = if defaults { (2 * n, 1e-5f32) } else { (m, prec) };
    if defaults {
        c.class("defaults");
        let mut e3 = build_up(c, 0, 0.0).precision(prec).maxiter(m);
        let r3 = c.call("truncated_eig.decompose", 6 * n + 8, || e3.decompose(k))?;
        c.ev("defaults compared with explicit settings");
        return c.check("truncated_eig/defaults", same_lob(&r1, &r3), || {
            "unset parameters are not 1e-5 and twice the dimension".into()
        });
    }
    // the start block, up to the choice of a basis
    let mut e0 = build_up(c, 0, prec);
    let r0 = c.call("truncated_eig.decompose", 6 * n + 8, || e0.decompose(k))?;
    let Some(x0) = result(r0).1 else {
        c.ev("no start block");
        return Ok(());
    };
    if dm(&x0.eigvecs, 0).orth_err() > S::EPS.sqrt() {
        c.ev("start block not orthonormal enough");
        return Ok(());
    }
    let calls = Cell::new(0);
    // the comparison is meaningful unless a residual is right at the tolerance
    for b in 0..=m {
        let r = run_lobpcg(
            c,
            &lay,
            x0.eigvecs.clone(),
            pre.as_ref(),
            y.as_ref().map(|y| y.view()),
            prec,
            b,
            order,
            &calls,
        )?;
        let (e, r) = result(r);
        let Some(r) = r else {
            c.ev("no reference result");
            return Ok(());
        };
        let slack = if S::EPS > 1e-10 { 0.05 } else { 1e-4 };
        if e.is_some()
            || r.rnorm.iter().any(|x| {
                let x = x.dd(0).to_f64();
                (x - prec as f64).abs() <= slack * prec as f64 || x < 1e-2 * prec as f64
            })
        {
            c.ev("a residual at the tolerance: not compared");
            c.nontrivial = false;
            return Ok(());
        }
        if b < m {
            continue;
        }
        let (e1, r1) = result(r1);
        c.check("truncated_eig/outcome", e1.is_none() && r1.is_some(), || {
            format!("{e1:?} where LOBPCG succeeds")
        })?;
        let r1 = r1.unwrap();
        c.check("truncated_eig/count", r1.eigvals.len() == k && r1.rnorm.len() == k, || {
            format!("{} values", r1.eigvals.len())
        })?;
        let (mut d, mut w) = (0.0f64, 0.0f64);
        for i in 0..k {
            d = d.max((r1.eigvals[i].dd(0).to_f64() - r.eigvals[i].dd(0).to_f64()).abs());
            w = w.max((r1.rnorm[i].dd(0).to_f64() - r.rnorm[i].dd(0).to_f64()).abs());
        }
        let t = p.norm * if S::EPS > 1e-10 { 1e-2 } else { 1e-6 };
        c.le("truncated_eig: same eigenvalues as LOBPCG with these settings", d, t)?;
        c.le("truncated_eig: same residuals as LOBPCG with these settings", w, t)?;
        c.ev(if r1.rnorm.iter().all(|x| x.dd(0).to_f64() <= prec as f64) {
            "stopped by the precision"
        } else {
            "stopped by the iteration limit"
        });
        return Ok(());
    }
    Ok(())
}
pub fn c31_svd<S: Sc>(c: &mut Ctx) -> R {
    let k = 1 + c.rng.below(3);
    let maxiter = iterations::<S>(c, k);
    let crowded = maxiter <= 1 && c.rng.chance(0.5);
    let d = if crowded {
        // as small as the search space of the only iteration allows
        c.class("few dimensions");
        k * (1 + maxiter) + 1 + c.rng.below(4)
    } else {
        5 * k + {
            let b = if c.rng.chance(0.2) { 30 } else { 8 };
            c.rng.below(b)
        }
    };
    let e = d + c.rng.below(4) * c.rng.below(6);
    let (r, n) = if c.rng.chance(0.5) { (d, e) } else { (e, d) };
    let order = rand_order(c);
    let ex = if c.rng.chance(0.4) { c.rng.range(-30, 20) as i32 } else { 0 };
    let unit = crate::dd::ldexp(1.0, ex);
    let s: Vec<f64> = (0..d).map(|i| unit * (1.0 + (i as f64 + 0.8 * c.rng.f()) / d as f64)).collect();
    let m = gen::from_svd(&mut c.rng, r, n, &s);
    let m: Mat<S> = m.map(|x| S::of(x));
    c.mix(m.hash());
    let seed = c.rng.u64();
    let prec = (unit * 10f64.powf(-1.5 * c.rng.f())) as f32;
    let defaults = c.rng.chance(0.15);
    c.note(format!(
        "{r}x{n} k={k} {order:?} prec={prec:e} maxiter={maxiter} defaults={defaults} {}",
        S::NAME
    ));
    c.nontrivial = true;
    let arr = rand_layout(&m, &mut c.rng).0;
    let fresh = || TruncatedSvd::new_with_rng(arr.clone(), order, Xoshiro256Plus::seed_from_u64(seed));
    if defaults {
        c.class("defaults");
        let a = c.call("truncated_svd.decompose", 6 * d + 8, || fresh().decompose(k))?;
        let b = c.call("truncated_svd.decompose", 6 * d + 8, || {
            fresh().maxiter(2 * r).precision(1e-5).decompose(k)
        })?;
        let bits = (a.ok().map(|x| x.values().mapv(|v| v.bits())), b.ok().map(|x| x.values().mapv(|v| v.bits())));
        c.ev("defaults compared with explicit settings");
        return c.check("truncated_svd/defaults", bits.0 == bits.1, || {
            "unset parameters are not 1e-5 and twice the rows".into()
        });
    }
    let a = if c.rng.chance(0.5) {
        fresh().maxiter(maxiter).precision(prec)
    } else {
        fresh().precision(2.0 * prec).precision(prec).maxiter(maxiter)
    };
    let Ok(res) = c.call("truncated_svd.decompose", 6 * d + 8, || a.decompose(k))? else {
        return no_result(c, crowded);
    };
    let vals = c.call("truncated_svd.values", d, || res.values())?;
    let x0 = c.call("truncated_svd.decompose", 6 * d + 8, || {
        fresh().precision(prec).maxiter(0).decompose(k)
    })?;
    let Ok(x0) = x0 else {
        return no_result(c, crowded);
    };
    let (u, _, vt) = c.call("truncated_svd.values_vectors", d, || x0.values_vectors())?;
    // whichever side was iterated holds the orthonormal Ritz vectors, and any basis of the space will do
    let x0 = if r > n { vt.reversed_axes() } else { u };
    if dm(&x0, 0).orth_err() > S::EPS.sqrt() {
        // what the rounding of a badly conditioned random block leaves is not a basis to start from
        c.ev("start block not orthonormal enough");
        return Ok(());
    }
    let calls = Cell::new(0);
    let mt = arr.t().to_owned();
    let gram = if r > n { mt.dot(&arr) } else { arr.dot(&mt) };
    let tol = prec * prec;
    for b in 0..=maxiter {
        let q = run_lobpcg(c, &gram, x0.clone(), None, None, tol, b, order, &calls)?;
        let (e, q) = result(q);
        let slack = if S::EPS > 1e-10 { 0.05 } else { 1e-4 };
        let Some(q) = q else {
            c.ev("no reference result");
            return Ok(());
        };
        if e.is_some()
            || q.rnorm.iter().any(|x| {
                let x = x.dd(0).to_f64();
                (x - tol as f64).abs() <= slack * tol as f64 || x < 1e-2 * tol as f64
            })
        {
            c.ev("a residual at the tolerance: not compared");
            c.nontrivial = false;
            return Ok(());
        }
        if b < maxiter {
            continue;
        }
        c.check("truncated_svd/count", vals.len() == k, || format!("{} values", vals.len()))?;
        let mut w = 0.0f64;
        for i in 0..k {
            w = w.max((vals[i].dd(0).to_f64().powi(2) - q.eigvals[i].dd(0).to_f64()).abs());
        }
        let t = 4.0 * if S::EPS > 1e-10 { 1e-2 } else { 1e-5 };
        c.le("truncated_svd: same values as LOBPCG on the Gram operator", w / (unit * unit), t)?;
        c.ev(if q.rnorm.iter().all(|x| x.dd(0).to_f64() <= tol as f64) {
            "stopped by the precision"
        } else {
            "stopped by the iteration limit"
        });
    }
    Ok(())
}

fn unused(_: Array1<f64>) {}

/// a random start block of nearly as many columns as rows can be numerically dependent
fn no_result(c: &mut Ctx, crowded: bool) -> R {
    if crowded {
        c.ev("refused in few dimensions");
        return Ok(());
    }
    c.viol("truncated_svd/failed", "no result for a regular problem")
}
