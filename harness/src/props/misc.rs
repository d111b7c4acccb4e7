//! C17-C19, C21, C27-C30.
use super::direct::*;
use super::spectral::*;
use crate::ctx::*;
use crate::dd::DD;
use crate::digest;
use crate::gen::*;
use crate::mat::*;
use crate::oracle::*;
use crate::sc::Sc;
use crate::{by_scalar, store_into, store_ref};
use linfa_linalg::bidiagonal::*;
use linfa_linalg::cholesky::*;
use linfa_linalg::eigh::*;
use linfa_linalg::norm::*;
use linfa_linalg::qr::*;
use linfa_linalg::reflection::*;
use linfa_linalg::svd::*;
use linfa_linalg::triangular::*;
use linfa_linalg::tridiagonal::*;
use linfa_linalg::{LinalgError, Order};
use ndarray::{
    s, Array1, Array2, ArrayD, ArrayView2, ArrayViewMut2, Axis, IxDyn, ShapeBuilder, Slice,
};

// ------------------------------------------------------------------------------------------ C17
pub fn c17(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c17_t, k)
}
fn lt<S: Sc>(a: S, b: S, o: Order) -> bool {
    match o {
        Order::Largest => a >= b,
        Order::Smallest => a <= b,
    }
}
/// synthetic or genuine values with many ties
fn tie_values<S: Sc>(c: &mut Ctx, n: usize) -> Vec<S> {
    let kind = c.rng.below(6);
    (0..n)
        .map(|i| {
            S::of(match kind {
                0 => c.rng.range(-2, 2) as f64,
                1 => *c.rng.pick(&[0.0, -0.0, 1.0]),
                2 => *c
                    .rng
                    .pick(&[f64::INFINITY, f64::NEG_INFINITY, 0.0, 1e-320, -1e30]),
                3 => -(i as f64),
                4 => 1.0,
                _ => c.rng.normal(),
            })
        })
        .collect()
}
fn same_multiset<S: Sc>(a: &[S], b: &[S]) -> bool {
    let mut x: Vec<u128> = a.iter().map(|v| v.bits()).collect();
    let mut y: Vec<u128> = b.iter().map(|v| v.bits()).collect();
    x.sort();
    y.sort();
    x == y
}
/// the same values, owned but stored reversed or with gaps
fn strided_vec<S: Sc>(c: &mut Ctx, v: &Array1<S>) -> Array1<S> {
    let n = v.len();
    c.class("values stored strided");
    if c.rng.chance(0.5) {
        Array1::from_shape_fn(n, |i| v[n - 1 - i]).slice_move(s![..;-1])
    } else {
        Array1::from_shape_fn(2 * n, |i| if i % 2 == 0 { v[i / 2] } else { S::of(-7.0) })
            .slice_move(s![..;2])
    }
}
pub fn c17_t<S: Sc>(c: &mut Ctx) -> R {
    let order = if c.rng.chance(0.5) {
        Order::Largest
    } else {
        Order::Smallest
    };
    let via = c.rng.chance(0.5);
    let real = c.rng.chance(0.15);
    let big = c.rng.chance(0.05) && !cfg!(miri);
    let n = if big {
        30 + c.rng.below(90)
    } else {
        c.rng.below(12)
    };
    c.note(format!("{order:?} n={n} real={real} {}", S::NAME));
    c.class(if order == Order::Largest {
        "descending"
    } else {
        "ascending"
    });
    if c.rng.chance(0.5) {
        // eigen
        let (vals, vecs) = if real && n > 0 {
            let m = sym_s::<S>(c, n, Scale::One);
            c.ok("eigh", n, || m.arr().eigh())?
        } else {
            let v = tie_values::<S>(c, n);
            let rows = n;
            let f = c.rng.chance(0.5);
            // entry encodes (row, original column) uniquely, with some special values in between
            let mut w = if f {
                Array2::from_elem((rows, n).f(), S::zero())
            } else {
                Array2::from_elem((rows, n), S::zero())
            };
            for i in 0..rows {
                for j in 0..n {
                    w[(i, j)] = S::of((i * 128 + j) as f64 + 1.0);
                }
            }
            if rows > 1 && n > 0 {
                for j in 0..n {
                    if c.rng.chance(0.2) {
                        w[(rows - 1, j)] = *c.rng.pick(&[S::nan(), S::neg_zero(), S::infinity()]);
                    }
                }
            }
            (Array1::from(v), w)
        };
        for x in vals.iter() {
            c.mix(x.bits() as u64);
        }
        c.mix(n as u64);
        c.nontrivial = n > 1;
        let (v0, w0) = (vals.clone(), vecs.clone());
        let vals = if c.rng.chance(0.15) { strided_vec(c, &vals) } else { vals };
        let (v, w) = c.call("sort_eig", n, || match (via, order) {
            (true, _) => (vals, vecs).sort_eig(order),
            (false, Order::Largest) => (vals, vecs).sort_eig_desc(),
            (false, Order::Smallest) => (vals, vecs).sort_eig_asc(),
        })?;
        let bare = c.call("sort_eig(values)", n, || match (via, order) {
            (true, _) => v0.clone().sort_eig(order),
            (false, Order::Largest) => v0.clone().sort_eig_desc(),
            (false, Order::Smallest) => v0.clone().sort_eig_asc(),
        })?;
        c.check(
            "sort_eig/shape",
            v.len() == n && w.dim() == w0.dim(),
            || "shape changed".into(),
        )?;
        let ordered = (1..n).all(|i| lt(v[i - 1], v[i], order));
        c.check("sort_eig/order", ordered, || format!("{v:?}"))?;
        c.check(
            "sort_eig/multiset",
            same_multiset(v.as_slice().unwrap_or(&v.to_vec()), &v0.to_vec()),
            || format!("{v0:?} -> {v:?}"),
        )?;
        // every output column with its value is an input column with its value, each used once
        pairs_ok(
            c,
            "sort_eig/pairing",
            n,
            |j| v[j].bits(),
            |j| w.column(j).iter().map(|x| x.bits()).collect(),
            |j| v0[j].bits(),
            |j| w0.column(j).iter().map(|x| x.bits()).collect(),
        )?;
        let seq = bare.len() == n && (0..n).all(|i| bare[i] == v[i]);
        c.check("sort_eig/bare-values", seq, || {
            format!("bare {bare:?} against {v:?}")
        })?;
        c.check(
            "sort_eig/bare-multiset",
            same_multiset(&bare.to_vec(), &v0.to_vec()),
            || format!("{bare:?}"),
        )?;
        c.ev("eigen sorts");
    } else {
        let (hu, hv) = (c.rng.chance(0.7), c.rng.chance(0.7));
        let (u, s, vt) = if real && n > 0 {
            let k = 1 + c.rng.below(8);
            let m = rect_s::<S>(c, n, k, Scale::One);
            c.ok("svd", n.max(k), || m.arr().svd(hu, hv))?
        } else {
            let v = tie_values::<S>(c, n);
            let (r, k) = (n + c.rng.below(4), n + c.rng.below(4));
            let u = hu
                .then(|| Array2::from_shape_fn((r, n), |(i, j)| S::of((i * 128 + j) as f64 + 1.0)));
            let f = c.rng.chance(0.5);
            let vt = hv.then(|| {
                let a =
                    Array2::from_shape_fn((n, k), |(i, j)| S::of(-((i * 128 + j) as f64) - 1.0));
                if f {
                    let mut b = Array2::from_elem((n, k).f(), S::zero());
                    b.assign(&a);
                    b
                } else {
                    a
                }
            });
            (u, Array1::from(v), vt)
        };
        let n = s.len();
        for x in s.iter() {
            c.mix(x.bits() as u64);
        }
        c.nontrivial = n > 1;
        let (u0, s0, vt0) = (u.clone(), s.clone(), vt.clone());
        let s = if c.rng.chance(0.15) { strided_vec(c, &s) } else { s };
        let (u, s, vt) = c.call("sort_svd", n, || match (via, order) {
            (true, _) => (u, s, vt).sort_svd(order),
            (false, Order::Largest) => (u, s, vt).sort_svd_desc(),
            (false, Order::Smallest) => (u, s, vt).sort_svd_asc(),
        })?;
        c.check(
            "sort_svd/absent-factor",
            u.is_some() == u0.is_some() && vt.is_some() == vt0.is_some(),
            || "presence of a factor changed".into(),
        )?;
        c.check(
            "sort_svd/shape",
            s.len() == n
                && u.as_ref().map(|x| x.dim()) == u0.as_ref().map(|x| x.dim())
                && vt.as_ref().map(|x| x.dim()) == vt0.as_ref().map(|x| x.dim()),
            || "shape changed".into(),
        )?;
        c.check(
            "sort_svd/order",
            (1..n).all(|i| lt(s[i - 1], s[i], order)),
            || format!("{s:?}"),
        )?;
        c.check(
            "sort_svd/multiset",
            same_multiset(&s.to_vec(), &s0.to_vec()),
            || format!("{s0:?} -> {s:?}"),
        )?;
        let key = |u: &Option<Array2<S>>, vt: &Option<Array2<S>>, j: usize| -> Vec<u128> {
            let mut k = vec![];
            if let Some(u) = u {
                k.extend(u.column(j).iter().map(|x| x.bits()));
            }
            k.push(u128::MAX);
            if let Some(v) = vt {
                k.extend(v.row(j).iter().map(|x| x.bits()));
            }
            k
        };
        pairs_ok(
            c,
            "sort_svd/pairing",
            n,
            |j| s[j].bits(),
            |j| key(&u, &vt, j),
            |j| s0[j].bits(),
            |j| key(&u0, &vt0, j),
        )?;
        c.ev(&format!("svd sorts u={hu} vt={hv}"));
    }
    Ok(())
}
fn pairs_ok(
    c: &Ctx,
    what: &str,
    n: usize,
    v: impl Fn(usize) -> u128,
    w: impl Fn(usize) -> Vec<u128>,
    v0: impl Fn(usize) -> u128,
    w0: impl Fn(usize) -> Vec<u128>,
) -> R {
    let mut a: Vec<(u128, Vec<u128>)> = (0..n).map(|j| (v(j), w(j))).collect();
    let mut b: Vec<(u128, Vec<u128>)> = (0..n).map(|j| (v0(j), w0(j))).collect();
    a.sort();
    b.sort();
    if a != b {
        return c.viol(
            what,
            "a vector is no longer attached to the value it came with".to_string(),
        );
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C18
pub fn c18(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c18_t, k)
}
#[derive(Debug, PartialEq)]
enum Exp {
    Ok,
    NotSquare(usize, usize),
    NotThin(usize, usize),
    Empty,
    Rows(usize, usize),
}
fn expect<T>(c: &mut Ctx, what: &str, r: linfa_linalg::Result<T>, e: Exp) -> R {
    let good = match (&r, &e) {
        (Ok(_), Exp::Ok) => true,
        (Err(LinalgError::NotSquare { rows, cols }), Exp::NotSquare(a, b)) => {
            rows == a && cols == b
        }
        (Err(LinalgError::NotThin { rows, cols }), Exp::NotThin(a, b)) => rows == a && cols == b,
        (Err(LinalgError::EmptyMatrix), Exp::Empty) => true,
        (Err(LinalgError::WrongRows { expected, actual }), Exp::Rows(a, b)) => {
            expected == a && actual == b
        }
        _ => false,
    };
    c.ev(match e {
        Exp::Ok => "accepted",
        Exp::NotSquare(..) => "NotSquare",
        Exp::NotThin(..) => "NotThin",
        Exp::Empty => "EmptyMatrix",
        Exp::Rows(..) => "WrongRows",
    });
    if good {
        Ok(())
    } else {
        let got = match r {
            Ok(_) => "Ok".to_string(),
            Err(e) => format!("{e:?}"),
        };
        c.viol(what, format!("{what}: expected {e:?}, got {got}"))
    }
}
pub fn c18_t<S: Sc>(c: &mut Ctx) -> R {
    // the first cases enumerate all small shapes, the rest are random
    let (r, k, br, bc);
    let small = 5u64 * 5 * 6 * 3;
    if c.idx < small {
        let i = c.idx as usize;
        r = i % 5;
        k = i / 5 % 5;
        br = i / 25 % 6;
        bc = i / 150 % 3;
    } else {
        let mx = if cfg!(miri) {
            6
        } else if c.rng.chance(0.2) {
            40
        } else {
            9
        };
        r = c.rng.below(mx);
        k = if c.rng.chance(0.4) {
            r
        } else {
            c.rng.below(mx)
        };
        br = match c.rng.below(5) {
            0 => r,
            1 => k,
            2 => r + 1,
            3 => k.saturating_sub(1),
            _ => c.rng.below(mx),
        };
        bc = c.rng.below(4);
    }
    c.note(format!("A {r}x{k}, B {br}x{bc} {}", S::NAME));
    c.mix(((r * 64 + k) * 64 + br) as u64 * 8 + bc as u64);
    c.nontrivial = true;
    // well-conditioned matrix whose square version is symmetric positive definite
    let m = Mat::from_fn(r, k, |i, j| {
        let d = i.abs_diff(j) as f64;
        S::of(if i == j { 4.0 } else { 1.0 / (1.0 + d * d) })
    });
    let b = Mat::from_fn(br, bc, |i, j| S::of((i * 3 + j) as f64 - 1.0));
    let n = r.max(k).max(br);
    let sq = |e: Exp| if r != k { Exp::NotSquare(r, k) } else { e };
    let (ba, _) = rand_layout(&b, &mut c.rng);
    macro_rules! fresh {
        () => {{
            rand_layout(&m, &mut c.rng).0
        }};
    }
    macro_rules! t {
        ($nm:expr, $a:ident => $call:expr, $e:expr) => {{
            #[allow(unused_mut)]
            let mut $a = fresh!();
            let res = c.call($nm, n, || $call)?;
            expect(c, $nm, res, $e)?;
        }};
    }
    // triangular
    t!("into_triangular", a => a.into_triangular(UPLO::Upper).map(|_| ()), sq(Exp::Ok));
    t!("triangular_inplace", a => a.triangular_inplace(UPLO::Lower).map(|_| ()), sq(Exp::Ok));
    {
        let a = fresh!();
        let tr = c.call("is_triangular", n, || {
            (a.is_triangular(UPLO::Upper), a.is_triangular(UPLO::Lower))
        })?;
        if r != k {
            c.check("is_triangular/non-square", tr == (false, false), || {
                format!("{tr:?}")
            })?;
        }
    }
    let rows = |e: usize| if br == e { Exp::Ok } else { Exp::Rows(e, br) };
    for u in [UPLO::Upper, UPLO::Lower] {
        t!("solve_triangular", a => a.solve_triangular(&ba, u).map(|_| ()), sq(rows(r)));
        t!("solve_triangular_into", a => a.solve_triangular_into(ba.clone(), u).map(|_| ()), sq(rows(r)));
        let mut b2 = ba.clone();
        t!("solve_triangular_inplace", a => a.solve_triangular_inplace(&mut b2, u).map(|_| ()), sq(rows(r)));
    }
    // cholesky family
    t!("cholesky", a => a.cholesky().map(|_| ()), sq(Exp::Ok));
    t!("cholesky_dirty", a => a.cholesky_dirty().map(|_| ()), sq(Exp::Ok));
    t!("cholesky_into", a => a.cholesky_into().map(|_| ()), sq(Exp::Ok));
    t!("cholesky_into_dirty", a => a.cholesky_into_dirty().map(|_| ()), sq(Exp::Ok));
    t!("cholesky_inplace", a => a.cholesky_inplace().map(|_| ()), sq(Exp::Ok));
    t!("cholesky_inplace_dirty", a => a.cholesky_inplace_dirty().map(|_| ()), sq(Exp::Ok));
    t!("solvec", a => a.solvec(&ba).map(|_| ()), sq(rows(r)));
    t!("solvec_into", a => a.solvec_into(ba.clone()).map(|_| ()), sq(rows(r)));
    let mut b2 = ba.clone();
    t!("solvec_inplace", a => a.solvec_inplace(&mut b2).map(|_| ()), sq(rows(r)));
    t!("invc", a => a.invc().map(|_| ()), sq(Exp::Ok));
    t!("invc_inplace", a => a.invc_inplace().map(|_| ()), sq(Exp::Ok));
    // qr family
    let thin = |e: Exp| if r < k { Exp::NotThin(r, k) } else { e };
    t!("qr", a => a.qr().map(|d| { let _ = d.generate_q(); d.into_decomp() }).map(|_| ()), thin(Exp::Ok));
    t!("qr_into", a => a.qr_into().map(|d| { let _ = d.generate_q(); d.into_r() }).map(|_| ()), thin(Exp::Ok));
    if r >= k {
        t!("solve", a => a.qr()?.solve(&ba).map(|_| ()), rows(r));
        t!("solve_into", a => a.qr()?.solve_into(ba.clone()).map(|_| ()), rows(r));
        t!("solve_tr", a => a.qr_into()?.solve_tr(&ba).map(|_| ()), rows(k));
        t!("solve_tr_into", a => a.qr()?.solve_tr_into(ba.clone()).map(|_| ()), rows(k));
        t!("inverse", a => a.qr()?.inverse().map(|_| ()), sq(Exp::Ok));
    }
    t!("least_squares", a => a.least_squares(&ba).map(|_| ()), rows(r));
    t!("least_squares_into", a => a.least_squares_into(ba.clone()).map(|_| ()), rows(r));
    // spectral family
    t!("sym_tridiagonal", a => a.sym_tridiagonal().map(|d| { let _ = d.generate_q(); d.into_tridiag_matrix() }).map(|_| ()), sq(if r == 0 { Exp::Empty } else { Exp::Ok }));
    t!("bidiagonal", a => a.bidiagonal().map(|d| { let _ = (d.generate_u(), d.generate_vt()); d.into_b() }).map(|_| ()), if r.min(k) == 0 { Exp::Empty } else { Exp::Ok });
    t!("eigh", a => a.eigh().map(|_| ()), sq(Exp::Ok));
    t!("eigh_into", a => a.eigh_into().map(|_| ()), sq(Exp::Ok));
    t!("eigvalsh", a => a.eigvalsh().map(|_| ()), sq(Exp::Ok));
    t!("eigvalsh_into", a => a.eigvalsh_into().map(|_| ()), sq(Exp::Ok));
    let (wu, wv) = (c.rng.chance(0.5), c.rng.chance(0.5));
    t!("svd", a => a.svd(wu, wv).map(|_| ()), if r * k == 0 { Exp::Empty } else { Exp::Ok });
    t!("svd_into", a => a.svd_into(wu, wv).map(|_| ()), if r * k == 0 { Exp::Empty } else { Exp::Ok });
    // zero-sized shapes that are accepted give zero-sized results
    if r == 0 && k == 0 {
        let a = fresh!();
        let (v, w) = c.ok("eigh", n, || a.eigh())?;
        c.check("eigh/empty", v.is_empty() && w.dim() == (0, 0), || {
            format!("{v:?} {w:?}")
        })?;
        let v = c.ok("eigvalsh", n, || a.eigvalsh())?;
        c.check("eigvalsh/empty", v.is_empty(), || format!("{v:?}"))?;
    }
    #[cfg(feature = "iterative")]
    super::iter::c18_iter::<S>(c, r.max(1), k)?;
    Ok(())
}

// ------------------------------------------------------------------------------------------ C19
pub fn c19(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c19_t, k)
}
/// A buffer with a rectangular, possibly strided and reversed, window; everything outside is canary.
struct Canary<S> {
    buf: Array2<S>,
    keep: Vec<u128>,
    r: usize,
    k: usize,
    s0: isize,
    s1: isize,
    o0: usize,
    o1: usize,
    rev0: bool,
    rev1: bool,
    tr: bool,
}
impl<S: Sc> Canary<S> {
    fn new(c: &mut Ctx, m: &Mat<S>) -> Canary<S> {
        let (s0, s1) = (1 + c.rng.below(3) as isize, 1 + c.rng.below(3) as isize);
        let (o0, o1) = (c.rng.below(3), c.rng.below(3));
        let (rev0, rev1, tr) = (c.rng.chance(0.3), c.rng.chance(0.3), c.rng.chance(0.3));
        let (wr, wk) = if tr { (m.c, m.r) } else { (m.r, m.c) };
        let dim = (
            o0 + wr * s0 as usize + c.rng.below(3),
            o1 + wk * s1 as usize + c.rng.below(3),
        );
        let mut buf = if c.rng.chance(0.5) {
            Array2::from_elem(dim, S::zero())
        } else {
            Array2::from_elem(dim.f(), S::zero())
        };
        let mut z = 0u32;
        for x in buf.iter_mut() {
            z += 1;
            *x = if z % 7 == 0 {
                S::nan()
            } else {
                S::of(z as f64 * 1.25 + 1e6)
            };
        }
        let mut me = Canary {
            buf,
            keep: vec![],
            r: m.r,
            k: m.c,
            s0,
            s1,
            o0,
            o1,
            rev0,
            rev1,
            tr,
        };
        {
            let mut v = me.view_mut();
            for i in 0..m.r {
                for j in 0..m.c {
                    v[(i, j)] = m.at(i, j);
                }
            }
        }
        me.keep = me.buf.iter().map(|x| x.bits()).collect();
        me
    }
    fn view_mut(&mut self) -> ArrayViewMut2<'_, S> {
        let (wr, wk) = if self.tr {
            (self.k, self.r)
        } else {
            (self.r, self.k)
        };
        let (e0, e1) = (
            self.o0 + wr * self.s0 as usize,
            self.o1 + wk * self.s1 as usize,
        );
        let mut v = self
            .buf
            .slice_mut(s![self.o0..e0;self.s0, self.o1..e1;self.s1]);
        if self.rev0 {
            v.invert_axis(Axis(0));
        }
        if self.rev1 {
            v.invert_axis(Axis(1));
        }
        if self.tr {
            v = v.reversed_axes();
        }
        debug_assert_eq!(v.dim(), (self.r, self.k));
        v
    }
    fn view(&self) -> ArrayView2<'_, S> {
        let (wr, wk) = if self.tr {
            (self.k, self.r)
        } else {
            (self.r, self.k)
        };
        let (e0, e1) = (
            self.o0 + wr * self.s0 as usize,
            self.o1 + wk * self.s1 as usize,
        );
        let mut v = self.buf.slice(s![self.o0..e0;self.s0, self.o1..e1;self.s1]);
        if self.rev0 {
            v.invert_axis(Axis(0));
        }
        if self.rev1 {
            v.invert_axis(Axis(1));
        }
        if self.tr {
            v = v.reversed_axes();
        }
        v
    }
    /// canary cells intact; returns the number observed
    fn outside_ok(&self) -> Result<u64, String> {
        let (wr, wk) = if self.tr {
            (self.k, self.r)
        } else {
            (self.r, self.k)
        };
        let mut cnt = 0;
        for (p, ((i, j), x)) in self.buf.indexed_iter().enumerate() {
            let inside = i >= self.o0
                && j >= self.o1
                && (i - self.o0) % self.s0 as usize == 0
                && (j - self.o1) % self.s1 as usize == 0
                && (i - self.o0) / (self.s0 as usize) < wr
                && (j - self.o1) / (self.s1 as usize) < wk;
            if !inside {
                cnt += 1;
                if x.bits() != self.keep[p] {
                    return Err(format!("cell ({i},{j}) outside the view changed to {x:e}"));
                }
            }
        }
        Ok(cnt)
    }
    fn untouched(&self) -> bool {
        self.buf.iter().zip(&self.keep).all(|(x, k)| x.bits() == *k)
    }
}
/// Shared and copy-on-write storage: the other owners keep their elements, whatever consumes or
/// modifies a copy of the handle.
fn c19_shared<S: Sc>(c: &mut Ctx) -> R {
    let n = 1 + c.rng.below(if cfg!(miri) { 4 } else { 12 });
    let what = c.rng.below(20);
    let square = what < 15;
    let k = if square { n } else { 1 + c.rng.below(7) };
    let m = match what {
        0..=7 => spd_s::<S>(c, n, 1e3, Scale::Mild),
        8..=10 => sym_s::<S>(c, n, Scale::Mild),
        _ => rect_s::<S>(c, n, k, Scale::Mild),
    };
    let kc = c.rng.below(4);
    let br = if c.rng.chance(0.15) { n + 1 } else { n };
    let b = super::direct::rhs::<S>(c, br, kc, m.maxexp());
    let (abase, la) = rand_layout(&m, &mut c.rng);
    let (bbase, lb) = rand_layout(&b, &mut c.rng);
    c.mix(m.hash() ^ what as u64);
    c.nontrivial = true;
    c.class("store:shared, other owners watched");
    c.note(format!("shared {what} {n}x{k} {la}/{lb} {}", S::NAME));
    let (ka, kb) = (abase.clone(), bbase.clone());
    let big = n.max(k);
    let uplo = if c.rng.chance(0.5) { UPLO::Upper } else { UPLO::Lower };
    macro_rules! all {
        ($a:expr, $b:expr) => {{
            #[allow(unused_mut)]
            let (mut a, mut b) = ($a, $b);
            let _ = c.call("shared", big, || match what {
                0 => a.cholesky_inplace().map(|_| ()),
                1 => a.cholesky_inplace_dirty().map(|_| ()),
                2 => a.cholesky_into().map(|_| ()),
                3 => a.cholesky_into_dirty().map(|_| ()),
                4 => a.solvec(&b).map(|_| ()),
                5 => a.solvec_inplace(&mut b).map(|_| ()),
                6 => a.solvec_into(b).map(|_| ()),
                7 => a.invc_inplace().map(|_| ()),
                8 => a.eigh_into().map(|_| ()),
                9 => a.eigvalsh_into().map(|_| ()),
                10 => a.sym_tridiagonal().map(|d| {
                    let _ = d.generate_q();
                    let _ = d.into_tridiag_matrix();
                }),
                11 => a.into_triangular(uplo).map(|_| ()),
                12 => a.triangular_inplace(uplo).map(|_| ()),
                13 => a.solve_triangular_inplace(&mut b, uplo).map(|_| ()),
                14 => a.solve_triangular_into(b, uplo).map(|_| ()),
                15 => a.svd_into(true, true).map(|_| ()),
                16 => a.bidiagonal().map(|d| {
                    let _ = (d.generate_u(), d.generate_vt());
                    let _ = d.into_b();
                }),
                17 => a.least_squares_into(b).map(|_| ()),
                18 => a.qr_into().and_then(|d| {
                    let q = d.clone();
                    let _ = q.into_r();
                    let x = d.solve_into(b.clone()).map(|_| ());
                    let y = d.solve_tr_into(b).map(|_| ());
                    x.and(y)
                }),
                _ => {
                    let ax = Array1::from_elem(n, S::one() / S::of(n as f64).sqrt());
                    let rf = Reflection::new(ax.view(), S::of(0.5));
                    rf.reflect_cols(&mut a);
                    if br == n {
                        rf.reflect_rows(&mut b.reversed_axes());
                    }
                    Ok(())
                }
            })?;
        }};
    }
    let (oa, ob) = if c.rng.chance(0.6) {
        let (a, b) = (abase.into_shared(), bbase.into_shared());
        all!(a.clone(), b.clone());
        (a.into_owned(), b.into_owned())
    } else {
        all!(ndarray::CowArray::from(abase.view()), ndarray::CowArray::from(bbase.view()));
        (abase, bbase)
    };
    c.check("shared/other owner modified", same_bits(&oa, &ka) && same_bits(&ob, &kb), || {
        format!("operation {what} changed the elements of another owner")
    })?;
    c.ev("other owners verified untouched");
    Ok(())
}
pub fn c19_t<S: Sc>(c: &mut Ctx) -> R {
    if c.rng.chance(0.05) {
        return c19_shared::<S>(c);
    }
    let what = c.rng.below(30);
    let n = 1 + {
        let b = if cfg!(miri) {
            4
        } else {
            match c.rng.below(1000) {
                0..=2 => 80,
                3..=100 => 20,
                _ => 7,
            }
        };
        c.rng.below(b)
    };
    let k = if c.rng.chance(0.5) {
        n
    } else {
        1 + c.rng.below(7)
    };
    let square = what < 18;
    let (r, k) = if square { (n, n) } else { (n, k) };
    let sc = *c.rng.pick(&[Scale::One, Scale::One, Scale::Mild, Scale::Wide]);
    let mut m = match what {
        0..=8 => spd_s::<S>(c, n, 1e3, sc),
        9..=13 => sym_s::<S>(c, n, sc),
        _ => rect_s::<S>(c, r, k, sc),
    };
    if c.rng.chance(0.1) {
        poison_nan(c, &mut m, what <= 13);
        c.class("values:nan");
    }
    // mostly matching right-hand sides, sometimes the wrong number of rows
    let bad_rows = c.rng.chance(0.25);
    let br = match (bad_rows, c.rng.chance(0.5)) {
        (true, true) => r + 1 + c.rng.below(3),
        (true, false) => c.rng.below(r),
        _ => r,
    };
    let kc = c.rng.below(4);
    let mut b = super::direct::rhs::<S>(c, br, kc, 0);
    if kc > 0 && br > 0 && c.rng.chance(0.3) {
        // extreme and special values
        for _ in 0..1 + c.rng.below(3) {
            let (i, j) = (c.rng.below(br), c.rng.below(kc));
            let v = *c.rng.pick(&[
                S::nan(),
                S::infinity(),
                S::neg_infinity(),
                S::max_value(),
                S::min_positive_value(),
                -S::zero(),
                S::of(10f64.powi(S::HI - 2)),
                S::of(10f64.powi(2 - S::HI)),
            ]);
            b.set(i, j, v);
        }
        c.class("values:extreme right-hand side");
    }
    c.nontrivial = true;
    c.mix(m.hash() ^ (what as u64) << 3);
    let mut ca = Canary::new(c, &m);
    let mut cb = Canary::new(c, &b);
    let big = r.max(k);
    let uplo = if c.rng.chance(0.5) {
        UPLO::Upper
    } else {
        UPLO::Lower
    };
    let ord = if c.rng.chance(0.5) {
        Order::Largest
    } else {
        Order::Smallest
    };
    let mut rejected = false;
    // (name, A may change, B may change)
    macro_rules! run {
        ($nm:expr, $am:expr, $bm:expr, $e:expr) => {{
            c.ev($nm);
            c.note($nm);
            let r = c.call($nm, big, || $e)?;
            rejected = match r {
                Err(LinalgError::NotPositiveDefinite) | Err(LinalgError::NonInvertible) | Ok(_) => {
                    false
                }
                Err(_) => true,
            };
            ($nm, $am, $bm)
        }};
    }
    let unit = |x: linfa_linalg::Result<()>| x;
    let (nm, am, bm): (&str, bool, bool) = match what {
        0 => run!("cholesky", false, false, ca.view().cholesky().map(|_| ())),
        1 => run!(
            "cholesky_dirty",
            false,
            false,
            ca.view().cholesky_dirty().map(|_| ())
        ),
        2 => run!(
            "cholesky_inplace",
            true,
            false,
            ca.view_mut().cholesky_inplace().map(|_| ())
        ),
        3 => run!(
            "cholesky_inplace_dirty",
            true,
            false,
            ca.view_mut().cholesky_inplace_dirty().map(|_| ())
        ),
        4 => run!(
            "solvec",
            true,
            false,
            ca.view_mut().solvec(&cb.view()).map(|_| ())
        ),
        5 => run!(
            "solvec_inplace",
            true,
            true,
            ca.view_mut().solvec_inplace(&mut cb.view_mut()).map(|_| ())
        ),
        6 => run!(
            "solvec_into",
            true,
            true,
            ca.view_mut().solvec_into(cb.view_mut()).map(|_| ())
        ),
        7 => run!("invc", false, false, ca.view().invc().map(|_| ())),
        8 => run!(
            "invc_inplace",
            true,
            false,
            ca.view_mut().invc_inplace().map(|_| ())
        ),
        9 => run!("eigh", false, false, ca.view().eigh().map(|_| ())),
        10 => run!("eigvalsh", false, false, ca.view().eigvalsh().map(|_| ())),
        11 => run!(
            "eigh_into",
            true,
            false,
            ca.view_mut().eigh_into().map(|_| ())
        ),
        12 => run!(
            "eigvalsh_into",
            true,
            false,
            ca.view_mut().eigvalsh_into().map(|_| ())
        ),
        13 => run!(
            "sym_tridiagonal",
            true,
            false,
            ca.view_mut().sym_tridiagonal().map(|d| {
                let _ = d.generate_q();
                let _ = d.into_tridiag_matrix();
            })
        ),
        14 => run!(
            "triangular_inplace",
            true,
            false,
            ca.view_mut().triangular_inplace(uplo).map(|_| ())
        ),
        15 => run!(
            "is_triangular",
            false,
            false,
            unit({
                ca.view().is_triangular(uplo);
                Ok(())
            })
        ),
        16 => run!(
            "solve_triangular_inplace",
            false,
            true,
            ca.view()
                .solve_triangular_inplace(&mut cb.view_mut(), uplo)
                .map(|_| ())
        ),
        17 => run!(
            "solve_triangular",
            false,
            false,
            ca.view().solve_triangular(&cb.view(), uplo).map(|_| ())
        ),
        18 => run!("qr", false, false, ca.view().qr().map(|_| ())),
        19 => run!(
            "qr_into",
            true,
            false,
            ca.view_mut().qr_into().map(|d| {
                let _ = d.into_r();
            })
        ),
        20 => run!(
            "qr.solve",
            false,
            false,
            ca.view().qr().and_then(|d| d.solve(&cb.view())).map(|_| ())
        ),
        21 => run!(
            "qr_into.solve_into",
            true,
            true,
            ca.view_mut()
                .qr_into()
                .and_then(|d| d.solve_into(cb.view_mut()).map(|_| ()))
        ),
        22 => run!(
            "qr_into.solve_tr_into",
            true,
            true,
            ca.view_mut()
                .qr_into()
                .and_then(|d| d.solve_tr_into(cb.view_mut()).map(|_| ()))
        ),
        23 => run!(
            "least_squares",
            true,
            false,
            ca.view_mut().least_squares(&cb.view()).map(|_| ())
        ),
        24 => run!(
            "least_squares_into",
            true,
            true,
            ca.view_mut().least_squares_into(cb.view_mut()).map(|_| ())
        ),
        25 => run!("svd", false, false, ca.view().svd(true, true).map(|_| ())),
        26 => run!(
            "svd_into",
            true,
            false,
            ca.view_mut().svd_into(true, true).map(|_| ())
        ),
        27 => run!(
            "bidiagonal",
            true,
            false,
            ca.view_mut().bidiagonal().map(|d| {
                let _ = (d.generate_u(), d.generate_vt());
                let _ = d.into_b();
            })
        ),
        28 => run!(
            "norms",
            false,
            false,
            unit({
                let v = ca.view();
                let _ = (v.norm_l1(), v.norm_l2(), v.norm_max());
                Ok(())
            })
        ),
        _ => {
            let ax = Array1::from_elem(r, S::one() / S::of(r as f64).sqrt());
            let ax2 = ax.clone();
            let rr = run!(
                "reflect",
                true,
                true,
                unit({
                    let rf = Reflection::new(ax.view(), S::of(0.5));
                    rf.reflect_cols(&mut ca.view_mut());
                    if br == r {
                        rf.reflect_rows(&mut cb.view_mut().reversed_axes());
                    }
                    Ok(())
                })
            );
            c.check("reflect/axis-modified", same_bits(&ax, &ax2), || {
                "reflection axis modified".into()
            })?;
            rr
        }
    };
    let _ = ord;
    // R shape mismatches for solve_tr: b has r rows but k are expected
    for (who, cn, may) in [("matrix", &ca, am), ("right-hand side", &cb, bm)] {
        match cn.outside_ok() {
            Ok(n) => c.ev_n("canary cells verified", n),
            Err(e) => return c.viol(&format!("{nm}/outside-view"), format!("{nm}: {who}: {e}")),
        }
        if !may {
            c.check(&format!("{nm}/input-modified"), cn.untouched(), || {
                format!("{nm}: {who} was modified")
            })?;
            c.ev("inputs verified untouched");
        }
    }
    if rejected {
        c.ev("rejected for shape");
        c.check(
            &format!("{nm}/rhs-modified-on-rejection"),
            cb.untouched(),
            || format!("{nm}: right-hand side modified although the call was rejected"),
        )?;
    }
    Ok(())
}
fn poison_nan<S: Sc>(c: &mut Ctx, m: &mut Mat<S>, symm: bool) {
    let (i, j) = (c.rng.below(m.r), c.rng.below(m.c));
    m.set(i, j, S::nan());
    if symm {
        m.set(j, i, S::nan());
    }
}

// ------------------------------------------------------------------------------------------ C20
/// Drives every safe entry point with well-formed, malformed, strided, shared and non-finite
/// arguments. What the calls return is other properties' business: the verdict comes from the
/// instrumentation this runs under (AddressSanitizer, Miri, memcheck) and, in builds with debug
/// assertions, from panics of the indexing that release builds compile without checks.
pub fn c20(c: &mut Ctx) -> R {
    crate::ctx::INDEX_PANIC.with(|p| *p.borrow_mut() = None);
    let w = c.rng.below(20);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match w {
        0..=5 => {
            c.ev("malformed and matching shapes");
            c18(c)
        }
        6..=11 => {
            c.ev("strided windows, shared storage, wrong rows");
            c19(c)
        }
        12 | 13 => {
            c.ev("non-finite and extreme values");
            let k = c.std_sk();
            by_scalar!(c, c20_values, k)
        }
        14 => {
            c.ev("sorting");
            if c.rng.chance(0.4) {
                c20_sort(c)
            } else {
                c17(c)
            }
        }
        _ => {
            if c.std_sk() == Sk::F32 {
                c20_ops::<f32>(c)
            } else {
                c20_ops::<f64>(c)
            }
        }
    }));
    if w >= 15 {
        c.ev("all operations");
    }
    let _ = r;
    c.nontrivial = true;
    let h = c.rng.u64();
    c.mix(h);
    if let Some(op) = UNINIT.with(|u| u.take()) {
        return c.viol(
            "uninitialised memory",
            format!("the outcome of {op} depends on what the allocated memory held before"),
        );
    }
    match crate::ctx::INDEX_PANIC.with(|p| p.borrow_mut().take()) {
        Some(m) => c.viol(
            "out of bounds",
            format!("an access that release builds do not check is out of bounds: {m}"),
        ),
        None => Ok(()),
    }
}
/// sorting tuples whose parts do not fit together: any safe outcome is fine, whatever comes back is read
fn c20_sort(c: &mut Ctx) -> R {
    let (n, k, q) = (c.rng.below(7), c.rng.below(7), c.rng.below(7));
    let ord = if c.rng.chance(0.5) { Order::Largest } else { Order::Smallest };
    let vals = Array1::from_shape_fn(n, |_| c.rng.range(-3, 3) as f64);
    let u = Array2::from_shape_fn((k, q), |_| c.rng.f());
    let vt = Array2::from_shape_fn((q, k), |_| c.rng.f());
    let both = c.rng.below(3);
    c.note(format!("mismatched sort {n} values, {k}x{q}"));
    let mut outcomes = vec![];
    for fill in 0..2 {
        crate::alloc::set_fill(if fill == 0 { 0x3f } else { 0xc3 });
        let (vals, u, vt) = (vals.clone(), u.clone(), vt.clone());
        let mut odd = 0;
        let mut h = digest::H(1);
        let mut look = |x: &f64| {
            // branches on the elements, so that uninitialised ones are noticed
            if *x > 0.5 {
                odd += 1;
            }
            h.u(x.to_bits());
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if both == 0 {
                let (l, v) = (vals, u).sort_eig(ord);
                l.iter().chain(v.iter()).for_each(&mut look);
            } else {
                let (a, s, b) = (Some(u), vals, (both == 2).then_some(vt)).sort_svd(ord);
                s.iter().for_each(&mut look);
                a.iter().for_each(|a| a.iter().for_each(&mut look));
                b.iter().for_each(|a| a.iter().for_each(&mut look));
            }
        }));
        outcomes.push(r.is_ok().then(|| (odd, h.0)));
    }
    if outcomes[0] != outcomes[1] {
        UNINIT.with(|u| u.set(Some("sorting")));
    }
    c.ev("mismatched tuples sorted");
    Ok(())
}
thread_local! {
    static UNINIT: std::cell::Cell<Option<&'static str>> = const { std::cell::Cell::new(None) };
}
fn c20_ops<S: digest::DSc + 'static>(c: &mut Ctx) -> R {
    let seed = c.rng.u64();
    let inp = digest::Inputs::<S>::new(seed);
    c.note(format!("digest seed {seed:#x} {}", S::NAME));
    let cnt = if cfg!(miri) { 4 } else { 10 };
    for _ in 0..cnt {
        let op = c.rng.below(digest::OPS);
        c.ev(digest::name(op));
        let h = digest::run(op, &inp);
        if !cfg!(miri) {
            let i = c.rng.below(4);
            crate::alloc::set_fill(crate::alloc::FILLS[i]);
            if digest::run(op, &inp) != h {
                UNINIT.with(|u| u.set(Some(digest::name(op))));
            }
        }
    }
    Ok(())
}
fn c20_values<S: Sc>(c: &mut Ctx) -> R {
    let top = if cfg!(miri) { 5 } else { 7 };
    let r = c.rng.below(top);
    let k = if c.rng.chance(0.5) {
        r
    } else {
        c.rng.below(top)
    };
    let mut m = rect_s::<S>(c, r.max(1), k.max(1), Scale::Wide);
    super::spectral::poison(c, &mut m, false);
    let (mut a, lay) = rand_layout(&m, &mut c.rng);
    c.note(format!("{}x{} {lay} {:?}", m.r, m.c, m.d));
    let (b, _) = rand_layout(&Mat::from_fn(m.r, 2, |i, j| m.at(i, j % m.c)), &mut c.rng);
    for _ in 0..3 {
        match c.rng.below(12) {
            0 => drop(c.try_call(m.r.max(m.c), || a.eigh())),
            1 => drop(c.try_call(m.r.max(m.c), || a.eigvalsh())),
            2 => drop(c.try_call(m.r.max(m.c), || a.svd(true, true))),
            3 => drop(c.try_call(m.r.max(m.c), || a.svd(false, true))),
            4 => drop(c.try_call(m.r.max(m.c), || a.qr().and_then(|d| d.solve(&b)))),
            5 => drop(c.try_call(m.r.max(m.c), || a.qr().and_then(|d| d.solve_tr(&b)))),
            6 => drop(c.try_call(m.r.max(m.c), || a.cholesky())),
            7 => drop(c.try_call(m.r.max(m.c), || a.solvec(&b))),
            8 => drop(c.try_call(m.r.max(m.c), || a.clone().bidiagonal().map(|d| d.generate_u()))),
            9 => drop(c.try_call(m.r.max(m.c), || a.clone().sym_tridiagonal().map(|d| d.generate_q()))),
            10 => drop(c.try_call(m.r.max(m.c), || a.solve_triangular(&b, UPLO::Lower))),
            _ => drop(c.try_call(m.r.max(m.c), || a.clone().least_squares(&b))),
        }
    }
    Ok(())
}
// ------------------------------------------------------------------------------------------ C21
pub fn c21(c: &mut Ctx) -> R {
    let k = c.std_sk();
    match k {
        Sk::F32 | Sk::C32 => c21_t::<f32>(c),
        _ => c21_t::<f64>(c),
    }
}
fn c21_t<S: digest::DSc>(c: &mut Ctx) -> R {
    c.class(&format!("scalar:{}", S::NAME));
    let seed = c.rng.u64();
    c.note(format!("digest seed {seed:#x} {}", S::NAME));
    let inp = digest::Inputs::<S>::new(seed);
    c.mix(seed);
    c.nontrivial = true;
    // which operations: a random handful per case
    let nops = digest::OPS;
    let mut ops: Vec<usize> = (0..nops).collect();
    c.rng.shuffle(&mut ops);
    ops.truncate(12);
    let base: Vec<u64> = ops.iter().map(|&o| digest::run(o, &inp)).collect();
    // the previous contents of the memory handed out by the allocator are part of the history
    let mut fill = |c: &mut Ctx| {
        let b = *c.rng.pick(&crate::alloc::FILLS);
        crate::alloc::set_fill(if c.rng.chance(0.7) { b } else { 0 });
    };
    // again in another order, interleaved with the same operations on other data
    let other = digest::Inputs::<S>::new(seed ^ 0x5555);
    let mut order: Vec<usize> = (0..ops.len()).collect();
    c.rng.shuffle(&mut order);
    for &i in &order {
        let j = *c.rng.pick(&ops);
        fill(c);
        digest::run(j, &other);
        fill(c);
        let h = digest::run(ops[i], &inp);
        c.check(
            &format!("{}/history", digest::name(ops[i])),
            h == base[i],
            || format!("{} changed after unrelated calls", digest::name(ops[i])),
        )?;
        c.ev("repeated after interleaving");
    }
    // fresh copy of the inputs
    let inp2 = digest::Inputs::<S>::new(seed);
    let i = c.rng.below(ops.len());
    let h = digest::run(ops[i], &inp2);
    c.check(
        &format!("{}/copy", digest::name(ops[i])),
        h == base[i],
        || format!("{} differs on an identical copy", digest::name(ops[i])),
    )?;
    // accessors repeated, reordered and on clones
    digest::accessors(&inp, &mut c.rng.clone())
        .or_else(|e| c.viol(&format!("accessors/{}", e.0), e.1))?;
    c.ev("accessor histories");
    // threads
    if c.idx % 16 == 0 {
        let bad = std::sync::Mutex::new(None);
        std::thread::scope(|sc| {
            for t in 0..4usize {
                let (ops, base, inp, bad) = (&ops, &base, &inp, &bad);
                sc.spawn(move || {
                    for q in 0..ops.len() {
                        let i = (q * (2 * t + 1) + t) % ops.len();
                        if digest::run(ops[i], inp) != base[i] {
                            *bad.lock().unwrap() = Some(ops[i]);
                        }
                    }
                });
            }
        });
        if let Some(o) = bad.into_inner().unwrap() {
            return c.viol(
                &format!("{}/threads", digest::name(o)),
                format!("{} differs when run on several threads", digest::name(o)),
            );
        }
        c.ev_n("calls on concurrent threads", 4 * ops.len() as u64);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C27
pub fn c27(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c27_t, k)
}
pub fn c27_t<S: Sc>(c: &mut Ctx) -> R {
    let nd = c.rng.below(5);
    let dims: Vec<usize> = (0..nd)
        .map(|_| {
            if c.rng.chance(0.05) {
                0
            } else {
                1 + c.rng.below(if nd <= 2 { 20 } else { 5 })
            }
        })
        .collect();
    let mut dims = dims;
    if nd > 0 && c.rng.chance(0.01) && !cfg!(miri) {
        // one long axis
        let ax = c.rng.below(nd);
        dims[ax] = 500 + c.rng.below(4000) / nd.pow(2);
        c.class("long axis");
    }
    let total: usize = dims.iter().product();
    // squares must neither overflow nor underflow
    let lim = (S::HI as f64 * 0.45) as i32;
    let kind = c.rng.below(7);
    let base = c.rng.range(-lim as i64 + 8, lim as i64 - 8) as f64;
    let gen = |c: &mut Ctx| -> f64 {
        match kind {
            0 => c.rng.sf(),
            1 => c.rng.range(-4, 4) as f64,
            2 => c.rng.sign() * 10f64.powf(base + 4.0 * c.rng.sf()),
            3 => *c.rng.pick(&[0.0, -0.0, 1.0, -1.0]),
            4 => -c.rng.f(),
            5 => {
                if c.rng.chance(0.2) {
                    -0.0
                } else {
                    0.0
                }
            }
            _ => {
                if c.rng.chance(0.1) {
                    c.rng.sf() * 1e3
                } else {
                    0.0
                }
            }
        }
    };
    let mut v: Vec<S> = vec![];
    for _ in 0..total {
        let x = gen(c);
        let ns = c.rng.sf();
        v.push(S::of_noisy(x, ns));
    }
    for x in &v {
        c.mix(x.bits() as u64);
    }
    c.note(format!("dims {dims:?} kind {kind} {}", S::NAME));
    c.nontrivial = total > 1;
    c.class(&format!("ndim:{nd}"));
    if total == 0 {
        c.class("empty");
    }
    let mut a = ArrayD::from_shape_vec(IxDyn(&dims), v.clone()).unwrap();
    // permuted axes, reversal and stride
    let mut perm: Vec<usize> = (0..nd).collect();
    c.rng.shuffle(&mut perm);
    a = a.permuted_axes(IxDyn(&perm));
    for ax in 0..nd {
        if c.rng.chance(0.3) {
            a.invert_axis(Axis(ax));
        }
    }
    let mut view = a.view();
    if nd > 0 && c.rng.chance(0.3) {
        let ax = c.rng.below(nd);
        view.slice_axis_inplace(Axis(ax), Slice::new(0, None, 2));
        c.class("layout:strided");
    }
    let els: Vec<S> = view.iter().copied().collect();
    let n = els.len() as f64 + 2.0;
    let (l1, l2, mx) = match c.rng.below(3) {
        0 => c.call("norms", 1, || {
            (view.norm_l1(), view.norm_l2(), view.norm_max())
        })?,
        1 => {
            let o = view.to_owned();
            c.call("norms", 1, || (o.norm_l1(), o.norm_l2(), o.norm_max()))?
        }
        _ => {
            if nd == 2 {
                let w = view.clone().into_dimensionality::<ndarray::Ix2>().unwrap();
                c.call("norms", 1, || (w.norm_l1(), w.norm_l2(), w.norm_max()))?
            } else if nd == 1 {
                let w = view.clone().into_dimensionality::<ndarray::Ix1>().unwrap();
                c.call("norms", 1, || (w.norm_l1(), w.norm_l2(), w.norm_max()))?
            } else {
                c.call("norms", 1, || {
                    (view.norm_l1(), view.norm_l2(), view.norm_max())
                })?
            }
        }
    };
    let want_max = els
        .iter()
        .fold(S::zero(), |m, x| if x.abs() > m { x.abs() } else { m });
    c.check("norm_max", mx == want_max, || {
        format!("norm_max = {mx:e}, expected {want_max:e}")
    })?;
    if els.is_empty() {
        c.check(
            "norm of empty array",
            l1.is_zero() && l2.is_zero() && mx.is_zero(),
            || format!("{l1:e} {l2:e} {mx:e}"),
        )?;
        return Ok(());
    }
    let e = -crate::dd::exponent(want_max.dd(0).to_f64());
    let mut s1 = DD::ZERO;
    let mut s2 = DD::ZERO;
    for x in &els {
        let d = x.dd(e).abs_dd();
        s1 = s1 + d;
        s2 = s2 + d * d;
    }
    let r2 = s2.sqrt_dd();
    let d1 = (l1.dd(e) - s1).to_f64().abs();
    let d2 = (l2.dd(e) - r2).to_f64().abs();
    c.le("norm_l1", d1, 2.0 * n * S::EPS * s1.to_f64())?;
    c.le("norm_l2", d2, 2.0 * n * S::EPS * r2.to_f64())?;
    Ok(())
}

// ------------------------------------------------------------------------------------------ C28
pub fn c28(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c28_t, k)
}
pub fn c28_t<S: Sc>(c: &mut Ctx) -> R {
    let n = 1 + {
        let b = match c.rng.below(200) {
            0 if !cfg!(miri) => 300,
            1..=20 => 40,
            _ => 10,
        };
        c.rng.below(b)
    };
    let top = if c.rng.chance(0.005) { 90 } else { 8 };
    let k = c.rng.below(top);
    // unit axis
    let kind = c.rng.below(5);
    let mut ax: Vec<f64> = (0..n)
        .map(|i| match kind {
            0 => (i == 0) as u8 as f64,
            1 => 1.0,
            2 => c.rng.sf() * 10f64.powf(-4.0 * c.rng.f()),
            _ => c.rng.normal(),
        })
        .collect();
    if kind == 0 {
        c.rng.shuffle(&mut ax);
    }
    let nn = ax.iter().map(|x| x * x).sum::<f64>().sqrt();
    let mut axis: Vec<S> = ax.iter().map(|x| S::of(x / nn)).collect();
    if S::EPS < 1e-20 {
        // renormalise at full precision
        let mut s = S::zero();
        for x in &axis {
            s += *x * *x;
        }
        let s = s.sqrt();
        axis.iter_mut().for_each(|x| *x /= s);
    }
    let bk = c.rng.below(4);
    let bias = match bk {
        0 => S::zero(),
        1 => S::of(c.rng.sf()),
        2 => S::of(c.rng.sf() * 1e3),
        _ => S::of(-2.5),
    };
    let rows = c.rng.chance(0.5);
    let sc = if c.rng.chance(0.3) {
        (c.rng.sf() * S::HI as f64 * 0.4) as i32
    } else {
        0
    };
    let noise = c.rng.sf();
    let mut m = Mat::from_fn(n, k, |_, _| {
        S::of_noisy(c.rng.sf() * 10f64.powi(if bk == 0 { sc } else { 0 }), noise)
    });
    // one point on the plane
    let plane = if k > 0 && c.rng.chance(0.5) {
        Some(c.rng.below(k))
    } else {
        None
    };
    if let Some(j) = plane {
        // x - (a.x - bias) a
        let ad: Vec<DD> = axis.iter().map(|x| x.dd(0)).collect();
        let mut d = -bias.dd(0);
        for i in 0..n {
            d = d + ad[i] * m.at(i, j).dd(0);
        }
        for i in 0..n {
            let x = m.at(i, j).dd(0) - d * ad[i];
            m.set(i, j, S::of(x.hi) + S::of(x.lo));
        }
    }
    c.note(format!("n={n} k={k} bias={bias:e} rows={rows} {}", S::NAME));
    c.mix(m.hash());
    for x in &axis {
        c.mix(x.bits() as u64);
    }
    c.nontrivial = n > 1 && k > 0;
    let src = if rows { m.t() } else { m.clone() };
    let (mut a, lay) = rand_layout(&src, &mut c.rng);
    c.class(&format!("layout:{lay}"));
    let axa = Array1::from(axis.clone());
    // axis view possibly strided / reversed
    let strided = Array1::from_shape_fn(2 * n, |i| if i % 2 == 0 { axis[i / 2] } else { S::nan() });
    let use_str = c.rng.chance(0.4);
    let rf = if use_str {
        Reflection::new(strided.slice(s![..;2]), bias)
    } else {
        Reflection::new(axa.view(), bias)
    };
    let same_axis = rf
        .axis()
        .iter()
        .zip(&axis)
        .all(|(x, y)| x.bits() == y.bits())
        && rf.axis().len() == n;
    c.check("axis()", same_axis, || {
        "axis() does not return the axis".into()
    })?;
    c.call("reflect", n, || {
        if rows {
            rf.reflect_rows(&mut a)
        } else {
            rf.reflect_cols(&mut a)
        }
    })?;
    c.ev(if rows { "reflect_rows" } else { "reflect_cols" });
    let out = Mat::of_arr(&a);
    let out = if rows { out.t() } else { out };
    let mut again = a.clone();
    c.call("reflect", n, || {
        if rows {
            rf.reflect_rows(&mut again)
        } else {
            rf.reflect_cols(&mut again)
        }
    })?;
    let back = Mat::of_arr(&again);
    let back = if rows { back.t() } else { back };
    let e = -m
        .maxexp()
        .max(crate::dd::exponent(bias.dd(0).to_f64().abs()));
    let ad: Vec<DD> = axis.iter().map(|x| x.dd(0)).collect();
    let (x, y, z) = (m.dm(e), out.dm(e), back.dm(e));
    let bd = crate::dd::mul2(bias.dd(0), e);
    let t = S::EPS * (n as f64 + 4.0);
    for j in 0..k {
        let mut d = -bd;
        for i in 0..n {
            d = d + ad[i] * x.at(i, j);
        }
        let sc = x.col_norm(j) + bd.to_f64().abs();
        let mut err = 0.0f64;
        let mut err2 = 0.0f64;
        for i in 0..n {
            let w = x.at(i, j) - (d + d) * ad[i];
            err = err.max((y.at(i, j) - w).to_f64().abs());
            err2 = err2.max((z.at(i, j) - x.at(i, j)).to_f64().abs());
        }
        c.le("reflection formula", err, 12.0 * t * sc)?;
        c.le("involution", err2, 24.0 * t * sc)?;
        if Some(j) == plane {
            let mut e3 = 0.0f64;
            for i in 0..n {
                e3 = e3.max((y.at(i, j) - x.at(i, j)).to_f64().abs());
            }
            // the point is on the plane up to its own rounding: |d| is its exact distance
            c.le(
                "plane point fixed",
                e3,
                2.0 * d.to_f64().abs() + 24.0 * t * sc,
            )?;
            c.ev("points of the plane");
        }
        if j > 0 {
            let mut p = DD::ZERO;
            let mut q = DD::ZERO;
            for i in 0..n {
                let u = x.at(i, j) - x.at(i, j - 1);
                let v = y.at(i, j) - y.at(i, j - 1);
                p = p + u * u;
                q = q + v * v;
            }
            let d = (p.sqrt_dd() - q.sqrt_dd()).to_f64().abs();
            c.le("distance preserved", d, 24.0 * t * (sc + x.col_norm(j - 1)))?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C29
/// Every direct routine on the double-double scalar (epsilon 2^-100), and on f32 against its own
/// epsilon.
pub fn c29(c: &mut Ctx) -> R {
    let sk = c.sk(&[(Sk::Dd, 85), (Sk::F32, 15)]);
    let w = c.rng.below(14);
    const NAMES: [&str; 14] = [
        "qr",
        "qr solve",
        "least squares",
        "cholesky",
        "spd solve",
        "triangular solve",
        "tridiagonal",
        "bidiagonal",
        "eigh",
        "svd",
        "eigvalsh/svd options",
        "scaling",
        "norms",
        "reflections",
    ];
    c.ev(NAMES[w]);
    match sk {
        Sk::Dd => {
            c.class("scalar:dd");
            c29_t::<crate::dd::DD>(c, w)
        }
        Sk::C32 => {
            c.class("scalar:cnt32");
            c29_t::<crate::cnt::C32>(c, w)
        }
        Sk::C64 => {
            c.class("scalar:cnt64");
            c29_t::<crate::cnt::C64>(c, w)
        }
        _ => {
            c.class("scalar:f32");
            c29_t::<f32>(c, w)
        }
    }
}
fn c29_t<S: Sc>(c: &mut Ctx, w: usize) -> R {
    let d = 1 + {
        let b = match c.rng.below(1000) {
            0..=3 => 70,
            4..=100 => 24,
            _ => 9,
        };
        c.rng.below(b)
    };
    let d2 = if c.rng.chance(0.4) {
        d
    } else {
        1 + c.rng.below(9)
    };
    let sc = Scale::Mild;
    match w {
        0 => {
            let m = rect_s::<S>(c, d.max(d2), d.min(d2), sc);
            c.nontrivial = true;
            c01_on(c, &m)
        }
        1 => match nonsingular::<S>(c, sc) {
            Some(m) if m.r <= 24 => c02_on(c, &m),
            _ => Ok(()),
        },
        2 => match full_rank::<S>(c, sc) {
            Some((m, k)) if m.r.max(m.c) <= 24 => c03_on(c, &m, k),
            _ => Ok(()),
        },
        3 => match spd_case::<S>(c, sc) {
            Some(m) if m.r <= 24 => c05_on(c, &m),
            _ => Ok(()),
        },
        4 => match spd_case::<S>(c, sc) {
            Some(m) if m.r <= 24 => c07_on(c, &m),
            _ => Ok(()),
        },
        5 => c09_t::<S>(c),
        6 => {
            let m = sym_s::<S>(c, d, sc);
            c.nontrivial = true;
            c10_on(c, &m)
        }
        7 => {
            let m = rect_s::<S>(c, d, d2, sc);
            c.nontrivial = true;
            c11_on(c, &m)
        }
        8 => {
            let m = sym_s::<S>(c, d, sc);
            c.nontrivial = true;
            c12_on(c, &m)
        }
        9 => {
            let m = rect_s::<S>(c, d, d2, sc);
            c.nontrivial = true;
            c13_on(c, &m)
        }
        10 => {
            c.nontrivial = true;
            if c.rng.chance(0.5) {
                let m = sym_s::<S>(c, d, sc);
                c14_eig(c, &m)
            } else {
                let m = rect_s::<S>(c, d, d2, sc);
                c14_svd(c, &m)
            }
        }
        11 => c15_t::<S>(c),
        12 => c27_t::<S>(c),
        _ => c28_t::<S>(c),
    }
}

// ------------------------------------------------------------------------------------------ C30
pub fn c30(c: &mut Ctx) -> R {
    let k = c.std_sk();
    by_scalar!(c, c30_t, k)
}
/// All layouts times all storage kinds for one routine and one matrix.
macro_rules! all_storages {
    ($c:expr, $m:expr, $a:ident, $nm:ident => $body:expr) => {{
        for lay in LAYOUTS {
            for st in 0..4 {
                let base = layout($m, lay, S::nan());
                let $nm = format!("{lay}/{}", ["owned", "viewmut", "shared", "cow"][st]);
                match st {
                    0 => {
                        #[allow(unused_mut)]
                        let mut $a = base;
                        $body
                    }
                    1 => {
                        let mut base = base;
                        #[allow(unused_mut)]
                        let mut $a = base.view_mut();
                        $body
                    }
                    2 => {
                        let sh = base.into_shared();
                        #[allow(unused_mut)]
                        let mut $a = sh.clone();
                        $body
                        $c.check("shared copy modified", Mat::of_arr(&sh).d.iter().zip(&$m.d).all(|(x, y)| x.bits() == y.bits()), || "the other handle of a shared array changed".into())?;
                    }
                    _ => {
                        {
                            #[allow(unused_mut)]
                            let mut $a = ndarray::CowArray::from(base.view());
                            $body
                        }
                        $c.check("borrowed data modified", Mat::of_arr(&base).d.iter().zip(&$m.d).all(|(x, y)| x.bits() == y.bits()), || "data behind a copy-on-write array changed".into())?;
                    }
                }
                $c.ev("storage/layout combinations");
            }
        }
    }};
}
pub fn c30_t<S: Sc>(c: &mut Ctx) -> R {
    let n = 1 + {
        let b = match c.rng.below(1000) {
            0..=9 => 110,
            10..=110 => 25,
            _ => 9,
        };
        c.rng.below(b)
    };
    let k = if c.rng.chance(0.3) {
        n
    } else {
        1 + c.rng.below(9)
    };
    let w = c.rng.below(12);
    c.nontrivial = true;
    match w {
        0 => {
            c.ev("qr");
            let m = rect_s::<S>(c, n.max(k), n.min(k), Scale::Mild);
            let o = or(&m);
            all_storages!(c, &m, a, nm => {
                let (q, r) = c.ok("qr_into", n, || a.qr_into().map(|d| d.into_decomp()))?;
                qr_ok(c, &o, &q, &r).map_err(|v| tagged(v, &nm))?;
            });
        }
        1 | 2 => {
            c.ev("least squares / solve");
            let Some((m, kk)) = full_rank::<S>(c, Scale::Mild) else {
                return Ok(());
            };
            if m.r.max(m.c) > 25 {
                return Ok(());
            }
            let b = rhs::<S>(c, m.r, 2, m.maxexp());
            let o = or(&m);
            let big = m.r.max(m.c);
            let mut first: Option<Dm> = None;
            all_storages!(c, &m, a, nm => {
                let (bl, _) = rand_layout(&b, &mut c.rng);
                let x = c.ok("least_squares", big, || a.least_squares(&bl)).map_err(|v| tagged(v, &nm))?;
                shape_is(c, "least_squares", &x, m.c, 2).map_err(|v| tagged(v, &nm))?;
                finite2(c, "least_squares", &x)?;
                if m.r == m.c {
                    solve_ok(c, "least_squares", &o, &x, &b).map_err(|v| tagged(v, &nm))?;
                }
                for j in 0..2 {
                    let eb = -col_exp(&b, j) ;
                    let xd = Dm::from_fn(m.c, 1, |i, _| x[(i, j)].dd(eb - o.e));
                    if j == 0 {
                        match &first {
                            None => first = Some(xd),
                            Some(f) => {
                                // forward errors of a backward stable solver
                                let d = f.sub(&xd).fro();
                                let bn = Dm::from_fn(b.r, 1, |i, _| b.at(i, 0).dd(eb)).fro();
                                let t = K_SOLVE * S::EPS * dims(m.r, m.c) * (kk * f.fro() + kk * kk * bn / o.n);
                                c.le("solutions agree across layouts", d, t).map_err(|v| tagged(v, &nm))?;
                            }
                        }
                    }
                }
            });
        }
        3 => {
            c.ev("cholesky");
            let m = spd_s::<S>(c, n, 1e3, Scale::Mild);
            all_storages!(c, &m, a, nm => {
                let l = c.ok("cholesky_into", n, || a.cholesky_into().map(|x| x.to_owned())).map_err(|v| tagged(v, &nm))?;
                chol_ok(c, "cholesky_into", &m, &l, true).map_err(|v| tagged(v, &nm))?;
            });
        }
        4 => {
            c.ev("solvec / invc");
            let m = spd_s::<S>(c, n, 1e3, Scale::Mild);
            let b = rhs::<S>(c, n, 2, m.maxexp());
            let o = or(&m);
            all_storages!(c, &m, a, nm => {
                let (bl, _) = rand_layout(&b, &mut c.rng);
                let x = store_into!(c, &Mat::of_arr(&bl), bb => c.ok("solvec_into", n, || a.solvec_into(bb).map(|x| x.to_owned())).map_err(|v| tagged(v, &nm))?);
                solve_ok(c, "solvec_into", &o, &x, &b).map_err(|v| tagged(v, &nm))?;
            });
        }
        5 => {
            c.ev("triangular");
            let m = rect_s::<S>(c, n, n, Scale::Mild);
            let m = Mat::from_fn(n, n, |i, j| {
                if i == j {
                    S::of(crate::dd::ldexp(1.5, m.maxexp()))
                } else {
                    m.at(i, j)
                }
            });
            let up = if c.rng.chance(0.5) {
                UPLO::Upper
            } else {
                UPLO::Lower
            };
            let b = rhs::<S>(c, n, 2, m.maxexp());
            let mut first: Option<Array2<S>> = None;
            all_storages!(c, &m, a, nm => {
                let (bl, _) = rand_layout(&b, &mut c.rng);
                let x = c.ok("solve_triangular", n, || a.solve_triangular(&bl, up)).map_err(|v| tagged(v, &nm))?;
                let t = c.ok("into_triangular", n, || a.into_triangular(up).map(|x| x.to_owned())).map_err(|v| tagged(v, &nm))?;
                let good = (0..n).all(|i| (0..n).all(|j| {
                    let on = if up == UPLO::Upper { i <= j } else { i >= j };
                    if on { t[(i, j)].bits() == m.at(i, j).bits() } else { t[(i, j)].is_zero() }
                }));
                c.check("into_triangular", good, || format!("{nm}: wrong extraction"))?;
                match &first {
                    None => first = Some(x),
                    Some(f) => {
                        if all_finite(f) && all_finite(&x) {
                            for j in 0..2 {
                                let ex = f.column(j).iter().map(|v| v.dd(0).to_f64().abs()).fold(0.0, f64::max);
                                let ee = -crate::dd::exponent(ex);
                                let t = Dm::from_fn(n, n, |i, l| if (up == UPLO::Upper && i <= l) || (up == UPLO::Lower && i >= l) { m.at(i, l).dd(-m.maxexp()) } else { DD::ZERO });
                                // compare through the residual: T (x - f) is small
                                let d = Dm::from_fn(n, 1, |i, _| f[(i, j)].dd(ee) - x[(i, j)].dd(ee));
                                let r = t.mul(&d).fro();
                                c.le("solutions agree across layouts", r, 16.0 * S::EPS * dims(n, n) * t.fro() * 2.0).map_err(|v| tagged(v, &nm))?;
                            }
                        }
                    }
                }
            });
        }
        6 => {
            c.ev("tridiagonal");
            let m = sym_s::<S>(c, n, Scale::Mild);
            let o = or(&m);
            all_storages!(c, &m, a, nm => {
                let d = c.ok("sym_tridiagonal", n, || a.sym_tridiagonal()).map_err(|v| tagged(v, &nm))?;
                let q = d.generate_q();
                let t = d.into_tridiag_matrix().to_owned();
                let dd: Array1<S> = (0..n).map(|i| t[(i, i)]).collect();
                let oo: Array1<S> = (1..n).map(|i| t[(i, i - 1)]).collect();
                tridiag_ok(c, &o, &q, &t, &dd, &oo).map_err(|v| tagged(v, &nm))?;
            });
        }
        7 => {
            c.ev("bidiagonal");
            let m = rect_s::<S>(c, n, k, Scale::Mild);
            let o = or(&m);
            all_storages!(c, &m, a, nm => {
                let d = c.ok("bidiagonal", n.max(k), || a.bidiagonal()).map_err(|v| tagged(v, &nm))?;
                let (up, u, vt, b) = (d.is_upper_diag(), d.generate_u(), d.generate_vt(), d.into_b());
                let kk = b.nrows();
                let dd: Array1<S> = (0..kk).map(|i| b[(i, i)]).collect();
                let oo: Array1<S> = (1..kk).map(|i| if up { b[(i - 1, i)] } else { b[(i, i - 1)] }).collect();
                bidiag_ok(c, &o, up, &u, &b, &vt, &dd, &oo).map_err(|v| tagged(v, &nm))?;
            });
        }
        8 | 9 => {
            c.ev("eigh");
            let m = sym_s::<S>(c, n, Scale::Mild);
            let o = or(&m);
            let mut first: Option<Array1<S>> = None;
            all_storages!(c, &m, a, nm => {
                let (v, x) = c.ok("eigh_into", n, || a.eigh_into()).map_err(|v| tagged(v, &nm))?;
                eig_ok(c, &o, &v, &x).map_err(|v| tagged(v, &nm))?;
                match &first {
                    None => first = Some(v),
                    Some(f) => multiset_close(c, "eigenvalues agree across layouts", f, &v, o.e, o.n, dims(n, n), K_EIG).map_err(|v| tagged(v, &nm))?,
                }
            });
        }
        10 => {
            c.ev("svd");
            let m = rect_s::<S>(c, n, k, Scale::Mild);
            let o = or(&m);
            let mut first: Option<Array1<S>> = None;
            all_storages!(c, &m, a, nm => {
                let (u, s, vt) = c.ok("svd_into", n.max(k), || a.svd_into(true, true)).map_err(|v| tagged(v, &nm))?;
                let (Some(u), Some(vt)) = (u, vt) else { return c.viol("svd/factor-missing", nm) };
                svd_ok(c, &o, &u, &s, &vt).map_err(|v| tagged(v, &nm))?;
                match &first {
                    None => first = Some(s),
                    Some(f) => multiset_close(c, "singular values agree across layouts", f, &s, o.e, o.n, dims(n, k), K_SVD).map_err(|v| tagged(v, &nm))?,
                }
            });
        }
        _ => {
            c.ev("by-reference and rejection outcomes");
            // outcomes (error kinds) must not depend on storage: zero column, not SPD, wrong shapes
            let mut m = rect_s::<S>(c, n, n, Scale::Mild);
            let z = c.rng.below(n);
            (0..n).for_each(|i| m.set(i, z, S::zero()));
            let b = rhs::<S>(c, n, 1, 0).arr();
            all_storages!(c, &m, a, nm => {
                let x = c.call("qr.solve", n, || a.qr().and_then(|d| d.solve(&b)))?;
                c.check("singular outcome", matches!(x, Err(LinalgError::NonInvertible)), || format!("{nm}: {:?}", x.err()))?;
                let x = c.call("cholesky", n, || a.cholesky())?;
                let nan = x.as_ref().map(|l| (0..n).any(|i| (0..=i).any(|j| l[(i, j)].is_nan()))).unwrap_or(false);
                c.check("singular outcome", !nan, || format!("{nm}: NaN factor"))?;
                let l1 = a.norm_max();
                let w = m.d.iter().fold(S::zero(), |p, q| if q.abs() > p { q.abs() } else { p });
                c.check("norm_max", l1 == w, || format!("{nm}: {l1:e} {w:e}"))?;
                let x = c.ok("svd", n, || a.svd(false, false))?;
                svals_ok(c, n, &x.1)?;
                let _ = store_ref!(c, &m, y => c.ok("svd", n, || y.svd(true, false))?);
            });
        }
    }
    Ok(())
}
fn tagged(mut v: Viol, nm: &str) -> Viol {
    v.msg = format!("{nm}: {}", v.msg);
    v
}
