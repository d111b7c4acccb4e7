//! Matrix generators. Everything is produced in f64 first and converted to the scalar afterwards.
use crate::ctx::{Ctx, Rng};
use crate::mat::Mat;
use crate::sc::Sc;

type M = Mat<f64>;

pub fn spectrum(rng: &mut Rng, n: usize, signed: bool) -> Vec<f64> {
    let k = rng.below(13);
    let span = *rng.pick(&[1.0, 3.0, 6.0, 10.0, 16.0, 30.0]);
    let mut v: Vec<f64> = match k {
        0 => (0..n).map(|_| rng.f()).collect(),
        1 => (0..n)
            .map(|i| 10f64.powf(-span * i as f64 / n.max(1) as f64))
            .collect(),
        2 => vec![1.0; n],
        3 => (0..n)
            .map(|i| if i == 0 { 1.0 } else { 10f64.powf(-span) })
            .collect(),
        4 => (0..n)
            .map(|i| if i + 1 == n { 10f64.powf(-span) } else { 1.0 })
            .collect(),
        5 => (0..n).map(|i| 1.0 + i as f64).collect(),
        6 => {
            let m = 1 + rng.below(3);
            let c: Vec<f64> = (0..m).map(|_| rng.f() * 4.0).collect();
            (0..n).map(|_| *rng.pick(&c)).collect()
        }
        7 => {
            let m = 1 + rng.below(3);
            let c: Vec<f64> = (0..m).map(|_| rng.f() * 4.0).collect();
            let d = 10f64.powf(-(rng.f() * 15.0));
            (0..n).map(|_| *rng.pick(&c) + d * rng.sf()).collect()
        }
        8 => {
            let z = rng.below(n + 1);
            (0..n)
                .map(|i| if i < z { 0.0 } else { rng.f() + 0.1 })
                .collect()
        }
        9 => (0..n)
            .map(|i| 1.0 - i as f64 * 10f64.powf(-span) / n as f64)
            .collect(),
        10 => (0..n).map(|_| 10f64.powf(-span * rng.f())).collect(),
        11 => (0..n)
            .map(|i| {
                if i % 2 == 0 {
                    1.0
                } else {
                    1.0 + f64::EPSILON * (rng.below(8) as f64)
                }
            })
            .collect(),
        _ => (0..n).map(|i| (i / 2) as f64 + 1.0).collect(),
    };
    if signed {
        match rng.below(3) {
            0 => {}
            1 => v.iter_mut().for_each(|x| *x *= rng.sign()),
            _ => v.iter_mut().enumerate().for_each(|(i, x)| {
                if i % 2 == 1 {
                    *x = -*x
                }
            }),
        }
    }
    rng.shuffle(&mut v);
    v
}

/// apply `k` random Householder reflections from the left (in f64)
fn reflect_left(m: &mut M, rng: &mut Rng, k: usize) {
    for _ in 0..k {
        let v: Vec<f64> = (0..m.r).map(|_| rng.normal()).collect();
        let nn: f64 = v.iter().map(|x| x * x).sum();
        if nn == 0.0 {
            continue;
        }
        for j in 0..m.c {
            let d: f64 = (0..m.r).map(|i| v[i] * m.at(i, j)).sum::<f64>() * 2.0 / nn;
            for i in 0..m.r {
                let x = m.at(i, j) - d * v[i];
                m.set(i, j, x);
            }
        }
    }
}
pub fn orthogonal(rng: &mut Rng, n: usize) -> M {
    let mut m = eye(n);
    let k = if n > 40 { 3 } else { n.min(8) };
    reflect_left(&mut m, rng, k);
    m
}
pub fn eye(n: usize) -> M {
    Mat::from_fn(n, n, |i, j| (i == j) as u8 as f64)
}
pub fn mul(a: &M, b: &M) -> M {
    let mut m = Mat {
        r: a.r,
        c: b.c,
        d: vec![0.0; a.r * b.c],
    };
    for i in 0..a.r {
        for k in 0..a.c {
            let x = a.at(i, k);
            for j in 0..b.c {
                m.d[i * b.c + j] += x * b.at(k, j);
            }
        }
    }
    m
}
pub fn from_svd(rng: &mut Rng, r: usize, c: usize, s: &[f64]) -> M {
    let mut m = Mat::from_fn(r, c, |i, j| if i == j { s[i] } else { 0.0 });
    let k = if r.max(c) > 40 { 3 } else { r.max(c).min(6) };
    reflect_left(&mut m, rng, k);
    let mut t = m.t();
    reflect_left(&mut t, rng, k);
    t.t()
}
pub fn from_eig(rng: &mut Rng, e: &[f64]) -> M {
    let n = e.len();
    let mut m = Mat::from_fn(n, n, |i, j| if i == j { e[i] } else { 0.0 });
    let k = if n > 40 { 3 } else { n.min(6) };
    for _ in 0..k {
        let v: Vec<f64> = (0..n).map(|_| rng.normal()).collect();
        let nn: f64 = v.iter().map(|x| x * x).sum();
        for _ in 0..2 {
            for j in 0..n {
                let d: f64 = (0..n).map(|i| v[i] * m.at(i, j)).sum::<f64>() * 2.0 / nn;
                for i in 0..n {
                    let x = m.at(i, j) - d * v[i];
                    m.set(i, j, x);
                }
            }
            m = m.t();
        }
    }
    symmetrise(&m)
}
pub fn symmetrise(m: &M) -> M {
    Mat::from_fn(m.r, m.r, |i, j| {
        let (a, b) = if i < j { (i, j) } else { (j, i) };
        0.5 * m.at(a, b) + 0.5 * m.at(b, a)
    })
}
fn tiny(rng: &mut Rng) -> f64 {
    let r = *rng.pick(&[4.0, 9.0, 17.0, 40.0, 170.0, 300.0]);
    rng.sign() * 10f64.powf(-r * rng.f())
}

pub fn rect(rng: &mut Rng, r: usize, c: usize) -> (M, &'static str) {
    let d = r.min(c);
    match rng.below(32) {
        0 | 1 => (Mat::from_fn(r, c, |_, _| rng.sf()), "uniform"),
        2 => (Mat::from_fn(r, c, |_, _| rng.normal()), "normal"),
        3 => {
            let k = *rng.pick(&[1, 2, 3, 9]);
            (
                Mat::from_fn(r, c, |_, _| rng.range(-k, k) as f64),
                "small-int",
            )
        }
        4 => {
            let p = *rng.pick(&[0.1, 0.3, 0.6]);
            (
                Mat::from_fn(r, c, |_, _| if rng.chance(p) { rng.sf() } else { 0.0 }),
                "sparse",
            )
        }
        5 => {
            let k = rng.below(d.max(1)).max(1);
            let a = Mat::from_fn(r, k, |_, _| rng.range(-2, 2) as f64);
            let b = Mat::from_fn(k, c, |_, _| rng.range(-2, 2) as f64);
            (mul(&a, &b), "int-lowrank")
        }
        6 => {
            let k = rng.below(d.max(1)).max(1);
            let a = Mat::from_fn(r, k, |_, _| rng.normal());
            let b = Mat::from_fn(k, c, |_, _| rng.normal());
            let mut m = mul(&a, &b);
            if rng.chance(0.5) {
                let t = tiny(rng);
                m.d.iter_mut().for_each(|x| *x += t * rng.sf());
            }
            (m, "lowrank")
        }
        7 => {
            let g = *rng.pick(&[0.3, 1.0, 3.0, 12.0, 40.0]);
            let (a, b) = (rng.range(-1, 1) as f64, rng.range(-1, 1) as f64);
            (
                Mat::from_fn(r, c, |i, j| {
                    let e = (g * (a * i as f64 + b * j as f64)).clamp(-290.0, 0.0)
                        + (g * (a.min(0.0) * 0.0));
                    rng.sf() * 10f64.powf(e)
                }),
                "graded",
            )
        }
        8 | 9 => {
            let s = spectrum(rng, d, false);
            (from_svd(rng, r, c, &s), "spectrum")
        }
        10 => (
            Mat::from_fn(r, c, |i, j| {
                if i == j && rng.chance(0.8) {
                    rng.sf() * 3.0
                } else {
                    0.0
                }
            }),
            "diagonal",
        ),
        11 => {
            let t = tiny(rng).abs();
            (
                Mat::from_fn(r, c, |i, j| if i == j { rng.sf() } else { t * rng.sf() }),
                "near-diagonal",
            )
        }
        12 => {
            let low = rng.chance(0.5);
            (
                Mat::from_fn(r, c, |i, j| {
                    let on = i == j || (if low { i == j + 1 } else { i + 1 == j });
                    if !on {
                        0.0
                    } else {
                        match rng.below(6) {
                            0 => 0.0,
                            1 => tiny(rng),
                            2 => 1.0,
                            _ => rng.sf(),
                        }
                    }
                }),
                "bidiagonal",
            )
        }
        13 => {
            let low = rng.chance(0.5);
            (
                Mat::from_fn(r, c, |i, j| {
                    if (low && i >= j) || (!low && i <= j) {
                        rng.sf()
                    } else {
                        0.0
                    }
                }),
                "triangular",
            )
        }
        14 => (
            Mat::from_fn(r, c, |i, j| if i <= j + 1 { rng.sf() } else { 0.0 }),
            "hessenberg",
        ),
        15 => (Mat::from_fn(r, c, |_, _| 0.0), "zero"),
        16 => {
            let k = *rng.pick(&[1.0, -1.0, 0.1, 7.0]);
            (Mat::from_fn(r, c, |_, _| k), "constant")
        }
        17 => {
            let mut p: Vec<usize> = (0..r.max(c)).collect();
            rng.shuffle(&mut p);
            let s: Vec<f64> = (0..r).map(|_| rng.sign()).collect();
            (
                Mat::from_fn(r, c, |i, j| if p[i] == j { s[i] } else { 0.0 }),
                "permutation",
            )
        }
        18 => {
            let mut m = Mat::from_fn(r, c, |_, _| rng.normal());
            for _ in 0..1 + rng.below(2) {
                if rng.chance(0.5) && r > 0 {
                    let i = rng.below(r);
                    (0..c).for_each(|j| m.set(i, j, 0.0));
                } else if c > 0 {
                    let j = rng.below(c);
                    (0..r).for_each(|i| m.set(i, j, 0.0));
                }
            }
            (m, "zero-lines")
        }
        19 => {
            let mut m = Mat::from_fn(r, c, |_, _| rng.sf());
            if c > 1 {
                let (a, b) = (rng.below(c), rng.below(c));
                let k = *rng.pick(&[1.0, -1.0, 2.0, 0.3]);
                let t = if rng.chance(0.4) { tiny(rng) } else { 0.0 };
                for i in 0..r {
                    let x = m.at(i, a) * k + t * rng.sf();
                    m.set(i, b, x);
                }
            }
            (m, "dup-columns")
        }
        20 | 21 => named(rng, r, c),
        22 => {
            let b = 1 + rng.below(4);
            (
                Mat::from_fn(r, c, |i, j| if i / b == j / b { rng.sf() } else { 0.0 }),
                "block-diagonal",
            )
        }
        23 => {
            let k = *rng.pick(&[3.0, 8.0, 20.0, 100.0, 150.0]);
            (
                Mat::from_fn(r, c, |_, _| rng.sign() * 10f64.powf(k * rng.sf())),
                "log-uniform",
            )
        }
        24 => {
            let q = orthogonal(rng, r.max(c));
            (Mat::from_fn(r, c, |i, j| q.at(i, j)), "orthogonal")
        }
        25 => {
            let p = rng.f();
            (
                Mat::from_fn(r, c, |_, _| {
                    if rng.chance(p) {
                        0.0 * rng.sign()
                    } else {
                        rng.range(-2, 2) as f64
                    }
                }),
                "signed-zeros",
            )
        }
        26 => {
            let k = rng.below((r * c).max(1));
            (
                Mat::from_fn(r, c, |i, j| if i * c + j == k { 1.5 } else { 0.0 }),
                "single-entry",
            )
        }
        27 => {
            let u: Vec<f64> = (0..r).map(|_| rng.range(-3, 3) as f64).collect();
            let v: Vec<f64> = (0..c).map(|_| rng.range(-3, 3) as f64).collect();
            (Mat::from_fn(r, c, |i, j| u[i] * v[j]), "rank-one")
        }
        28 => {
            let l = *rng.pick(&[0.0, 1.0, 0.5, 1e-9]);
            (
                Mat::from_fn(r, c, |i, j| {
                    if i == j {
                        l
                    } else if j == i + 1 {
                        1.0
                    } else {
                        0.0
                    }
                }),
                "jordan",
            )
        }
        29 => {
            let t = tiny(rng).abs().max(1e-16);
            let u: Vec<f64> = (0..r).map(|_| rng.sf()).collect();
            (
                Mat::from_fn(r, c, |i, _| u[i] * (1.0 + t * rng.sf())),
                "parallel-columns",
            )
        }
        30 => (Mat::from_fn(r, c, |_, _| rng.sign()), "plus-minus-one"),
        _ => {
            let mut m = Mat::from_fn(r, c, |_, _| rng.sf());
            for x in m.d.iter_mut() {
                if rng.chance(0.3) {
                    *x = *rng.pick(&[
                        5e-324, -5e-324, 1e-310, 1e-160, -1e-155, 1e-100, 1e-30, 0.0, -0.0,
                    ]);
                }
            }
            (m, "tiny-sprinkle")
        }
    }
}

fn named(rng: &mut Rng, r: usize, c: usize) -> (M, &'static str) {
    let n = r.max(c);
    match rng.below(11) {
        0 => (
            Mat::from_fn(r, c, |i, j| 1.0 / (i + j + 1) as f64),
            "hilbert",
        ),
        1 => {
            let x: Vec<f64> = (0..r)
                .map(|i| 2.0 * i as f64 / r.max(2) as f64 - 1.0 + 0.01 * rng.sf())
                .collect();
            (
                Mat::from_fn(r, c, |i, j| x[i].powi(j as i32)),
                "vandermonde",
            )
        }
        2 => {
            let t: Vec<f64> = (0..r + c).map(|_| rng.sf()).collect();
            (Mat::from_fn(r, c, |i, j| t[i + c - j]), "toeplitz")
        }
        3 => {
            let th: f64 = 0.5 + rng.f();
            let (s, k) = (th.sin(), th.cos());
            (
                Mat::from_fn(r, c, |i, j| {
                    if i > j {
                        0.0
                    } else {
                        s.powi(i as i32) * if i == j { 1.0 } else { -k }
                    }
                }),
                "kahan",
            )
        }
        4 => (
            Mat::from_fn(r, c, |i, j| {
                if j + 1 < i {
                    0.0
                } else {
                    (n - i.max(j)) as f64
                }
            }),
            "frank",
        ),
        5 => (
            Mat::from_fn(r, c, |i, j| {
                if (i & j).count_ones() % 2 == 0 {
                    1.0
                } else {
                    -1.0
                }
            }),
            "hadamard",
        ),
        6 => (
            Mat::from_fn(r, c, |i, j| {
                if i == j {
                    (i as f64 - (n - 1) as f64 / 2.0).abs()
                } else if i.abs_diff(j) == 1 {
                    1.0
                } else {
                    0.0
                }
            }),
            "wilkinson",
        ),
        7 => (
            Mat::from_fn(r, c, |i, j| {
                if i == j {
                    2.0
                } else if i.abs_diff(j) == 1 {
                    -1.0
                } else {
                    0.0
                }
            }),
            "laplacian",
        ),
        8 => (
            Mat::from_fn(r, c, |i, j| {
                if i == 0 || j == 0 || i == j {
                    1.0 + (i + j) as f64
                } else {
                    0.0
                }
            }),
            "arrow",
        ),
        9 => (Mat::from_fn(r, c, |i, j| i.min(j) as f64 + 1.0), "minij"),
        _ => {
            let rho = *rng.pick(&[0.5, 0.9, 0.999, -0.7]);
            let rho: f64 = rho;
            (
                Mat::from_fn(r, c, |i, j| rho.powi(i.abs_diff(j) as i32)),
                "ar1",
            )
        }
    }
}

pub fn sym(rng: &mut Rng, n: usize) -> (M, &'static str) {
    match rng.below(20) {
        0..=6 => {
            let (m, t) = rect(rng, n, n);
            (symmetrise(&m), t)
        }
        7..=9 => {
            let e = spectrum(rng, n, true);
            (from_eig(rng, &e), "eig-spectrum")
        }
        10 => {
            let e = spectrum(rng, n, true);
            (
                Mat::from_fn(n, n, |i, j| if i == j { e[i] } else { 0.0 }),
                "sym-diagonal",
            )
        }
        11 | 12 => {
            let d: Vec<f64> = (0..n)
                .map(|_| match rng.below(5) {
                    0 => 0.0,
                    1 => 1.0,
                    2 => tiny(rng),
                    _ => rng.sf() * 2.0,
                })
                .collect();
            let o: Vec<f64> = (0..n)
                .map(|_| match rng.below(6) {
                    0 => 0.0,
                    1 => tiny(rng),
                    2 => 1.0,
                    _ => rng.sf(),
                })
                .collect();
            (
                Mat::from_fn(n, n, |i, j| {
                    if i == j {
                        d[i]
                    } else if i.abs_diff(j) == 1 {
                        o[i.min(j)]
                    } else {
                        0.0
                    }
                }),
                "sym-tridiagonal",
            )
        }
        13 => {
            // graph adjacency / Laplacian
            let p = rng.f();
            let mut m = Mat::from_fn(n, n, |_, _| 0.0);
            for i in 0..n {
                for j in i + 1..n {
                    if rng.chance(p) {
                        m.set(i, j, 1.0);
                        m.set(j, i, 1.0);
                    }
                }
            }
            if rng.chance(0.5) {
                for i in 0..n {
                    let s: f64 = (0..n).map(|j| m.at(i, j)).sum();
                    (0..n).for_each(|j| {
                        if m.at(i, j) != 0.0 {
                            m.set(i, j, -1.0)
                        }
                    });
                    m.set(i, i, s);
                }
            }
            (m, "graph")
        }
        14 => {
            // D^T * S * D, graded in the opposite order too
            let g = *rng.pick(&[1.0, 3.0, 9.0, 20.0, 60.0]);
            let inc = rng.chance(0.5);
            let s: Vec<f64> = (0..n)
                .map(|i| {
                    10f64.powf(-(g * if inc { (n - 1 - i) as f64 } else { i as f64 }).min(140.0))
                })
                .collect();
            let b = Mat::from_fn(n, n, |_, _| rng.sf());
            let b = symmetrise(&b);
            (
                Mat::from_fn(n, n, |i, j| b.at(i, j) * s[i] * s[j]),
                "sym-graded",
            )
        }
        15 => {
            let k = 1 + rng.below(n);
            let b = Mat::from_fn(n, k, |_, _| rng.range(-2, 2) as f64);
            (mul(&b, &b.t()), "gram-int")
        }
        16 => {
            // glued pairs: [[0,a],[a,0]] and nearly equal diagonals coupled by tiny entries
            let t = tiny(rng);
            let b = rng.sf();
            let v: Vec<f64> = (0..n)
                .map(|_| b + if rng.chance(0.5) { t * rng.sf() } else { 0.0 })
                .collect();
            let mut m = Mat::from_fn(n, n, |i, j| if i == j { v[i] } else { 0.0 });
            for i in 1..n {
                if rng.chance(0.7) {
                    let x = t * rng.sf();
                    m.set(i, i - 1, x);
                    m.set(i - 1, i, x);
                }
            }
            (m, "near-multiple")
        }
        17 => {
            // [[0 B],[B^T 0]]: exactly paired spectrum
            let k = n / 2;
            let b = Mat::from_fn(n, n, |i, j| if i < k && j >= k { rng.sf() } else { 0.0 });
            (
                Mat::from_fn(n, n, |i, j| b.at(i, j) + b.at(j, i)),
                "bipartite",
            )
        }
        18 => {
            let t = tiny(rng);
            let b = Mat::from_fn(n, n, |_, _| rng.sf());
            let b = symmetrise(&b);
            (
                Mat::from_fn(n, n, |i, j| (i == j) as u8 as f64 + t * b.at(i, j)),
                "identity-plus-tiny",
            )
        }
        _ => {
            let p = rng.below(n.max(1));
            (
                Mat::from_fn(n, n, |i, j| {
                    if (i, j) == (p, n - 1 - p) || (j, i) == (p, n - 1 - p) {
                        1.0
                    } else {
                        0.0
                    }
                }),
                "pair",
            )
        }
    }
}

/// Symmetric positive definite with condition number at most about `kmax`.
pub fn spd(rng: &mut Rng, n: usize, kmax: f64) -> (M, &'static str) {
    let lk = kmax.log10();
    match rng.below(10) {
        0..=3 => {
            let k = 10f64.powf(-lk * rng.f() * 0.95);
            let mut e: Vec<f64> = spectrum(rng, n, false);
            let mx = e.iter().cloned().fold(0.0, f64::max).max(1e-300);
            e.iter_mut().for_each(|x| *x = (*x / mx).max(k));
            (from_eig(rng, &e), "spd-spectrum")
        }
        4 => {
            let b = Mat::from_fn(n, n + 2, |_, _| rng.normal());
            let mut m = mul(&b, &b.t());
            (0..n).for_each(|i| m.d[i * n + i] += 0.1 * n as f64);
            (symmetrise(&m), "spd-gram")
        }
        5 => (
            Mat::from_fn(n, n, |i, j| {
                if i == j {
                    10f64.powf(-lk * rng.f() * 0.95)
                } else {
                    0.0
                }
            }),
            "spd-diagonal",
        ),
        6 => (
            Mat::from_fn(n, n, |i, j| {
                if i == j {
                    2.0 + 0.01
                } else if i.abs_diff(j) == 1 {
                    -1.0
                } else {
                    0.0
                }
            }),
            "spd-laplacian",
        ),
        7 => {
            // exact integer L L^T
            let l = Mat::from_fn(n, n, |i, j| {
                if i == j {
                    1.0 + rng.below(2) as f64
                } else if i > j && i - j < 4 {
                    rng.range(-1, 1) as f64
                } else {
                    0.0
                }
            });
            (mul(&l, &l.t()), "spd-int")
        }
        8 => {
            // graded: D C D with well-conditioned C
            let g = rng.f() * lk * 0.4 / n.max(1) as f64;
            let b = Mat::from_fn(n, n, |_, _| rng.sf());
            let b = symmetrise(&b);
            (
                Mat::from_fn(n, n, |i, j| {
                    (if i == j {
                        1.0
                    } else {
                        0.5 * b.at(i, j) / n as f64
                    }) * 10f64.powf(-g * (i + j) as f64)
                }),
                "spd-graded",
            )
        }
        _ => {
            let b = Mat::from_fn(n, n, |_, _| rng.range(-2, 2) as f64);
            let b = symmetrise(&b);
            (
                Mat::from_fn(n, n, |i, j| {
                    if i == j {
                        (0..n).map(|k| b.at(i, k).abs()).sum::<f64>() + 1.0
                    } else {
                        b.at(i, j)
                    }
                }),
                "spd-dominant",
            )
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Scale {
    One,
    Mild,
    Wide,
}

/// Converts to the scalar type, applying a power-of-two scale. `symm` keeps exact symmetry.
pub fn finish<S: Sc>(c: &mut Ctx, m: M, symm: bool, sc: Scale) -> Mat<S> {
    let mx = m.d.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let e2 = |d: i32| (d as f64 * std::f64::consts::LOG2_10) as i32;
    let mut e = 0;
    if mx > 0.0 {
        let ex = crate::dd::exponent(mx);
        // keep the largest entry inside the type's safe range
        if ex > e2(S::HI) {
            e = -ex;
        }
        if ex < -e2(S::LO) {
            e = -ex;
        }
        let t = c.rng.below(10);
        match sc {
            Scale::One => {}
            Scale::Mild if t >= 5 => e = -ex + c.rng.range(-20, 20) as i32,
            Scale::Wide if t >= 7 => {
                e = -ex + c.rng.range(-e2(S::LO) as i64, e2(S::HI) as i64) as i32;
                c.class("scale:wide");
            }
            Scale::Wide if t >= 5 => e = -ex + c.rng.range(-20, 20) as i32,
            _ => {}
        }
    }
    let noisy = c.rng.chance(0.6);
    let mut out = Mat::<S>::from_fn(m.r, m.c, |_, _| S::of(0.0));
    for i in 0..m.r {
        for j in 0..m.c {
            if symm && j < i {
                let x = out.at(j, i);
                out.set(i, j, x);
                continue;
            }
            let x = crate::dd::ldexp(m.at(i, j), e);
            let v = if noisy {
                S::of_noisy(x, c.rng.sf())
            } else {
                S::of(x)
            };
            out.set(i, j, v);
        }
    }
    out
}

/// Shape with rows >= cols most of the time varied over the aspect ratios.
pub fn tall(c: &mut Ctx) -> (usize, usize) {
    let a = c.dim();
    let b = if c.rng.chance(0.35) { a } else { c.dim() };
    (a.max(b), a.min(b))
}
pub fn any_shape(c: &mut Ctx) -> (usize, usize) {
    let (a, b) = tall(c);
    if c.rng.chance(0.5) {
        (a, b)
    } else {
        (b, a)
    }
}
pub fn rect_s<S: Sc>(c: &mut Ctx, r: usize, k: usize, sc: Scale) -> Mat<S> {
    let (m, t) = rect(&mut c.rng, r, k);
    c.class(&format!("gen:{t}"));
    c.note(format!("{t} {r}x{k} {}", S::NAME));
    let m = finish::<S>(c, m, false, sc);
    c.mix(m.hash());
    m
}
pub fn sym_s<S: Sc>(c: &mut Ctx, n: usize, sc: Scale) -> Mat<S> {
    let (m, t) = sym(&mut c.rng, n);
    c.class(&format!("gen:{t}"));
    c.note(format!("{t} {n}x{n} {}", S::NAME));
    let m = finish::<S>(c, m, true, sc);
    c.mix(m.hash());
    m
}
pub fn spd_s<S: Sc>(c: &mut Ctx, n: usize, kmax: f64, sc: Scale) -> Mat<S> {
    let (m, t) = spd(&mut c.rng, n, kmax);
    c.class(&format!("gen:{t}"));
    c.note(format!("{t} {n}x{n} {}", S::NAME));
    let m = finish::<S>(c, m, true, sc);
    c.mix(m.hash());
    m
}

/// One-sided Jacobi singular values in f64 of the (rescaled) matrix; a reference independent of
/// the crate, accurate to about f64 epsilon relative to the largest.
pub fn sv_ref<S: Sc>(m: &Mat<S>) -> Vec<f64> {
    let e = -m.maxexp();
    let mut a: M = m.map(|x| x.dd(e).to_f64());
    if a.r < a.c {
        a = a.t();
    }
    let (r, c) = (a.r, a.c);
    let mut cols: Vec<Vec<f64>> = (0..c)
        .map(|j| (0..r).map(|i| a.at(i, j)).collect())
        .collect();
    for _ in 0..40 {
        let mut rot = false;
        for p in 0..c {
            for q in p + 1..c {
                let (mut al, mut be, mut ga) = (0.0, 0.0, 0.0);
                for i in 0..r {
                    al += cols[p][i] * cols[p][i];
                    be += cols[q][i] * cols[q][i];
                    ga += cols[p][i] * cols[q][i];
                }
                if ga == 0.0 || ga.abs() <= 1e-15 * (al * be).sqrt() {
                    continue;
                }
                rot = true;
                let z = (be - al) / (2.0 * ga);
                let t = z.signum() / (z.abs() + (1.0 + z * z).sqrt());
                let cs = 1.0 / (1.0 + t * t).sqrt();
                let sn = cs * t;
                for i in 0..r {
                    let (x, y) = (cols[p][i], cols[q][i]);
                    cols[p][i] = cs * x - sn * y;
                    cols[q][i] = sn * x + cs * y;
                }
            }
        }
        if !rot {
            break;
        }
    }
    let mut s: Vec<f64> = cols
        .iter()
        .map(|v| v.iter().map(|x| x * x).sum::<f64>().sqrt())
        .collect();
    s.sort_by(|a, b| b.partial_cmp(a).unwrap());
    s.iter().map(|x| crate::dd::ldexp(*x, -e)).collect()
}
pub fn cond<S: Sc>(m: &Mat<S>) -> f64 {
    let s = sv_ref(m);
    if s.is_empty() {
        return 1.0;
    }
    s[0] / s[s.len() - 1]
}
