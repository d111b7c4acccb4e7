pub mod direct;
#[cfg(feature = "iterative")]
pub mod iter;
pub mod misc;
pub mod spectral;
use crate::ctx::CaseFn;

/// property -> (case function, default cases quick, default cases thorough)
pub const TABLE: &[(&str, CaseFn, u64, u64)] = &[
    #[cfg(feature = "c01")]
    ("C01", direct::c01, 6000, 200_000),
    #[cfg(feature = "c02")]
    ("C02", direct::c02, 6000, 200_000),
    #[cfg(feature = "c03")]
    ("C03", direct::c03, 6000, 200_000),
    #[cfg(feature = "c04")]
    ("C04", direct::c04, 20000, 400_000),
    #[cfg(feature = "c05")]
    ("C05", direct::c05, 6000, 200_000),
    #[cfg(feature = "c06")]
    ("C06", direct::c06, 20000, 400_000),
    #[cfg(feature = "c07")]
    ("C07", direct::c07, 6000, 200_000),
    #[cfg(feature = "c08")]
    ("C08", direct::c08, 20000, 400_000),
    #[cfg(feature = "c09")]
    ("C09", direct::c09, 8000, 300_000),
    #[cfg(feature = "c10")]
    ("C10", direct::c10, 6000, 200_000),
    #[cfg(feature = "c11")]
    ("C11", direct::c11, 6000, 200_000),
    #[cfg(feature = "c12")]
    ("C12", spectral::c12, 10000, 300_000),
    #[cfg(feature = "c13")]
    ("C13", spectral::c13, 10000, 300_000),
    #[cfg(feature = "c14")]
    ("C14", spectral::c14, 5000, 150_000),
    #[cfg(feature = "c15")]
    ("C15", spectral::c15, 5000, 150_000),
    #[cfg(feature = "c16")]
    ("C16", spectral::c16, 20000, 400_000),
    #[cfg(feature = "c17")]
    ("C17", misc::c17, 20000, 400_000),
    #[cfg(feature = "c18")]
    ("C18", misc::c18, 20000, 200_000),
    #[cfg(feature = "c19")]
    ("C19", misc::c19, 10000, 200_000),
    #[cfg(feature = "c20")]
    ("C20", misc::c20, 12000, 200_000),
    #[cfg(feature = "c21")]
    ("C21", misc::c21, 3000, 60_000),
    #[cfg(all(feature = "iterative", feature = "c22"))]
    ("C22", iter::c22, 6000, 100_000),
    #[cfg(all(feature = "iterative", feature = "c23"))]
    ("C23", iter::c23, 3000, 60_000),
    #[cfg(all(feature = "iterative", feature = "c24"))]
    ("C24", iter::c24, 2000, 40_000),
    #[cfg(all(feature = "iterative", feature = "c25"))]
    ("C25", iter::c25, 2000, 40_000),
    #[cfg(all(feature = "iterative", feature = "c26"))]
    ("C26", iter::c26, 4000, 80_000),
    #[cfg(feature = "c27")]
    ("C27", misc::c27, 20000, 400_000),
    #[cfg(feature = "c28")]
    ("C28", misc::c28, 20000, 400_000),
    #[cfg(feature = "c29")]
    ("C29", misc::c29, 3000, 60_000),
    #[cfg(feature = "c30")]
    ("C30", misc::c30, 1500, 40_000),
    #[cfg(all(feature = "iterative", feature = "c31"))]
    ("C31", iter::c31, 4000, 80_000),
];
pub fn find(id: &str) -> Option<(&'static str, CaseFn, u64, u64)> {
    TABLE.iter().find(|t| t.0 == id).copied()
}

/// Evaluate `$body` with `$a` bound to the matrix in a random memory layout and a random storage
/// kind that allows mutation. Shared storage is checked not to leak the mutation.
#[macro_export]
macro_rules! store_into {
    ($c:expr, $m:expr, $a:ident => $body:expr) => {{
        let (base, lay) = $crate::mat::rand_layout($m, &mut $c.rng);
        $c.class(&format!("layout:{lay}"));
        match $c.rng.below(6) {
            0..=2 => {
                $c.class("store:owned");
                #[allow(unused_mut)]
                let mut $a = base;
                $body
            }
            3 => {
                $c.class("store:viewmut");
                let mut base = base;
                #[allow(unused_mut)]
                let mut $a = base.view_mut();
                $body
            }
            4 => {
                $c.class("store:shared");
                let keep = base.into_shared();
                #[allow(unused_mut)]
                let mut $a = keep.clone();
                $body
            }
            _ => {
                $c.class("store:cow");
                #[allow(unused_mut)]
                let mut $a = ndarray::CowArray::from(base.view());
                $body
            }
        }
    }};
}
/// Same for by-reference entry points.
#[macro_export]
macro_rules! store_ref {
    ($c:expr, $m:expr, $a:ident => $body:expr) => {{
        let (base, lay) = $crate::mat::rand_layout($m, &mut $c.rng);
        $c.class(&format!("layout:{lay}"));
        match $c.rng.below(4) {
            0 | 1 => {
                $c.class("store:ref-owned");
                let $a = &base;
                $body
            }
            2 => {
                $c.class("store:ref-view");
                let v = base.view();
                let $a = &v;
                $body
            }
            _ => {
                $c.class("store:ref-shared");
                let v = base.into_shared();
                let $a = &v;
                $body
            }
        }
    }};
}
