//! mon run <property> | mon replay <property> <seed> <case> | mon digest
#![allow(dead_code, unused_imports, unused_macros)]
#![allow(
    clippy::needless_range_loop,
    clippy::type_complexity,
    clippy::too_many_arguments
)]
#[macro_use]
mod ctx;
mod alloc;
mod cnt;
mod dd;
mod digest;
mod gen;
mod mat;
mod oracle;
mod props;
mod sc;

#[cfg(feature = "iterative")]
pub use linfa_linalg::lobpcg::MagnitudeCorrection;
/// stand-in when the optional feature of the crate is off
#[cfg(not(feature = "iterative"))]
pub trait MagnitudeCorrection {
    fn correction() -> Self;
}
#[cfg(not(feature = "iterative"))]
impl MagnitudeCorrection for f32 {
    fn correction() -> f32 {
        1.0e3
    }
}
#[cfg(not(feature = "iterative"))]
impl MagnitudeCorrection for f64 {
    fn correction() -> f64 {
        1.0e6
    }
}
use ctx::*;
use std::fmt::Write as _;
use std::io::Write as _;

#[global_allocator]
static ALLOC: alloc::Alloc = alloc::Alloc;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter()
        .position(|x| x == k)
        .and_then(|i| a.get(i + 1).cloned())
}
fn num<T: std::str::FromStr>(a: &[String], k: &str, d: T) -> T {
    arg(a, k).and_then(|x| x.parse().ok()).unwrap_or(d)
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jf(x: f64) -> String {
    if x.is_finite() {
        format!("{x:e}")
    } else {
        "1e308".into()
    }
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => run_cmd(&a),
        Some("replay") => replay_cmd(&a),
        #[cfg(feature = "digest")]
        Some("digest") => digest_cmd(&a),
        Some("list") => {
            for t in props::TABLE {
                println!("{} {} {}", t.0, t.2, t.3);
            }
            0
        }
        _ => {
            eprintln!("usage: mon run PROP | replay PROP SEED CASE | digest | list");
            64
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

fn run_cmd(a: &[String]) -> i32 {
    let Some((id, f, q, t)) = props::find(&a[2]) else {
        eprintln!("unknown property {}", a[2]);
        return 64;
    };
    let thorough = a.iter().any(|x| x == "--thorough");
    let cfg = RunCfg {
        prop: id,
        seed: num(a, "--seed", 1),
        first: num(a, "--first", 0),
        cases: num(a, "--cases", if thorough { t } else { q }),
        cap_s: num(a, "--cap", 60.0),
        threads: num(
            a,
            "--threads",
            std::thread::available_parallelism()
                .map(|x| x.get())
                .unwrap_or(4),
        ),
        thorough,
        verbose: false,
        force_cnt: a.iter().any(|x| x == "--count"),
        wall_case_s: num(a, "--wall-case", 40.0),
        max_viol: num(a, "--max-viol", 12),
    };
    let seed = cfg.seed;
    let out = run(f, cfg);
    let mut j = String::new();
    let st = &out.st;
    let _ = write!(
        j,
        "{{\"prop\":{},\"seed\":{seed},\"evaluations\":{},\"calls\":{},\"nontrivial\":{},\"skipped\":{},\"wall_s\":{:.3},\"cap_hit\":{},\"checked_build\":{},\"harness_error\":{},\"inconclusive\":{},",
        js(id),
        st.evals,
        st.calls,
        st.nontrivial,
        st.skipped,
        out.wall_s,
        out.cap_hit,
        cfg!(debug_assertions),
        out.harness_error.as_deref().map(js).unwrap_or("null".into()),
        out.inconclusive.as_deref().map(js).unwrap_or("null".into()),
    );
    let m = |k: &str, it: Vec<(String, String)>| {
        format!(
            "\"{k}\":{{{}}}",
            it.iter()
                .map(|(a, b)| format!("{}:{b}", js(a)))
                .collect::<Vec<_>>()
                .join(",")
        )
    };
    j.push_str(&m(
        "classes",
        st.classes
            .iter()
            .map(|(a, b)| (a.clone(), b.to_string()))
            .collect(),
    ));
    j.push(',');
    j.push_str(&m(
        "events",
        st.events
            .iter()
            .map(|(a, b)| (a.clone(), b.to_string()))
            .collect(),
    ));
    j.push(',');
    j.push_str(&m(
        "ratios",
        st.ratios
            .iter()
            .map(|(a, b)| (a.clone(), format!("[{},{},{}]", jf(b.0), b.1, b.2)))
            .collect(),
    ));
    let mut sm = st.samples.clone();
    sm.sort();
    let _ = write!(
        j,
        ",\"samples\":[{}]",
        sm.iter()
            .take(8)
            .map(|(i, s)| js(&format!("case {i}: {s}")))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(
        j,
        ",\"violations\":[{}]}}",
        out.viols
            .iter()
            .map(|(i, v)| format!(
                "{{\"case\":{i},\"sig\":{},\"msg\":{}}}",
                js(&v.sig),
                js(&v.msg)
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    if let Some(p) = arg(a, "--out") {
        if std::fs::write(&p, &j).is_err() {
            return 3;
        }
    }
    if a.iter().any(|x| x == "--print") {
        println!(
            "{id}: {} cases, {} calls, {:.1}s",
            st.evals, st.calls, out.wall_s
        );
        for (k, r) in &st.ratios {
            println!("   {:.4} (case {}, {} comparisons) {k}", r.0, r.1, r.2);
        }
        for (k, e) in &st.events {
            println!("   event {k}: {e}");
        }
        for (i, v) in &out.viols {
            println!(
                "   VIOL case {i} {} -- {}",
                v.sig,
                &v.msg.chars().take(700).collect::<String>()
            );
        }
        if let Some(e) = &out.harness_error {
            println!("   HARNESS {e}");
        }
        if let Some(e) = &out.inconclusive {
            println!("   INCONCLUSIVE {e}");
        }
    }
    if !out.viols.is_empty() {
        1
    } else if out.harness_error.is_some() || out.inconclusive.is_some() {
        2
    } else {
        0
    }
}

fn replay_cmd(a: &[String]) -> i32 {
    let Some((id, f, _, _)) = props::find(&a[2]) else {
        return 64;
    };
    let seed: u64 = a[3].parse().unwrap();
    let idx: u64 = a[4].parse().unwrap();
    let force = a.iter().any(|x| x == "--count");
    let cfg = RunCfg {
        prop: id,
        seed,
        first: idx,
        cases: 1,
        cap_s: 1e9,
        threads: 1,
        thorough: a.iter().any(|x| x == "--thorough"),
        verbose: true,
        force_cnt: force,
        wall_case_s: 40.0,
        max_viol: 1,
    };
    let out = run(f, cfg);
    for (k, r) in &out.st.ratios {
        println!("   {:.4} {k}", r.0);
    }
    for (i, v) in &out.viols {
        println!("reproduced: case {i} {} -- {}", v.sig, v.msg);
    }
    if !out.viols.is_empty() {
        1
    } else if out.harness_error.is_some() || out.inconclusive.is_some() {
        println!("{:?} {:?}", out.harness_error, out.inconclusive);
        2
    } else {
        println!("property held on this case");
        0
    }
}

#[cfg(feature = "digest")]
/// one line per (case, operation): the digest of the complete outcome
fn digest_cmd(a: &[String]) -> i32 {
    let seed: u64 = num(a, "--seed", 1);
    let cases: u64 = num(a, "--cases", 200);
    let threads: u64 = num(a, "--threads", 8);
    let first: u64 = num(a, "--first", 0);
    // another history: cases and operations in the opposite order
    let reverse = a.iter().any(|x| x == "--reverse");
    let ops = if a.iter().any(|x| x == "--direct") {
        digest::DIRECT_OPS
    } else {
        digest::OPS
    };
    let outs: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut o = String::new();
                        let mut mine: Vec<u64> = (first..first + cases).filter(|i| i % threads == t).collect();
                        let mut order: Vec<usize> = (0..ops).collect();
                        if reverse {
                            mine.reverse();
                            order.reverse();
                        }
                        for i in mine {
                            let cs = case_seed(seed, "digest", i);
                            if i % 2 == 0 {
                                let inp = digest::Inputs::<f64>::new(cs);
                                for &op in &order {
                                    let _ = writeln!(
                                        o,
                                        "{i:06} {op:02} f64 {:016x} {}",
                                        digest::run(op, &inp),
                                        digest::name(op)
                                    );
                                }
                            } else {
                                let inp = digest::Inputs::<f32>::new(cs);
                                for &op in &order {
                                    let _ = writeln!(
                                        o,
                                        "{i:06} {op:02} f32 {:016x} {}",
                                        digest::run(op, &inp),
                                        digest::name(op)
                                    );
                                }
                            }
                        }
                        o
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut lines: Vec<&str> = outs.iter().flat_map(|o| o.lines()).collect();
    lines.sort();
    let mut o = std::io::stdout().lock();
    for l in lines {
        let _ = writeln!(o, "{l}");
    }
    0
}
