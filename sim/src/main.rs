//! Deterministic simulation of the `chf` library. See ../DESIGN.md.

mod cpu;
mod evidence;
mod exec;
mod foreign;
mod gen;
mod marathon;
mod minimise;
mod node;
mod plan;
mod refimpl;
mod rng;
mod runner;
mod schema;
mod shared;
mod threads;

use plan::Plan;

pub struct Paths {
    pub root: String,
    pub images: String,
}

fn paths() -> Paths {
    let root = std::env::var("CHFSIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let images = std::env::var("CHFSIM_IMAGES").unwrap_or_else(|_| format!("{}/target/images", root));
    Paths { root, images }
}

fn env_u64(k: &str, d: u64) -> u64 { std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d) }

fn fail(m: String) -> ! {
    eprintln!("chfsim: {}", m);
    std::process::exit(3)
}

/// The reference model against vectors from unrelated implementations.
fn selftest() -> Result<usize, String> {
    let mut n = 0;
    for l in include_str!("vectors.txt").lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') {
            continue;
        }
        let msg = |len: usize| -> Vec<u8> {
            (0..len).map(|i| ((i * i * 31 + i * 7 + len) & 0xff) as u8).collect()
        };
        let kind: u32 = w[0].parse().map_err(|_| l.to_string())?;
        let len: usize = w[1].parse().map_err(|_| l.to_string())?;
        let mut m;
        if kind == 6 {
            let k = |i: usize| u64::from_str_radix(w[i], 16).map_err(|_| l.to_string());
            m = refimpl::Model::new(6, &[], k(2)?, k(3)?);
        } else {
            let kl: i64 = w[2].parse().map_err(|_| l.to_string())?;
            let key = if kl >= 0 { msg(kl as usize + 500)[..kl as usize].to_vec() } else { vec![] };
            m = refimpl::Model::new(kind, &key, 0, 0);
        }
        let d = msg(len);
        // In odd pieces, so that the model's own buffering is exercised.
        for c in d.chunks(len % 97 + 1) {
            m.update(c);
        }
        if exec::hex(&m.digest()) != *w.last().unwrap() {
            return Err(format!("reference model fails on {}", l));
        }
        n += 1;
    }
    Ok(n)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let p = paths();
    let load = || {
        shared::select(shared::alloc());
        if let Err(e) = selftest() {
            fail(e);
        }
        if let Err(e) = exec::load_nodes(&p.images) {
            fail(e);
        }
    };
    match arg(1) {
        "selftest" => match selftest() {
            Ok(n) => println!("{} vectors", n),
            Err(e) => fail(e),
        },
        "precompute" => marathon::precompute(),
        "foreign" => {
            if let Err(e) = selftest() {
                fail(e);
            }
            let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
            std::process::exit(foreign::check(&p, env_u64("VERIF_SEED", 1), thorough))
        }
        "run" => {
            let prop = arg(2).to_string();
            if !gen::PROPS.contains(&arg(2)) {
                fail(format!("no property {}", prop));
            }
            load();
            let seed = env_u64("VERIF_SEED", 1);
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let code = runner::check(&p, &prop, seed, tier == "thorough");
            std::process::exit(code)
        }
        "replay" => {
            let text = std::fs::read_to_string(arg(2)).unwrap_or_else(|e| fail(format!("{}: {}", arg(2), e)));
            if let Some(c) = foreign::replay(&p, &text) {
                if c == 1 {
                    println!("VIOLATION property=C17 replay={}", arg(2));
                }
                std::process::exit(c)
            }
            let plan = Plan::parse(&text).unwrap_or_else(|e| fail(e));
            load();
            match runner::forked(&plan, 600) {
                runner::End::Ok(t) => {
                    println!("no violation (trace {:016x})", t);
                }
                runner::End::Bad(step, m) => {
                    println!("at step {}: {}", step, m);
                    println!("VIOLATION property={} replay={}", plan.prop, arg(2));
                    std::process::exit(1)
                }
                runner::End::Harness(m) => fail(m),
            }
        }
        "show" => {
            let i: u64 = arg(3).parse().unwrap_or(0);
            let s = gen::run_seed(arg(2), env_u64("VERIF_SEED", 1), i);
            print!("{}", gen::plan(arg(2), s, false).to_text());
        }
        // Trace hashes of the first n runs: for proving determinism.
        "traces" => {
            load();
            let n: u64 = arg(3).parse().unwrap_or(100);
            runner::traces(arg(2), env_u64("VERIF_SEED", 1), n);
        }
        "machines" => {
            load();
            for n in exec::nodes() {
                println!(
                    "{:40} lacks {:05b} sees {:05b} text {:x?} stepping {}",
                    node::IMAGES[n.id].name,
                    node::IMAGES[n.id].mask,
                    n.cpu(),
                    n.text,
                    cpu::available(n)
                );
            }
        }
        x => fail(format!("unknown command {:?}", x)),
    }
}
