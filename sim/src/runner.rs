//! Runs many plans, each in its own process, and finds the first that violates the property.

use std::ffi::c_int;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::Instant;

use crate::plan::Plan;
use crate::shared::{self, Shared, S};
use crate::{evidence, exec, gen, minimise, Paths};

extern "C" {
    fn fork() -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn _exit(code: c_int) -> !;
    fn alarm(s: u32) -> u32;
    fn prctl(op: c_int, a: usize, b: usize, c: usize, d: usize) -> c_int;
}

#[derive(Clone, Debug)]
pub enum End {
    Ok(u64),
    Bad(usize, String),
    Harness(String),
}

/// Executes a plan in a child process. Whatever the library does to its process stays there.
pub fn forked(plan: &Plan, limit: u32) -> End {
    match forked_raw(plan, limit) {
        // C15 is about staying alive and inside the buffers, not about values.
        End::Bad(_, m)
            if plan.prop == "C15"
                && !["the process died", " panicked: ", "no progress"].iter().any(|x| m.contains(x)) =>
            End::Ok(1),
        e => e,
    }
}

fn forked_raw(plan: &Plan, limit: u32) -> End {
    let sh = shared::get();
    sh.verdict.store(0, Relaxed);
    sh.step.store(0, Relaxed);
    sh.text_len.store(0, Relaxed);
    let pid = unsafe { fork() };
    if pid < 0 {
        return End::Harness("fork failed".into());
    }
    if pid == 0 {
        unsafe {
            prctl(1, 9, 0, 0, 0); // die with the parent
            alarm(limit);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec::run(plan)));
        match r {
            Ok(Ok(t)) => {
                sh.trace.store(t, Relaxed);
                sh.verdict.store(1, Relaxed);
            }
            Ok(Err((step, m))) => {
                sh.step.store(step as u64, Relaxed);
                shared::set_text(&m);
                sh.verdict.store(if m.starts_with("harness:") { 3 } else { 2 }, Relaxed);
            }
            Err(_) => {
                shared::set_text("the simulator panicked");
                sh.verdict.store(3, Relaxed);
            }
        }
        unsafe { _exit(0) }
    }
    let mut st = 0;
    unsafe {
        while waitpid(pid, &mut st, 0) != pid {}
    }
    let step = sh.step.load(Relaxed) as usize;
    let at = || {
        plan.steps.get(step).map(|s| s.op.to_string()).unwrap_or_else(|| "the end of the run".into())
    };
    match st & 0x7f {
        0 => match sh.verdict.load(Relaxed) {
            1 => End::Ok(sh.trace.load(Relaxed)),
            2 => End::Bad(step, shared::text()),
            3 => End::Harness(format!("seed {}: step {}: {}", plan.seed, step, shared::text())),
            _ => End::Harness(format!("child exited with {}", (st >> 8) & 0xff)),
        },
        14 => End::Bad(step, format!("no progress for {} s in {}", limit, at())),
        9 => End::Harness("child killed".into()),
        s => End::Bad(
            step,
            format!(
                "the process died in {} ({})",
                at(),
                match s {
                    4 => "illegal instruction".to_string(),
                    6 => "aborted".to_string(),
                    7 => "bus error".to_string(),
                    8 => "arithmetic exception".to_string(),
                    11 => "access outside the buffers it was given, or stack overflow".to_string(),
                    n => format!("signal {}", n),
                }
            ),
        ),
    }
}

pub struct Batch {
    pub specials: u64,
    pub runs: u64,
    pub workers: usize,
    pub cap_s: u64,
}

#[repr(C)]
struct Control {
    next: AtomicU64,
    bad: AtomicU64,
    harness: AtomicU64,
    done: AtomicU64,
}

pub fn batch(prop: &str, thorough: bool) -> Batch {
    let quick = match prop {
        "C01" => 140_000,
        "C02" => 240_000,
        "C03" => 16_000,
        "C04" => 12_000,
        "C05" => 200_000,
        "C06" => 26_000,
        "C07" => 260_000,
        "C08" => 140_000,
        "C09" => 150_000,
        "C10" => 150_000,
        "C11" => 3_600,
        "C12" => 280_000,
        "C13" => 120_000,
        "C15" => 80_000,
        "C16" => 60_000,
        _ => 150_000,
    };
    let over = std::env::var("CHFSIM_RUNS").ok().and_then(|v| v.parse().ok());
    Batch {
        specials: gen::specials(prop, thorough).len() as u64,
        runs: over.unwrap_or(if thorough { quick * 30 } else { quick }),
        workers: std::env::var("CHFSIM_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
        }),
        cap_s: if thorough { 780 } else { 200 },
    }
}

/// Plan number `i` of a batch.
pub fn nth(prop: &str, seed: u64, i: u64, thorough: bool) -> Plan {
    let sp = gen::specials(prop, thorough);
    if (i as usize) < sp.len() {
        let (op, mut a) = sp[i as usize].clone();
        if op == "bigconst" || op == "probe" {
            a[1] ^= seed << 8;
        } else {
            a[2] ^= seed << 8;
        }
        let flags = match prop {
            "C09" => exec::FL_ALLOC,
            "C10" => exec::FL_COUNT,
            "C16" => exec::FL_STACK,
            _ => 0,
        };
        let mut p = Plan { prop: prop.into(), seed, flags, ..Default::default() };
        p.push(0, 0, op, &a);
        return p;
    }
    gen::plan(prop, gen::run_seed(prop, seed, i), thorough)
}

fn limit(i: u64, specials: u64) -> u32 {
    if i < specials {
        600
    } else {
        30
    }
}

pub fn check(p: &Paths, prop: &str, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let b = batch(prop, thorough);
    let known = known(p, prop);
    let total = b.specials + b.runs;
    println!("chfsim: {} seed={} tier={} runs={}", prop, seed, if thorough { "thorough" } else { "quick" }, total);
    let ctl: &'static Control = unsafe {
        let m = crate::node::mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(m as isize != -1, "harness: mmap");
        &*(m as *const Control)
    };
    ctl.bad.store(u64::MAX, SeqCst);
    let mut regions = Vec::new();
    let mut pids = Vec::new();
    for _ in 0..b.workers {
        regions.push(shared::alloc());
    }
    let knownbits = shared::alloc(); // one counter per listed finding
    for w in 0..b.workers {
        let pid = unsafe { fork() };
        if pid < 0 {
            eprintln!("chfsim: fork failed");
            return 3;
        }
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0) };
            shared::select(regions[w]);
            loop {
                let i = ctl.next.fetch_add(1, SeqCst);
                if i >= total || i > ctl.bad.load(SeqCst) || ctl.harness.load(SeqCst) != 0 {
                    break;
                }
                if t0.elapsed().as_secs() > b.cap_s {
                    break;
                }
                let plan = nth(prop, seed, i, thorough);
                shared::inc(S::Runs);
                let mut e = forked(&plan, limit(i, b.specials));
                if let End::Bad(_, m) = &e {
                    if m.starts_with("no progress") {
                        // A stalled machine is not a hang: it has to happen twice.
                        e = forked(&plan, 2 * limit(i, b.specials));
                    }
                }
                match e {
                    End::Ok(_) => {}
                    End::Bad(_, m) => {
                        if let Some(k) = known.iter().position(|(pat, _)| m.contains(pat.as_str())) {
                            shared::at(knownbits).stats[k % shared::NSTAT].fetch_add(1, SeqCst);
                        } else {
                            ctl.bad.fetch_min(i, SeqCst);
                        }
                    }
                    End::Harness(m) => {
                        eprintln!("chfsim: run {}: {}", i, m);
                        ctl.harness.store(1, SeqCst);
                    }
                }
                ctl.done.fetch_add(1, SeqCst);
            }
            unsafe { _exit(0) }
        }
        pids.push(pid);
    }
    let mut died = false;
    for pid in pids {
        let mut st = 0;
        unsafe {
            while waitpid(pid, &mut st, 0) != pid {}
        }
        died |= st != 0;
    }
    let rs: Vec<&'static Shared> = regions.iter().map(|r| shared::at(*r)).collect();
    let bad = ctl.bad.load(SeqCst);
    let done = ctl.done.load(SeqCst);
    let violations = u64::from(bad != u64::MAX);
    evidence::write(p, prop, seed, thorough, &b, done, &rs, violations, t0.elapsed().as_secs_f64());
    for (k, (_, what)) in known.iter().enumerate() {
        let n = shared::at(knownbits).stats[k % shared::NSTAT].load(SeqCst);
        println!("KNOWN-FINDING: property={} {} (seen in {} runs)", prop, what, n);
    }
    if bad != u64::MAX {
        let plan = nth(prop, seed, bad, thorough);
        let lim = limit(bad, b.specials);
        let (small, step, text, tries) = minimise::minimise(&plan, lim);
        let dir = format!("{}/replays", p.root);
        let _ = std::fs::create_dir_all(&dir);
        let file = format!("{}/{}-{}-{}.replay", dir, prop, seed, bad);
        let body = format!(
            "# {}\n# at step {} of {}; run {} of VERIF_SEED={}, {} steps before minimisation ({} replays)\n# replay: {}/target/sim/release/chfsim replay {}\n{}",
            text.replace('\n', " "),
            step,
            small.steps.len(),
            bad,
            seed,
            plan.steps.len(),
            tries,
            p.root,
            file,
            small.to_text()
        );
        if let Err(e) = std::fs::write(&file, body) {
            eprintln!("chfsim: {}: {}", file, e);
        }
        println!("run {}: {}", bad, text);
        print!("{}", small.to_text());
        println!("VIOLATION property={} replay={}", prop, file);
        return 1;
    }
    if ctl.harness.load(SeqCst) != 0 || died {
        eprintln!("chfsim: harness error");
        return 3;
    }
    println!(
        "chfsim: {} held on {} runs ({} oracle evaluations) in {:.1} s",
        prop,
        done,
        rs.iter().map(|r| r.stats[S::Evals as usize].load(Relaxed)).sum::<u64>(),
        t0.elapsed().as_secs_f64()
    );
    0
}

/// Listed findings of this property: (text the violation contains, description).
fn known(p: &Paths, prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", p.root)).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.lines() {
        // finding: property=<id> match="<text>" <what fails>
        if let Some(rest) = l.strip_prefix(&format!("finding: property={} match=\"", prop)) {
            if let Some((m, what)) = rest.split_once('"') {
                v.push((m.to_string(), what.trim().to_string()));
            }
        }
    }
    v
}

pub fn traces(prop: &str, seed: u64, n: u64) {
    let sp = gen::specials(prop, false).len() as u64;
    for i in sp..sp + n {
        let plan = nth(prop, seed, i, false);
        match forked(&plan, 60) {
            End::Ok(t) => println!("{} {:016x}", i, t),
            e => println!("{} {:?}", i, e),
        }
    }
}
