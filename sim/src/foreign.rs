//! Machines of another byte order or word size (../../foreign), interpreted by Miri: its scheduler,
//! weak memory and addresses follow the seed. Scripts are generated, answered by the reference
//! model, executed and compared.

use std::collections::{HashMap, HashSet};
use std::io::Write as _;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

use crate::exec::hex;
use crate::refimpl::{absorbed, core_of, Core, Model, RefHash, HMAC, HMAC_TAGGED};
use crate::rng::{mix, Rng};
use crate::Paths;

/// Target, cargo features, word size.
const MACHINES: [(&str, &str, u32); 3] = [
    ("s390x-unknown-linux-gnu", "std", 64),
    ("powerpc-unknown-linux-gnu", "std,small", 32),
    ("armv7-unknown-linux-gnueabihf", "", 32),
];
const KINDS: [u32; 25] =
    [0, 1, 2, 3, 4, 5, 6, 0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 13, 14, 15, 16, 17, 20, 21, 26];
/// Seconds after which a batch counts as hung (a batch takes some 15 s).
const PATIENCE: &str = "240";

fn bytes(len: usize, seed: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 8);
    let mut x = seed;
    while v.len() < len {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.extend_from_slice(&(x ^ (x >> 29)).to_le_bytes());
    }
    v.truncate(len);
    v
}

fn unhex(s: &str) -> Option<Vec<u8>> {
    if s == "-" {
        return Some(vec![]);
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

fn is_sip(kind: u32) -> bool { kind == 6 || kind == 16 }

fn length(r: &mut Rng, cap: u64) -> u64 {
    // The interpreter takes some 15 ms for a block.
    let n = match r.below(6) {
        0 | 1 => r.below(20),
        2 => {
            let b = r.pick(&[8, 56, 64, 64, 112, 120, 128, 192, 256]);
            (b + r.below(5)).saturating_sub(2)
        }
        3 => r.below(300),
        _ => r.below(80),
    };
    n.min(cap)
}

fn seed(r: &mut Rng) -> u64 { r.next() >> 1 }

fn hexes(r: &mut Rng, n: usize) -> String {
    if n == 0 {
        "-".into()
    } else {
        hex(&bytes(n, r.next()))
    }
}

/// The lines of one run.
fn generate(r: &mut Rng, word: u32) -> Vec<String> {
    let mut out = Vec::new();
    let threads = r.pick(&[1, 1, 1, 2, 2, 3]);
    for _ in 0..threads {
        out.push("thread".to_string());
        let mut live: HashMap<usize, Model> = HashMap::new();
        let start = |r: &mut Rng, s: usize, live: &mut HashMap<usize, Model>, out: &mut Vec<String>| {
            let kind = r.pick(&KINDS);
            let core = core_of(kind);
            let line = if !is_sip(kind) && r.chance(1, 3) {
                // A session that another machine began.
                let n = core.chain_len() * if (HMAC..20).contains(&kind) { 2 } else { 1 };
                let top: u64 = if word == 32 { (1 << 32) - (1 << 20) } else { 1 << 60 };
                let bits = r.range(8, 60);
                let c = (r.next() >> (64 - bits)) % top / core.block() as u64 * core.block() as u64;
                format!("resume {} {} {} {}", s, kind, hexes(r, n), c.max(absorbed(kind)))
            } else {
                let keylen = if (HMAC..20).contains(&kind) { length(r, 300) as usize } else { 0 };
                let (k0, k1) = if kind == 6 { (r.next(), r.next()) } else { (0, 0) };
                format!("new {} {} {} {} {}", s, kind, hexes(r, keylen), k0, k1)
            };
            let mut t = HashMap::new();
            let w: Vec<&str> = line.split(' ').collect();
            let _ = step(&w, &mut t);
            live.extend(t);
            out.push(line);
        };
        for _ in 0..r.range(3, 8) {
            let s = r.below(2) as usize;
            if !live.contains_key(&s) && r.chance(2, 3) {
                start(r, s, &mut live, &mut out);
                continue;
            }
            let line = match live.get(&s) {
                Some(m) => {
                    let unit = m.inner.core.unit();
                    let to_edge = (unit - m.fill()) % unit;
                    match r.below(8) {
                        0..=2 => format!("in {} {} {}", s, length(r, 400), seed(r)),
                        3 => format!("in {} {} {}", s, to_edge, seed(r)),
                        4 => format!("count {}", s),
                        5 => format!("dup {} {}", s, r.below(2)),
                        6 if m.aligned() && !is_sip(m.kind) => format!("mid {}", s),
                        6 | 7 if m.aligned() => format!("hop {}", s),
                        _ => format!("fin {}", s),
                    }
                }
                None => match r.below(8) {
                    0 => format!("one {} {} {}", r.pick(&[0, 1, 2, 3, 4, 5, 21]), length(r, 400), seed(r)),
                    1 => format!("const {} {}", length(r, 200), seed(r)),
                    2 => format!("tag {} {}", length(r, 200), seed(r)),
                    3 => format!("chunks {} {} {} {}", r.pick(&[0, 1, 3, 5]), length(r, 300), seed(r), r.range(1, 70)),
                    4 => format!("sip {} {} {} {}", r.next(), r.next(), length(r, 60), seed(r)),
                    5 | 6 => {
                        let k = r.pick(&[0u32, 1, 2, 3, 4, 5, 6, 11, 21]);
                        let n = if k == 11 || k == 21 { 32 } else { core_of(k).out_len() };
                        let a = bytes(n, r.next());
                        let mut b = a.clone();
                        match r.below(4) {
                            0 => {}
                            1 => b = bytes(n, r.next()),
                            x => {
                                let at = r.below(n as u64) as usize;
                                b[at] ^= 1 << r.below(8);
                                if x == 3 {
                                    for y in &mut b[at + 1..] {
                                        *y = r.next() as u8;
                                    }
                                }
                            }
                        }
                        format!("values {} {} {}", k, hex(&a), hex(&b))
                    }
                    _ => {
                        let n = r.range(1, 70) as usize;
                        let a = bytes(n, r.next());
                        let mut b = a.clone();
                        if r.chance(2, 3) {
                            b[r.below(n as u64) as usize] ^= 1 << r.below(8);
                        }
                        format!("fteq {} {}", hex(&a), hex(&b))
                    }
                },
            };
            let w: Vec<&str> = line.split(' ').collect();
            let _ = step(&w, &mut live);
            out.push(line);
        }
        let mut rest: Vec<usize> = live.keys().copied().collect();
        rest.sort_unstable();
        for s in rest {
            out.push(format!("fin {}", s));
        }
    }
    out
}

/// What the model answers to one line; `Err` if the line makes no sense there.
fn step(w: &[&str], e: &mut HashMap<usize, Model>) -> Result<Option<String>, ()> {
    let u = |i: usize| -> Result<u64, ()> { w.get(i).ok_or(())?.parse::<u64>().map_err(|_| ()) };
    let n = |i: usize| u(i).map(|x| x as usize);
    let h = |i: usize| -> Result<Vec<u8>, ()> { w.get(i).and_then(|s| unhex(s)).ok_or(()) };
    let plain = |kind: u32, d: &[u8]| {
        let mut m = Model::new(kind, &[], 0, 0);
        m.update(d);
        hex(&m.digest())
    };
    Ok(match w[0] {
        "new" => {
            e.insert(n(1)?, Model::new(u(2)? as u32, &h(3)?, u(4)?, u(5)?));
            None
        }
        "resume" => {
            let (kind, m, c) = (u(2)? as u32, h(3)?, u(4)?);
            let core = core_of(kind);
            let outer = (HMAC..20).contains(&kind);
            let (i, o) = m.split_at(if outer { m.len() / 2 } else { m.len() });
            let model = Model {
                kind,
                inner: RefHash::from_chain(core, i, c),
                outer: outer.then(|| RefHash::from_chain(core, o, if kind == HMAC_TAGGED { 128 } else { core.block() as u64 })),
            };
            e.insert(n(1)?, model);
            None
        }
        "in" => {
            if let Some(m) = e.get_mut(&n(1)?) {
                m.update(&bytes(n(2)?, u(3)?));
            }
            None
        }
        "count" => e.get(&n(1)?).map(|m| m.inner.total.to_string()),
        "mid" | "hop" => match e.get(&n(1)?) {
            Some(m) if !m.aligned() => return Err(()),
            Some(m) if w[0] == "mid" => Some(hex(&m.midstate())),
            _ => None,
        },
        "dup" => {
            if let Some(m) = e.get(&n(1)?).cloned() {
                e.insert(n(2)?, m);
            }
            None
        }
        "fin" => e.remove(&n(1)?).map(|m| hex(&m.digest())),
        "one" => Some(plain(u(1)? as u32, &bytes(n(2)?, u(3)?))),
        "const" => Some(plain(1, &bytes(n(1)?, u(2)?))),
        "tag" => Some(hex(&Model::tagged(20, &bytes(n(1)?, u(2)?)).midstate())),
        "chunks" => Some(plain(u(1)? as u32, &bytes(n(2)?, u(3)?))),
        "sip" => {
            let mut m = RefHash::keyed(Core::Sip, u(1)?, u(2)?);
            m.update(&bytes(n(3)?, u(4)?));
            let d = m.digest();
            let x = u64::from_le_bytes(d[..8].try_into().map_err(|_| ())?);
            Some(format!("{} {} {} {}", hex(&d), x, x, hex(&d)))
        }
        "values" => {
            let (a, b) = (h(2)?, h(3)?);
            Some(format!("{} {} {} {:?} Some(true)", hex(&a), hex(&b), hex(&a), a.cmp(&b)))
        }
        "fteq" => Some((h(1)? == h(2)?).to_string()),
        _ => return Err(()),
    })
}

/// The expected answers, by line of the script.
fn expect(script: &[String]) -> Result<Vec<(usize, String)>, ()> {
    let mut e = HashMap::new();
    let mut out = Vec::new();
    for (i, l) in script.iter().enumerate() {
        if l == "thread" || l.starts_with("run") {
            e.clear();
        } else if !l.starts_with('#') && !l.is_empty() {
            let w: Vec<&str> = l.split(' ').collect();
            if let Some(s) = step(&w, &mut e)? {
                out.push((i, s));
            }
        }
    }
    Ok(out)
}

enum Said {
    Fine,
    /// Line of the script and what is wrong there.
    Wrong(usize, String),
    /// The interpreter cannot execute this.
    Unable(String),
}

fn execute(p: &Paths, machine: usize, seed: u64, script: &[String]) -> Said {
    let Ok(want) = expect(script) else { return Said::Unable("script".into()) };
    let (target, features, word) = MACHINES[machine];
    // One argument per run, so that none is too long.
    let mut args: Vec<String> = Vec::new();
    for l in script {
        if l.starts_with("run") || args.is_empty() {
            args.push(l.clone());
        } else if let Some(a) = args.last_mut() {
            a.push('\n');
            a.push_str(l);
        }
    }
    let dir = format!("{}/target/foreign/{}", p.root, target);
    let out = Command::new("timeout")
        .args([PATIENCE, "cargo", "+nightly", "miri", "run", "-q", "--offline", "--features", features, "--target", target])
        .arg("--manifest-path")
        .arg(format!("{}/foreign/Cargo.toml", p.root))
        .arg("--target-dir")
        .arg(&dir)
        .arg("--")
        .args(&args)
        .env("XDG_CACHE_HOME", format!("{}/cache", dir))
        .env(
            "MIRIFLAGS",
            format!("-Zmiri-seed={} -Zmiri-preemption-rate=0.05 -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks", seed),
        )
        .stdin(Stdio::null())
        .output();
    let out = match out {
        Ok(o) => o,
        Err(e) => return Said::Unable(e.to_string()),
    };
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    let mut got: HashMap<usize, String> = HashMap::new();
    let mut ends = 0;
    for l in text.lines() {
        if l.starts_with("end ") {
            ends += 1;
        } else if let Some((i, s)) = l.split_once(' ') {
            if let Ok(i) = i.parse() {
                got.insert(i, s.to_string());
            }
        }
    }
    let runs: Vec<usize> = script.iter().enumerate().filter(|(_, l)| l.starts_with("run")).map(|(i, _)| i).collect();
    let done = runs.get(ends).copied().unwrap_or(script.len());
    let place = format!("{} ({} bit)", target, word);
    let mut panics: Vec<(&usize, &String)> = got.iter().filter(|(_, s)| s.starts_with("panicked: ")).collect();
    panics.sort();
    for (i, s) in want.iter().filter(|(i, _)| *i < done) {
        if let Some((l, s)) = panics.iter().find(|(l, _)| *l <= i) {
            return Said::Wrong(**l, format!("{}: {:?} {}", place, script[**l], s));
        }
        match got.get(i) {
            Some(g) if g == s => {}
            g => {
                return Said::Wrong(
                    *i,
                    format!("{}: {:?} gave {}, expected {}", place, script[*i], g.map_or("nothing", |s| s.as_str()), s),
                )
            }
        }
    }
    if let Some((l, s)) = panics.first() {
        return Said::Wrong(**l, format!("{}: {:?} {}", place, script[**l], s));
    }
    if out.status.success() && ends == runs.len() {
        return Said::Fine;
    }
    if let Some(l) = err.lines().find(|l| l.contains("Undefined Behavior") || l.contains("abnormal termination")) {
        let at = err.lines().find(|l| l.trim_start().starts_with("-->")).unwrap_or("").trim();
        return Said::Wrong(done.min(script.len() - 1), format!("{}: {} {}", place, l, at));
    }
    if out.status.code() == Some(124) {
        return Said::Wrong(done.min(script.len() - 1), format!("{}: no progress", place));
    }
    Said::Unable(err.lines().find(|l| l.starts_with("error")).unwrap_or("no output").to_string())
}

fn batch(seed: u64, i: u64, runs: u64) -> (usize, u64, Vec<String>) {
    let machine = (i % MACHINES.len() as u64) as usize;
    let mut script = Vec::new();
    for k in 0..runs {
        let mut r = Rng::new(mix(seed.wrapping_mul(0x9e37) ^ mix(i * 1000 + k)));
        script.push(format!("run {}", i * runs + k));
        script.extend(generate(&mut r, MACHINES[machine].2));
    }
    (machine, mix(seed ^ (i << 20)) & 0xffff, script)
}

fn text(machine: usize, seed: u64, script: &[String]) -> String {
    format!("foreign {} {}\n{}\n", machine, seed, script.join("\n"))
}

/// As few runs and lines as possible that still go wrong in the same way.
fn minimise(p: &Paths, machine: usize, seed: u64, script: &[String], line: usize) -> (u64, Vec<String>, String, usize) {
    let starts: Vec<usize> = script.iter().enumerate().filter(|(_, l)| l.starts_with("run")).map(|(i, _)| i).collect();
    let k = starts.iter().rposition(|s| *s <= line).unwrap_or(0);
    let end = starts.get(k + 1).copied().unwrap_or(script.len());
    let mut tries = 0;
    let mut bad = |seed: u64, s: &[String]| -> Option<(usize, String)> {
        tries += 1;
        match execute(p, machine, seed, s) {
            Said::Wrong(l, m) => Some((l, m)),
            _ => None,
        }
    };
    // The run alone; a race may need another schedule then. Otherwise everything up to it.
    let alone = script[starts[k]..end].to_vec();
    let found = (0..10).find_map(|d| bad(seed + d, &alone).map(|m| (seed + d, alone.clone(), m.1)));
    let Some((seed, mut best, mut why)) = found else {
        let all = script[..end].to_vec();
        let why = bad(seed, &all).map_or("not reproduced".to_string(), |m| m.1);
        return (seed, all, why, tries);
    };
    let t0 = Instant::now();
    let mut i = best.len();
    let mut size = (best.len() / 2).max(1);
    while size >= 1 && t0.elapsed().as_secs() < 60 {
        if i <= 1 {
            i = best.len();
            size /= 2;
            continue;
        }
        let lo = i.saturating_sub(size).max(1);
        let mut c = best.clone();
        c.drain(lo..i);
        if !c.iter().any(|l| l == "thread") || c[1] != "thread" || expect(&c).is_err() {
            i = lo;
            continue;
        }
        if let Some((_, m)) = bad(seed, &c) {
            best = c;
            why = m;
        }
        i = lo;
    }
    (seed, best, why, tries)
}

pub fn check(p: &Paths, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let runs = 30;
    let batches: u64 = std::env::var("CHFSIM_RUNS").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 2400 } else { 36 });
    let cap = if thorough { 780 } else { 300 };
    println!("chfsim: C17 seed={} tier={} runs={}", seed, if thorough { "thorough" } else { "quick" }, batches * runs);
    let next = AtomicU64::new(0);
    let bad = AtomicU64::new(u64::MAX);
    let state = Mutex::new((0u64, 0u64, HashMap::<String, u64>::new(), HashSet::<u64>::new(), Vec::<String>::new(), HashMap::<u64, usize>::new()));
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= batches || i > bad.load(SeqCst) || t0.elapsed().as_secs() > cap {
                    break;
                }
                let (machine, mseed, script) = batch(seed, i, runs);
                let mut said = execute(p, machine, mseed, &script);
                if matches!(&said, Said::Wrong(_, m) if m.ends_with("no progress")) {
                    said = execute(p, machine, mseed, &script);
                }
                let mut st = state.lock().unwrap();
                match said {
                    Said::Fine => {
                        st.0 += runs;
                        let mut h = 0u64;
                        for l in script.iter().chain(["run".to_string()].iter()) {
                            if l.starts_with("run") {
                                if h != 0 {
                                    st.3.insert(h);
                                }
                                h = machine as u64 + 1;
                            } else {
                                let op = l.split(' ').next().unwrap_or("").to_string();
                                *st.2.entry(op).or_default() += 1;
                                for b in l.bytes() {
                                    h = mix(h ^ b as u64);
                                }
                            }
                        }
                        st.1 += expect(&script).map_or(0, |v| v.len() as u64);
                    }
                    Said::Wrong(line, _) => {
                        st.5.insert(i, line);
                        bad.fetch_min(i, SeqCst);
                    }
                    Said::Unable(m) => st.4.push(format!("batch {}: {}", i, m)),
                }
            });
        }
    });
    let (done, evals, ops, hist, unable, lines) = state.into_inner().unwrap();
    let first = bad.load(SeqCst);
    let wall = t0.elapsed().as_secs_f64();
    let sample = {
        let s = batch(seed, 0, 1);
        text(s.0, s.1, &s.2)
    };
    let sample: String = sample.lines().take(14).map(|l| format!("{}\\n", l.chars().take(120).collect::<String>())).collect();
    let mut names: Vec<String> = ops.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
    names.sort();
    let threads = ops.get("thread").copied().unwrap_or(0);
    let json = format!(
        r#"{{
 "property": "C17",
 "tier": "{tier}",
 "seed": {seed},
 "level": "exploration",
 "violations": {v},
 "wall_s": {wall:.2},
 "coverage": {{
  "evaluations": {done},
  "distinct_nontrivial": {distinct},
  "rule": "One evaluation is one run: a script of sessions for one to three threads, generated from one seed and executed by the interpreter of a foreign machine; two runs are the same if machine and script are.",
  "samples": ["{sample}"],
  "simulated_runs": {done},
  "runs_planned": {planned},
  "runs_per_hour": {rph:.0},
  "seeds_per_hour": {rph:.0},
  "simulated_seconds": 0,
  "oracle_evaluations": {evals},
  "distinct_states": {distinct},
  "distinct_states_measure": "distinct (machine, script)",
  "faults_injected": {{"sessions begun on another machine (resume)": {resume}, "moves through a midstate (hop)": {hop}, "threads beyond the first, preempted by seed": {extra}}},
  "workload": {{{names}}},
  "not_judged": {unable},
  "machines": ["s390x: 64 bit, big-endian, std", "powerpc: 32 bit, big-endian, std, small-hash", "armv7: 32 bit, little-endian, no_std"],
  "real_components": ["all of the chf crate from /repo, compiled for the foreign target, hooks off, debug assertions and overflow checks on"],
  "stub_components": ["CPU, memory, threads and operating system of the foreign machine (Miri, seeded, isolated from the host)", "other machines (the reference model)"]
 }},
 "assumptions": ["Miri interprets the MIR of the foreign target faithfully; machine code generation for it is outside", "the reference model implements the published standards; it is checked against vectors from unrelated implementations at every start"]
}}
"#,
        tier = if thorough { "thorough" } else { "quick" },
        v = u64::from(first != u64::MAX),
        distinct = hist.len(),
        planned = batches * runs,
        rph = done as f64 / wall.max(0.001) * 3600.0,
        resume = ops.get("resume").copied().unwrap_or(0),
        hop = ops.get("hop").copied().unwrap_or(0),
        extra = threads.saturating_sub(done),
        names = names.join(", "),
        unable = unable.len(),
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", p.root));
    if let Err(e) = std::fs::write(format!("{}/evidence/C17.json", p.root), json) {
        eprintln!("chfsim: evidence: {}", e);
    }
    for u in unable.iter().take(5) {
        eprintln!("chfsim: not judged: {}", u);
    }
    if first != u64::MAX {
        let (machine, mseed, script) = batch(seed, first, runs);
        let (mseed, small, why, tries) = minimise(p, machine, mseed, &script, lines.get(&first).copied().unwrap_or(0));
        let dir = format!("{}/replays", p.root);
        let _ = std::fs::create_dir_all(&dir);
        let file = format!("{}/C17-{}-{}.replay", dir, seed, first);
        let body = format!(
            "{}# {}\n# batch {} of VERIF_SEED={} ({} replays)\n# replay: {}/target/sim/release/chfsim replay {}\n",
            text(machine, mseed, &small),
            why,
            first,
            seed,
            tries,
            p.root,
            file
        );
        if let Err(e) = std::fs::write(&file, body) {
            eprintln!("chfsim: {}: {}", file, e);
        }
        println!("run {}: {}", first * runs, why);
        print!("{}", text(machine, mseed, &small));
        println!("VIOLATION property=C17 replay={}", file);
        let _ = std::io::stdout().flush();
        return 1;
    }
    if done == 0 {
        eprintln!("chfsim: nothing could be executed");
        return 3;
    }
    println!("chfsim: C17 held on {} runs ({} oracle evaluations) in {:.1} s", done, evals, wall);
    0
}

/// Executes a replay file that begins with "foreign".
pub fn replay(p: &Paths, body: &str) -> Option<i32> {
    let mut l = body.lines();
    let w: Vec<&str> = l.next()?.split(' ').collect();
    if w[0] != "foreign" {
        return None;
    }
    let script: Vec<String> = l.filter(|l| !l.starts_with('#')).map(|s| s.to_string()).collect();
    Some(match execute(p, w.get(1)?.parse().ok()?, w.get(2)?.parse().ok()?, &script) {
        Said::Fine => {
            println!("no violation");
            0
        }
        Said::Wrong(i, m) => {
            println!("at line {}: {}", i, m);
            1
        }
        Said::Unable(m) => {
            eprintln!("chfsim: {}", m);
            3
        }
    })
}
