//! Writes evidence/<property>.json from what was measured.

use std::collections::HashSet;
use std::sync::atomic::Ordering::Relaxed;

use crate::runner::{nth, Batch};
use crate::shared::{Shared, NAMES, NSTAT, S};
use crate::{cpu, exec, node, Paths};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

#[allow(clippy::too_many_arguments)]
pub fn write(
    p: &Paths,
    prop: &str,
    seed: u64,
    thorough: bool,
    b: &Batch,
    done: u64,
    rs: &[&'static Shared],
    violations: u64,
    wall: f64,
) {
    let mut stats = [0u64; NSTAT];
    let mut states: HashSet<u64> = HashSet::new();
    let mut hist: HashSet<u64> = HashSet::new();
    for r in rs {
        for (i, s) in stats.iter_mut().enumerate() {
            let x = r.stats[i].load(Relaxed);
            if i == S::O_stack as usize || i == S::O_work as usize {
                *s = x.max(*s);
            } else {
                *s += x;
            }
        }
        if r.set_len.load(Relaxed) > 0 {
            states.extend(r.set.iter().map(|x| x.load(Relaxed)).filter(|x| *x != 0));
        }
        if r.hist_len.load(Relaxed) > 0 {
            hist.extend(r.hist.iter().map(|x| x.load(Relaxed)).filter(|x| *x != 0));
        }
    }
    let list = |f: &dyn Fn(&str) -> bool| -> String {
        let v: Vec<String> = NAMES
            .iter()
            .enumerate()
            .filter(|(i, n)| f(n) && stats[*i] > 0)
            .map(|(i, n)| format!("{}: {}", esc(n.trim_start_matches("fault: ")), stats[i]))
            .collect();
        format!("{{{}}}", v.join(", "))
    };
    let samples: Vec<String> = [0, b.specials, b.specials + b.runs / 2]
        .iter()
        .filter(|i| **i < b.specials + b.runs)
        .map(|i| {
            let t = nth(prop, seed, *i, thorough).to_text();
            let t: Vec<&str> = t.lines().collect();
            let cut = if t.len() > 14 { format!("\n... {} more lines", t.len() - 14) } else { String::new() };
            esc(&format!("run {}:\n{}{}", i, t[..t.len().min(14)].join("\n"), cut))
        })
        .collect();
    let stepping = exec::nodes().first().map(cpu::available).unwrap_or(false);
    let masked: Vec<String> = exec::nodes()
        .iter()
        .map(|n| esc(&format!("{} (CPU lacks mask {:05b}, detects {:05b})", node::IMAGES[n.id].name, node::IMAGES[n.id].mask, n.cpu())))
        .collect();
    let hours = wall.max(0.001) / 3600.0;
    let json = format!(
        r#"{{
 "property": "{prop}",
 "tier": "{tier}",
 "seed": {seed},
 "level": "exploration",
 "violations": {violations},
 "wall_s": {wall:.2},
 "coverage": {{
  "evaluations": {done},
  "distinct_nontrivial": {distinct},
  "rule": {rule},
  "samples": [{samples}],
  "simulated_runs": {done},
  "runs_planned": {planned},
  "runs_per_hour": {rph:.0},
  "seeds_per_hour": {rph:.0},
  "simulated_seconds": {sim:.3},
  "oracle_evaluations": {evals},
  "distinct_states": {states},
  "distinct_states_measure": "distinct tuples of (engine kind or record type, machine, fill of the engine's buffer or encoding, delivery path or fault, fragment length, buffer placement) reached by a judged operation",
  "faults_injected": {faults},
  "workload": {work},
  "single_stepping_available": {stepping},
  "machines": [{masked}],
  "real_components": ["all of the chf crate from /repo, compiled with --cfg chf_sim in four configurations (std; std+small-hash+debug assertions; no_std; no_std+small-hash+debug assertions)", "serde_json, bitcoin-io, hex-conservative, std::io adapters"],
  "stub_components": ["network, disk and clock (events of the plan)", "byte sources and sinks (scripted)", "thread scheduler (baton)", "allocator failure", "task stacks", "CPU feature reports"]
 }},
 "assumptions": ["the reference model (sim/src/refimpl.rs) implements the published standards; it is checked against vectors from unrelated implementations at every start", "switch points inside library calls are at compression functions, callbacks, accesses to static data (a third of the threaded runs) and single instructions (one sixteenth of the threaded runs, short calls)"]
}}
"#,
        tier = if thorough { "thorough" } else { "quick" },
        distinct = hist.len(),
        rule = esc("One evaluation is one simulated run: a plan (operations, deliveries, faults, thread switches, machine choices) generated from one seed and executed in a process of its own. It is non-trivial if at least one library result was compared with the reference; two runs are the same if they have the same history hash over (kinds, machines, buffer fills, lengths, paths, fault outcomes, thread switches)."),
        samples = samples.join(", "),
        planned = b.specials + b.runs,
        rph = done as f64 / hours,
        sim = stats[S::SimUs as usize] as f64 / 1e6,
        evals = stats[S::Evals as usize],
        states = states.len(),
        faults = list(&|n| n.starts_with("fault: ")),
        work = list(&|n| !n.starts_with("fault: ")),
        masked = masked.join(", "),
    );
    let dir = format!("{}/evidence", p.root);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, prop), json) {
        eprintln!("chfsim: evidence: {}", e);
    }
}
