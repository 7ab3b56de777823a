//! A run: the complete list of everything that will happen, decided by one seed. The text form is
//! the replay file.

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    /// Simulated time, microseconds.
    pub t: u64,
    /// Thread (0 in event mode).
    pub th: usize,
    pub op: &'static str,
    pub a: Vec<u64>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    /// 0: event mode, n: n threads under the baton scheduler.
    pub threads: usize,
    /// Run flags, see exec.rs.
    pub flags: u64,
    pub steps: Vec<Step>,
    /// Forced switches: at the i-th scheduling point, continue with thread `.1`.
    pub switches: Vec<(u64, usize)>,
}

pub const OPS: &[&str] = &[
    "open", "feed", "flush", "count", "fork", "drop", "finish", "peek", "ckpt", "crash", "resume",
    "warm", "refuse", "fab", "oneshot", "chunks", "drip", "hashtag", "dyntag", "retry", "keys", "mac",
    "fteq", "rec", "give", "take", "step", "marathon", "conv", "bigconst", "sipsame", "migrate",
    "giant", "probe", "replica", "reuse", "gate", "lend", "borrow",
];

pub fn op_name(s: &str) -> Option<&'static str> { OPS.iter().copied().find(|o| *o == s) }

impl Plan {
    pub fn push(&mut self, t: u64, th: usize, op: &str, a: &[u64]) {
        let op = op_name(op).unwrap_or_else(|| panic!("harness: unknown op {}", op));
        self.steps.push(Step { t, th, op, a: a.to_vec() });
    }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        s += "chfsim-replay 1\n";
        s += &format!("property {}\n", self.prop);
        s += &format!("seed {}\n", self.seed);
        s += &format!("threads {}\n", self.threads);
        s += &format!("flags {}\n", self.flags);
        for st in &self.steps {
            s += &format!("step {} {} {}", st.t, st.th, st.op);
            for x in &st.a {
                s += &format!(" {}", x);
            }
            s += "\n";
        }
        for (i, t) in &self.switches {
            s += &format!("switch {} {}\n", i, t);
        }
        s
    }

    pub fn parse(text: &str) -> Result<Plan, String> {
        let mut p = Plan::default();
        for (n, l) in text.lines().enumerate() {
            let mut w = l.split_whitespace();
            let bad = || format!("line {}: {}", n + 1, l);
            let num = |w: Option<&str>| -> Result<u64, String> {
                w.and_then(|x| x.parse().ok()).ok_or_else(bad)
            };
            match w.next() {
                None | Some("chfsim-replay") => {}
                Some(x) if x.starts_with('#') => {}
                Some("property") => p.prop = w.next().ok_or_else(bad)?.to_string(),
                Some("seed") => p.seed = num(w.next())?,
                Some("threads") => p.threads = num(w.next())? as usize,
                Some("flags") => p.flags = num(w.next())?,
                Some("step") => {
                    let t = num(w.next())?;
                    let th = num(w.next())? as usize;
                    let op = w.next().and_then(op_name).ok_or_else(bad)?;
                    let a = w.map(|x| x.parse().map_err(|_| bad())).collect::<Result<_, _>>()?;
                    p.steps.push(Step { t, th, op, a });
                }
                Some("switch") => p.switches.push((num(w.next())?, num(w.next())? as usize)),
                _ => return Err(bad()),
            }
        }
        Ok(p)
    }
}
