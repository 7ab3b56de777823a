//! From one seed to one plan: who hashes what, how the bytes travel, what fails, who runs when.

use crate::exec::*;
use crate::node::{path, script, NIMG};
use crate::plan::Plan;
use crate::refimpl::{core_of, HMAC, TAGGED};
use crate::rng::{mix, Rng};

pub const PROPS: [&str; 15] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16"];

/// Long single-purpose runs that come before the random ones.
pub fn specials(prop: &str, thorough: bool) -> Vec<(&'static str, Vec<u64>)> {
    let mut v: Vec<(&'static str, Vec<u64>)> = Vec::new();
    if std::env::var_os("CHFSIM_NO_SPECIALS").is_some() {
        return v;
    }
    // Machines whose builds are optimised; the slowest hashes first, so that workers finish evenly.
    let order = [5u64, 0, 3, 2, 4, 1, 6];
    match prop {
        "C01" => {
            for (i, k) in order.iter().enumerate() {
                v.push(("giant", vec![*k, 0, i as u64, [0, 1, 2][i % 3]]));
            }
            v.push(("giant", vec![6, 0, 1, 3]));
            v.push(("giant", vec![1, 0, 2, 3]));
            v.push(("bigconst", vec![0, 1, 29]));
            if thorough {
                for how in 0..6 {
                    for k in [5u64, 0, 3, 2, 4, 1, 6, 10, 11, 12, 13, 14, 15, 16, 22] {
                        v.push(("giant", vec![k, [0, 1, 8, 5][how as usize % 4], 50 + how, how]));
                    }
                }
                for k in [5u64, 0, 3, 2, 4, 1, 6, 10, 11, 12, 13, 14, 15, 16, 22] {
                    v.push(("marathon", vec![k, 8, 70 + k, 1 << 20]));
                    v.push(("marathon", vec![k, 6, 90 + k, 64 << 20]));
                }
                v.push(("bigconst", vec![0, 1, 32]));
                v.push(("bigconst", vec![6, 1, 29]));
                v.push(("bigconst", vec![8, 1, 32]));
            }
        }
        "C10" => {
            for (i, k) in order.iter().enumerate() {
                v.push(("marathon", vec![*k, 0, i as u64, 16 << 20]));
            }
            v.push(("giant", vec![6, 0, 3, 0]));
            if thorough {
                for k in [15u64, 10, 13, 12, 14, 11, 16, 22, 5, 0, 3, 2, 4, 1, 6] {
                    v.push(("marathon", vec![k, 1, 30 + k, 1 << 20]));
                    v.push(("giant", vec![k, 0, 60 + k, k % 3]));
                    v.push(("marathon", vec![k, 7, 90 + k, 64 << 20]));
                }
            }
        }
        "C08" => {
            v.push(("giant", vec![6, 0, 5, 3]));
            v.push(("giant", vec![6, 8, 6, 1]));
            v.push(("marathon", vec![6, 1, 7, 32 << 20]));
        }
        "C11" =>
            // Tags (or whatever is compared) of unusual size.
            for (i, len) in [1023u64, 1024, 1025, 2048, 2049, 4096, 4097, 8193, 16385, 32769, 65537].iter().enumerate() {
                for n in if thorough { &[0u64, 1, 2, 3, 4, 5, 6, 7, 8, 9][..] } else { &[0, 6, 8, 9][..] } {
                    let mut a = vec![*n, 3 + i as u64 * 16 + n, 0, *len, *n, 0];
                    for (kind, at) in [(1u64, 0), (1, len - 1), (5, 0), (2, len / 2)] {
                        a.push(kind << 56 | i as u64 % 8 << 16 | at & 0xffff);
                    }
                    v.push(("probe", a));
                }
            },
        "C16" => {
            // What recurses once in a while has to do it often to be seen.
            for (i, k) in [0u64, 3, 12, 22, 11, 1, 16, 6].iter().enumerate() {
                v.push(("giant", vec![*k, 0, 60 + k, if thorough { 0 } else { [0, 3, 1, 4][i % 4] }]));
                if thorough {
                    v.push(("giant", vec![*k, 8, 80 + k, 1]));
                    v.push(("giant", vec![*k, 0, 90 + k, 3]));
                }
            }
        }
        "C05" if thorough =>
            for k in [15u64, 10, 13, 12, 14, 11, 16] {
                v.push(("marathon", vec![k, 0, 30 + k, 1 << 20]));
            },
        _ => {}
    }
    // Single slices of tens of megabytes.
    let (kinds, nodes, hows): (&[u64], &[u64], &[u64]) = match prop {
        "C01" => (&crate::marathon::ALL, &[6, 9], &[0, 1, 2, 3, 4, 5]),
        "C04" => (&crate::marathon::ALL, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[0, 3]),
        "C05" => (&[10, 11, 12, 13, 14, 15, 16, 17, 18], &[0, 8], &[0, 1]),
        "C06" => (&[22], &[0, 1, 6, 8, 9], &[0, 1, 3, 4]),
        "C08" => (&[6, 16], &[0, 6, 8, 9], &[0, 1, 2, 3, 4, 5]),
        "C09" | "C16" => (&crate::marathon::ALL, &[0, 1, 6, 8, 9], &[0, 1, 3, 4]),
        "C10" => (&crate::marathon::ALL, &[6, 8, 9], &[0, 1, 2]),
        "C15" => (&crate::marathon::ALL, &[0, 1, 6, 8, 9], &[0, 1, 2, 3, 4]),
        _ => (&[], &[], &[]),
    };
    for (i, k) in kinds.iter().enumerate() {
        for (j, n) in nodes.iter().enumerate() {
            let one = [hows[(i + j) % hows.len()]];
            for how in if thorough { hows } else { &one[..] } {
                v.push(("giant", vec![*k, *n, 200 + i as u64 * 16 + j as u64, *how, 26]));
            }
        }
    }
    v
}

struct Ev {
    t: u64,
    seq: u64,
    th: usize,
    op: &'static str,
    a: Vec<u64>,
}

struct G {
    r: Rng,
    ev: Vec<Ev>,
    seq: u64,
    /// What this run uses (swarm): delivery paths, message classes, size profile, fault kinds.
    paths: Vec<u64>,
    classes: Vec<u64>,
    sizes: [u64; 6],
    nodes: Vec<u64>,
    net: [u64; 3],
    faulty_sources: bool,
    slots: u64,
    th: usize,
    /// Caller threads over which independent activities are spread (0: none).
    mt: u64,
    drip: bool,
}

const ALL_PATHS: [u64; 13] = [
    path::INPUT, path::WRITE, path::WRITE_ALL, path::BWRITE, path::BWRITE_ALL, path::VECTORED, path::COPY,
    path::BUFWRITER, path::LINEWRITER, path::WRITE_FMT, path::BCOPY, path::BUFCOPY, path::BY_REF_CHAIN,
];

impl G {
    fn new(seed: u64) -> G {
        let mut r = Rng::new(seed);
        // Swarm: every run has its own mix.
        let paths = match r.below(4) {
            0 => vec![path::INPUT],
            1 => {
                let n = r.range(2, 4);
                (0..n).map(|_| r.pick(&ALL_PATHS)).collect()
            }
            _ => {
                let mut v = ALL_PATHS.to_vec();
                v.extend([path::INPUT, path::INPUT, path::INPUT, path::WRITE, path::COPY, path::BCOPY]);
                v
            }
        };
        let classes = if r.chance(1, 3) { vec![r.below(7)] } else { vec![0, 0, 0, 1, 2, 3, 4, 4, 5, 6] };
        let sizes = match r.below(6) {
            0 => [10, 1, 1, 0, 0, 0],
            1 => [1, 10, 1, 0, 0, 0],
            2 => [1, 1, 1, 6, 1, 0],
            _ => [3, 8, 4, 2, 1, 0],
        };
        let mut nodes: Vec<u64> = vec![0, 0, 0, 1];
        nodes.extend(0..NIMG as u64);
        if r.chance(1, 4) {
            nodes = vec![r.below(NIMG as u64)];
        }
        let net = [r.below(4), r.below(4), r.below(4)];
        let faulty_sources = r.chance(2, 3);
        G { r, ev: Vec::new(), seq: 0, paths, classes, sizes, nodes, net, faulty_sources, slots: 0, th: 0, mt: 0, drip: false }
    }

    fn push(&mut self, t: u64, op: &'static str, a: Vec<u64>) {
        self.seq += 1;
        self.ev.push(Ev { t, seq: self.seq, th: self.th, op, a });
    }
    /// This run's activities are spread over threads that share one machine, mostly.
    fn spread(&mut self, one_in: u64) {
        if self.r.chance(1, one_in) {
            self.mt = self.r.range(2, 4);
            if self.r.chance(3, 4) {
                self.nodes = vec![self.node()];
            }
        }
    }
    fn hop(&mut self) {
        if self.mt > 0 {
            self.th = self.r.below(self.mt) as usize;
        }
    }
    fn node(&mut self) -> u64 {
        let k = self.r.below(self.nodes.len() as u64) as usize;
        self.nodes[k]
    }
    fn class(&mut self) -> u64 {
        let k = self.r.below(self.classes.len() as u64) as usize;
        self.classes[k]
    }
    fn place(&mut self) -> u64 { self.r.pick(&[0, 0, 1, 2, 3, 4, 5, 6, 7, 9, 17, 33]) }

    /// A length, biased to block boundaries.
    fn len(&mut self, unit: u64) -> u64 {
        match self.r.weighted(&self.sizes.clone()) {
            0 => self.r.below(10),
            1 => {
                let k = self.r.pick(&[0, 1, 1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 16, 17]) * unit;
                let d = self.r.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 18, 31, 33]);
                if self.r.chance(1, 2) {
                    k + d
                } else {
                    k.saturating_sub(d)
                }
            }
            2 => self.r.below(2 * unit + 2),
            3 if self.r.chance(1, 4) => self.near(8, 12),
            3 => self.r.below(1200),
            4 if self.r.chance(1, 3) => self.near(11, 14),
            4 => self.r.below(20_000),
            _ if self.r.chance(1, 3) => self.near(13, 17),
            _ => self.r.below(200_000),
        }
    }

    /// A length next to a power of two.
    fn near(&mut self, lo: u64, hi: u64) -> u64 {
        let k = 1u64 << self.r.range(lo, hi);
        let d = self.r.pick(&[0, 0, 1, 1, 2, 7, 8, 9, 63, 64, 65, 127, 128]);
        if self.r.chance(1, 2) {
            k + d
        } else {
            k - d
        }
    }

    fn unit(kind: u64) -> u64 { core_of(kind as u32).block() as u64 }

    fn small_count(&mut self) -> u64 {
        match self.r.below(4) {
            0 => self.r.range(1, 3),
            1 => self.r.range(1, 80),
            2 => self.r.pick(&[7, 8, 9, 63, 64, 65, 127, 128, 129, 511, 512, 513]),
            _ => self.r.range(1, 1000),
        }
    }

    /// What a source does: short reads, interruptions and, if `fatal`, a fault that ends it.
    fn script(&mut self, fatal: bool) -> Vec<u64> {
        let n = self.r.below(7);
        let mut v: Vec<u64> = (0..n)
            .map(|_| {
                if self.r.chance(1, 4) {
                    script::INTERRUPTED << 56
                } else {
                    let k = self.small_count();
                    script::DATA << 56 | k
                }
            })
            .collect();
        if fatal && self.faulty_sources && self.r.chance(1, 2) {
            v.push(self.r.pick(&[script::WOULDBLOCK, script::ERROR, script::PANIC, script::EOF, script::ERROR]) << 56);
        }
        v
    }

    fn open(&mut self, t: u64, slot: u64, node: u64, kind: u64) {
        let unit = Self::unit(kind);
        let keylen = if (HMAC as u64..TAGGED as u64).contains(&kind) { self.keylen(unit) } else { 0 };
        let (k0, k1) = self.sipkeys();
        let a = vec![slot, node, kind, self.r.below(20), self.r.next(), keylen, k0, k1, self.r.next(), self.class()];
        self.push(t, "open", a);
    }

    fn keylen(&mut self, unit: u64) -> u64 {
        match self.r.below(6) {
            0 => 0,
            1 => self.r.below(10),
            2 | 3 => (unit + self.r.below(5)).saturating_sub(2),
            4 => self.r.pick(&[20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 131, 255, 256, 257, 1000, 4096]),
            _ if self.r.chance(1, 8) => self.near(9, 16),
            _ => self.r.below(300),
        }
    }

    fn sipkeys(&mut self) -> (u64, u64) {
        match self.r.below(8) {
            0 => (0, 0),
            1 => (0x0706050403020100, 0x0f0e0d0c0b0a0908),
            2 => (u64::MAX, u64::MAX),
            3 => (self.r.next(), 0),
            4 => (0, self.r.next()),
            5 => {
                let k = self.r.next();
                (k, k)
            }
            6 => (1 << self.r.below(64), 1 << self.r.below(64)),
            _ => (self.r.next(), self.r.next()),
        }
    }

    /// Times at which the fragments of a message are available in order, and what the network did
    /// to each.
    fn network(&mut self, t0: u64, n: u64) -> Vec<(u64, u64)> {
        let gap = self.r.range(10, 3000);
        let jitter = self.r.pick(&[10, 500, 20_000]);
        let mut at = 0;
        let mut v = Vec::new();
        for j in 0..n {
            let mut bits = 0;
            let mut a = t0 + j * gap + self.r.below(jitter);
            let loss = self.net[2];
            let mut rto = 200_000;
            while self.r.below(16) < loss && rto < 4_000_000 {
                a += rto;
                rto *= 2;
                bits |= 4;
            }
            if self.r.below(16) < self.net[1] {
                bits |= 2;
            }
            if self.r.below(16) < self.net[0] {
                a += self.r.below(60_000);
            }
            if a < at {
                bits |= 1;
            } else {
                at = a;
            }
            v.push((at, bits));
        }
        v
    }

    fn fresh_slot(&mut self) -> u64 {
        self.slots += 1;
        self.slots + 1000 * self.th as u64
    }

    fn feed(&mut self, t: u64, slot: u64, kind: u64, net: u64) {
        let len = self.len(Self::unit(kind));
        let k = self.r.below(self.paths.len() as u64) as usize;
        let p = self.paths[k];
        let place = self.place();
        let arg = match self.r.below(3) {
            0 => self.r.below(len + 1),
            1 => self.r.pick(&[1, 7, 8, 63, 64, 65, 512, 4096]),
            _ => self.r.below(200),
        };
        let mut a = vec![slot, p, len, place, arg, net];
        if matches!(p, path::COPY | path::BCOPY | path::BUFCOPY | path::VECTORED) {
            let s = self.script(p != path::VECTORED);
            a.extend(s);
        }
        self.push(t, "feed", a);
    }

    /// One session: opened, fed as its fragments arrive, looked at in between, finished.
    fn session(&mut self, t0: u64, kind: u64, node: u64, looks: &[(&'static str, u64)]) -> (u64, u64) {
        self.hop();
        let slot = self.fresh_slot();
        self.open(t0, slot, node, kind);
        self.body(t0, slot, kind, looks)
    }

    fn body(&mut self, t0: u64, slot: u64, kind: u64, looks: &[(&'static str, u64)]) -> (u64, u64) {
        let frags = match self.r.below(5) {
            0 => self.r.range(0, 1),
            1..=3 => self.r.range(2, 7),
            _ if self.r.chance(1, 40) => self.r.range(100, 400),
            _ => self.r.range(8, 20),
        };
        let sizes = self.sizes;
        if frags >= 100 {
            self.sizes = [8, 3, 3, 0, 0, 0];
        }
        let mut last = t0 + 1;
        for (at, bits) in self.network(t0, frags) {
            self.feed(at, slot, kind, bits);
            last = last.max(at);
            for (what, w) in looks {
                if self.r.below(100) < *w {
                    self.look(at, slot, what);
                }
            }
        }
        self.sizes = sizes;
        if self.drip && self.mt == 0 && self.r.chance(1, 150) {
            let (n, size) = (self.r.pick(&[300, 1000, 33_000, 66_000, 70_000]), self.r.pick(&[1, 1, 1, 2, 3, 8, 64]));
            last += 1;
            self.push(last, "drip", vec![slot, n, size]);
        }
        let end = last + self.r.below(5000);
        if self.r.chance(9, 10) {
            let v = self.r.below(12);
            self.push(end, "finish", vec![slot, v]);
        }
        (slot, end)
    }

    fn look(&mut self, at: u64, slot: u64, what: &'static str) {
        let t = at + 1 + self.r.below(30);
        match what {
            "fork" => {
                let (mode, v) = (self.r.below(3), self.r.below(12));
                match mode {
                    0 => self.push(t, "fork", vec![slot, slot, 1, v]),
                    1 => self.push(t, "fork", vec![slot, slot, 0, v]),
                    _ => {
                        let dst = self.fresh_slot();
                        self.push(t, "fork", vec![slot, dst, 0, v]);
                        // The fork's message goes on on its own.
                        for _ in 0..self.r.below(4) {
                            let later = t + self.r.below(60_000);
                            self.feed(later, dst, 1, 0);
                        }
                        if self.r.chance(1, 2) {
                            let later = t + self.r.below(100_000);
                            self.push(later, "finish", vec![dst, v]);
                        }
                    }
                }
            }
            "flush" => {
                let w = self.r.below(2);
                self.push(t, "flush", vec![slot, w])
            }
            "sipsame" => {
                let p = self.place();
                self.push(t, "sipsame", vec![slot, p])
            }
            "warm" => {
                let v = self.r.below(4);
                let extra = if self.r.chance(1, 3) { self.bignum() } else { 0 };
                self.push(t, "warm", vec![slot, v, extra])
            }
            "migrate" => {
                let (n, v) = (self.node(), self.r.below(4));
                self.push(t, "migrate", vec![slot, n, v])
            }
            "ckpt" => {
                let (al, f) = (self.r.below(3), self.r.weighted(&[6, 1, 1, 1]) as u64);
                let f1 = self.r.next();
                self.push(t, "ckpt", vec![slot, al, f, f1])
            }
            "crash" => {
                let n = self.node();
                self.push(t, "crash", vec![n]);
                let later = t + self.r.range(1, 100_000);
                let (n, v) = (self.node(), self.r.below(4));
                self.push(later, "resume", vec![slot, n, v]);
            }
            "retry" => {
                let a = self.retry_args(slot);
                self.push(t, "retry", a)
            }
            _ => self.push(t, what, vec![slot]),
        }
    }

    fn retry_args(&mut self, slot: u64) -> Vec<u64> {
        let total = self.len(64).min(30_000);
        let p = self.r.pick(&[path::COPY, path::BCOPY, path::BUFCOPY]);
        let mut a = vec![slot, total, p, self.place(), self.r.below(100)];
        let was = self.faulty_sources;
        self.faulty_sources = true;
        for k in 0..self.r.range(1, 5) {
            if k > 0 {
                a.push(u64::MAX);
            }
            let s = self.script(true);
            a.extend(s);
        }
        self.faulty_sources = was;
        a
    }

    /// A large number near a power of two.
    fn bignum(&mut self) -> u64 {
        let e = if self.r.chance(1, 3) {
            self.r.range(8, 60)
        } else {
            self.r.pick(&[8, 16, 24, 29, 30, 31, 32, 32, 32, 33, 35, 40, 48, 53, 56, 60])
        };
        let b = 1u64 << e;
        match self.r.below(4) {
            0 => b,
            1 => b - 128 * self.r.below(3).min(b >> 8),
            2 => b + 128 * self.r.below(4),
            _ => b + self.r.next() % b,
        }
    }

    fn fab(&mut self, t: u64, kind: u64, looks: &[(&'static str, u64)]) {
        self.hop();
        let slot = self.fresh_slot();
        let c = if self.r.chance(1, 12) { 0 } else { self.bignum() };
        let n = self.node();
        let class = self.r.pick(&[0, 0, 0, 1, 2, 3, 5, 6, 7]);
        let a = vec![slot, n, kind, c, self.r.next(), class, self.r.next(), self.class(), self.r.below(4)];
        self.push(t, "fab", a);
        self.body(t + 1, slot, kind, looks);
    }

    fn oneshot(&mut self, t: u64, kind: u64) {
        self.hop();
        let v = match kind {
            1 => self.r.pick(&[0, 1, 4, 4]),
            6 => self.r.pick(&[0, 1, 5, 6, 7, 8]),
            _ => self.r.below(2),
        };
        let len = if self.r.chance(1, 60) { self.r.below(1 << 20) } else { self.len(Self::unit(kind)) };
        let (k0, k1) = if kind == 6 && v > 1 { self.sipkeys() } else { (0, 0) };
        let n = self.node();
        let a = vec![n, kind, v, len, self.place(), self.r.next(), self.class(), k0, k1];
        self.push(t, "oneshot", a);
    }

    /// One buffer, used again and again.
    fn reuse(&mut self, t: u64, kind: u64, what: u64) {
        self.hop();
        let v = match kind {
            1 => self.r.pick(&[0, 1, 4]),
            6 => self.r.pick(&[0, 1, 5, 6, 7, 8]),
            _ => self.r.below(4),
        };
        let len = self.len(Self::unit(kind)).min(5000);
        let (k0, k1) = self.sipkeys();
        let n = self.node();
        let k = crate::refimpl::KINDS.iter().position(|k| *k as u64 == kind).unwrap_or(0) as u64;
        let a = vec![n, k, v, len, self.place(), self.r.next(), self.class(), k0, k1, what, self.r.range(2, 6)];
        self.push(t, "reuse", a);
    }

    fn chunks(&mut self, t: u64, kind: u64, boom: bool) {
        self.hop();
        let mut len = self.len(Self::unit(kind));
        let n = self.node();
        let many = self.r.chance(1, 30);
        let most = if many { self.r.pick(&[len / 50 + 2, len / 300 + 1, 1, 1]) } else { 0 };
        if most == 1 {
            len = len.max(self.r.range(100, 900));
        }
        // A long list of chunks breaks off as rarely as a short one.
        let rare = if many { 1000 } else { 20 };
        let mut a = vec![n, kind, self.r.below(7), len, self.place(), self.r.next(), self.class()];
        let count = match many {
            true => self.r.pick(&[150, 300, 520, 257]) + self.r.below(200),
            false => self.r.below(9),
        };
        for _ in 0..count {
            let x = if self.r.chance(1, 4) && most != 1 {
                0
            } else if many {
                self.r.range(u64::from(most == 1), most)
            } else {
                self.r.below(len + 10) / 3
            };
            a.push(x | if boom && self.r.chance(1, rare) { script::BOOM } else { 0 });
        }
        self.push(t, "chunks", a);
    }

    fn kind(&mut self) -> u64 {
        match self.r.below(10) {
            0..=5 => self.r.below(7),
            6 | 7 => self.r.range(10, 18),
            _ => self.r.range(20, 31),
        }
    }

    fn mac(&mut self, t: u64) {
        self.hop();
        let kind = self.r.below(9);
        let unit = core_of(HMAC + kind as u32).block() as u64;
        let (s, d) = (self.node(), self.node());
        let a = vec![
            kind,
            s,
            d,
            self.r.next(),
            self.keylen(unit),
            self.len(unit).min(20_000),
            self.r.next(),
            if self.r.chance(1, 5) { 0 } else { self.r.below(21) },
            self.r.next() >> 8,
            self.r.next() >> 8,
            self.r.pick(&[0x80, 0xff, 1, 0x55, 0x40, 0xaa, 3, 0xfe]),
            self.r.next(),
            self.class(),
        ];
        self.push(t, "mac", a);
    }

    fn fteq(&mut self, t: u64, same_len: bool) {
        self.hop();
        let n = self.node();
        let len = match self.r.below(6) {
            0 => self.r.below(10),
            1 => self.r.pick(&[8, 16, 20, 28, 32, 48, 64]),
            2 => self.r.pick(&[15, 16, 17, 31, 33, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096]),
            3 if self.r.chance(1, 4) => self.near(10, 17),
            3 => self.r.below(70_000),
            _ => self.r.below(200),
        };
        let nd = self.r.pick(&[0, 0, 1, 1, 1, 2, 2, 3, 4, 8, 16, 64, 128, 255, 256, 257, 512]);
        let mask = self.r.pick(&[0, 0, 0, 0xff, 0x80, 1, 0x40, 0x10, 0x55, 0xaa, 2, 0xfe, 0x7f]);
        let extra = if same_len || self.r.chance(3, 4) { 0 } else { self.r.range(1, 80) };
        let a = vec![n, len, self.r.next(), nd, mask, self.r.below(4), self.r.below(4), extra, self.r.below(7)];
        self.push(t, "fteq", a);
    }

    fn rec(&mut self, t: u64, no_alloc: bool) {
        self.hop();
        let ty = self.r.below(NREC);
        let slot = self.r.below(3);
        let (w, d) = (self.node(), self.node());
        let enc = if no_alloc { self.r.pick(&[0, 1, 2, 0, 3, 4, 5, 9]) } else { self.r.below(10) };
        let room = match self.r.below(4) {
            0 => 1 + self.r.below(140),
            _ => 0,
        };
        let corrupt = if self.r.chance(1, 4) { 0 } else { self.r.below(13) };
        let dec = if no_alloc { 3 * self.r.below(10) + 1 } else { self.r.below(30) };
        let hold = if self.r.chance(1, 2) { 0 } else { self.r.below(5) };
        let mut a = vec![
            ty,
            self.r.next(),
            self.class(),
            w,
            d,
            slot,
            enc,
            room,
            self.r.below(20),
            corrupt,
            self.r.next() >> 8,
            self.r.next() >> 8,
            dec,
            hold,
        ];
        let s = self.script(true);
        a.extend(s);
        self.push(t, "rec", a);
    }

    fn finish(mut self, prop: &str, seed: u64, flags: u64) -> Plan {
        self.ev.sort_by_key(|e| (e.t, e.seq));
        let mut p = Plan { prop: prop.into(), seed, flags, ..Default::default() };
        if self.mt > 0 && flags & FL_LOCK == 0 {
            p.threads = self.mt as usize;
            p.switches = switches(&mut self.r, self.mt);
            p.flags |= self.r.pick(&[0, FL_POINTS, FL_POINTS, FL_DATA]);
        } else {
            if self.mt > 0 {
                for e in &mut self.ev {
                    e.th = 0;
                }
            }
        }
        for e in self.ev {
            p.push(e.t, e.th, e.op, &e.a);
        }
        p
    }
}

/// Interleavings: when to switch to whom.
fn switches(r: &mut Rng, threads: u64) -> Vec<(u64, usize)> {
    let mut v = Vec::new();
    let style = r.below(5);
    let (lo, hi, n) = match style {
        0 => (1, 3, 400),    // almost every point
        1 => (1, 30, 200),
        2 => (1, 200, 60),
        3 => (20, 60, 100),
        _ => (1, 2000, 6),   // a few preemptions anywhere
    };
    let mut at = r.below(20);
    for _ in 0..r.range(1, n) {
        v.push((at, r.below(threads) as usize));
        at += r.range(lo, hi);
    }
    v
}

/// The same when every instruction is a scheduling point.
fn instr_switches(r: &mut Rng, threads: u64) -> Vec<(u64, usize)> {
    let mut v = Vec::new();
    let (hi, n) = r.pick(&[(40, 60), (300, 100), (3000, 20)]);
    let mut at = r.below(6000);
    for _ in 0..r.range(1, n) {
        v.push((at, r.below(threads) as usize));
        at += r.range(1, hi);
    }
    v
}

pub fn plan(prop: &str, seed: u64, thorough: bool) -> Plan {
    let mut g = G::new(seed);
    let span = 200_000u64;
    let deep = if thorough { 2 } else { 1 };
    match prop {
        "C01" => {
            g.drip = true;
            g.spread(16);
            let looks = [("fork", 12), ("flush", 8), ("peek", 15)];
            if g.r.chance(1, 12) {
                g.sizes = [1, 2, 1, 2, 3, 3];
            }
            for _ in 0..g.r.range(1, 4 * deep) {
                let (t, k, n) = (g.r.below(span), g.kind(), g.node());
                g.session(t, k, n, &looks);
            }
            for _ in 0..g.r.below(5) {
                let (t, k) = (g.r.below(span), g.kind());
                match g.r.below(8) {
                    0..=3 => g.oneshot(t, k),
                    4..=6 => g.chunks(t, k, true),
                    _ => {
                        let what = g.r.below(4);
                        g.reuse(t, k, what)
                    }
                }
            }
            if g.r.chance(1, 4) {
                let (t, k) = (g.r.below(span), g.kind());
                g.fab(t, k, &looks);
            }
            g.finish(prop, seed, 0)
        }
        "C02" => {
            g.spread(16);
            let looks = [("ckpt", 35), ("crash", 12), ("migrate", 15), ("fork", 8), ("peek", 12), ("warm", 12)];
            g.faulty_sources &= g.r.chance(1, 3);
            for _ in 0..g.r.range(1, 4 * deep) {
                let (t, k, n) = (g.r.below(span), g.kind(), g.node());
                g.session(t, k, n, &looks);
            }
            for _ in 0..g.r.below(3) {
                let (t, k) = (g.r.below(span), g.kind());
                g.fab(t, k, &looks);
            }
            for _ in 0..g.r.below(3) {
                let (t, k, n) = (g.r.below(span), g.kind(), g.node());
                let c = match g.r.below(4) {
                    0 => g.r.below(300),
                    1 => g.bignum() + g.r.below(128),
                    2 => {
                        // A multiple of another engine's block size.
                        let m = g.r.pick(&[8, 16, 20, 32, 63, 64]);
                        m * g.r.range(1, 40)
                    }
                    _ => g.r.below(100) * 128 + g.r.pick(&[1, 8, 32, 63, 64, 65, 127]),
                };
                let a = vec![n, k, c, g.r.next(), g.r.below(4)];
                g.hop();
                g.push(t, "refuse", a);
            }
            let f = g.r.pick(&[0, 0, FL_COUNT]);
            g.finish(prop, seed, f)
        }
        "C03" if g.r.chance(1, 12) => {
            // Several threads read one engine at the same time; nothing else is looked at closely.
            let threads = g.r.range(2, 3);
            let (node, rounds) = (g.node(), g.r.range(2, 5));
            g.nodes = vec![node];
            for r in 0..rounds {
                let (t, k) = (r * 1000, g.kind());
                g.th = 0;
                let slot = g.fresh_slot();
                g.open(t, slot, node, k);
                let unit = G::unit(k);
                let len = g.r.pick(&[0, 1, 2, 3, 4]) * unit + if g.r.chance(1, 4) { g.r.below(unit) } else { 0 };
                g.push(t + 1, "feed", vec![slot, 0, len, 0, 0, 0]);
                g.push(t + 2, "lend", vec![slot, r]);
                for th in 0..threads {
                    g.th = th as usize;
                    for j in 0..g.r.range(1, 3) {
                        let (dst, order) = (g.fresh_slot(), g.r.below(3));
                        g.push(t + 3 + j, "borrow", vec![r, dst, order]);
                    }
                }
            }
            let mut v = Vec::new();
            let hi = g.r.pick(&[4, 20, 60, 200]);
            let mut at = g.r.below(60);
            for _ in 0..g.r.range(1, 80) {
                v.push((at, g.r.below(threads) as usize));
                at += g.r.range(1, hi);
            }
            let mut p = g.finish(prop, seed, FL_INSTR | FL_SHARE);
            p.threads = threads as usize;
            p.switches = v;
            p
        }
        "C03" | "C06" if prop == "C03" || g.r.chance(1, 3) => {
            let mut threads = g.r.range(2, 5);
            let event = prop == "C03" && g.r.chance(1, 4);
            // Everybody on one machine: what could be shared is shared.
            let node = g.node();
            let tagged = prop == "C06";
            let base = if tagged { g.r.range(20, 31) } else { g.kind() };
            let mut same = g.r.chance(1, 3);
            let looks = [("fork", 20), ("peek", 10), ("drop", 3), ("give", 10), ("take", 10), ("flush", 3)];
            g.sizes = [3, 8, 4, 2, 0, 0];
            g.nodes = vec![node];
            let instr = !event && g.r.chance(1, 16);
            let data = !event && !instr && g.r.chance(1, 3);
            let big = !instr && g.r.chance(1, 4);
            if instr {
                g.sizes = [3, 2, 4, 0, 0, 0];
                threads = g.r.range(2, 3);
                same |= g.r.chance(1, 2);
            }
            for th in 0..threads {
                g.th = th as usize;
                for _ in 0..g.r.range(1, if big { 6 } else if instr { 1 } else { 3 }) {
                    let t = g.r.below(span);
                    let k = if same {
                        base
                    } else if tagged {
                        g.r.pick(&[20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 1, 11])
                    } else {
                        g.kind()
                    };
                    let n = if g.r.chance(1, 10) { g.r.below(NIMG as u64) } else { node };
                    let (slot, end) = if tagged && g.r.chance(1, 4) {
                        let slot = g.fresh_slot();
                        g.dyntag(t, slot, k, n);
                        g.body(t, slot, k, &looks[..2])
                    } else {
                        g.session(t, k, n, &looks[..4])
                    };
                    if g.r.chance(1, 4) {
                        let at = t + g.r.below(end - t + 1);
                        let bx = g.r.below(2);
                        g.push(at, "give", vec![slot, bx]);
                    }
                    if g.r.chance(1, 4) {
                        let at = t + g.r.below(end - t + 1);
                        let bx = g.r.below(2);
                        g.push(at, "lend", vec![slot, bx]);
                    }
                    for _ in 0..if instr { 2 } else { g.r.below(3) } {
                        let at = t + g.r.below(2 * (end - t) + 1);
                        let (bx, dst) = (g.r.below(2), g.fresh_slot());
                        let order = g.r.below(6);
                        g.push(at, "borrow", vec![bx, dst, order]);
                        if g.r.chance(1, 2) {
                            g.feed(at + 1, dst, k, 0);
                        }
                    }
                    if g.r.chance(1, 3) {
                        let at = t + g.r.below(end - t + 1);
                        let (bx, dst) = (g.r.below(2), g.fresh_slot());
                        g.push(at, "take", vec![bx, dst]);
                        for _ in 0..g.r.below(3) {
                            let at = at + g.r.below(20_000);
                            g.feed(at, dst, k, 0);
                        }
                    }
                }
                for _ in 0..g.r.below(4) {
                    let t = g.r.below(span);
                    let k = if same { base } else { g.kind() };
                    match g.r.below(if tagged { 7 } else { 5 }) {
                        0 => g.oneshot(t, k),
                        1 => g.chunks(t, k, true),
                        2 => g.mac(t),
                        3 if instr => g.oneshot(t, k),
                        3 => {
                            let what = if tagged { 2 * g.r.below(2) } else { g.r.below(4) };
                            g.reuse(t, k, what)
                        }
                        _ => {
                            let tl = g.taglen();
                            let a = vec![node, g.r.next(), tl, g.class()];
                            g.push(t, "hashtag", a);
                        }
                    }
                }
            }
            // Looks generated with a session's slot only: give and take need a box.
            for e in &mut g.ev {
                if e.op == "give" && e.a.len() == 1 {
                    e.a.push(e.t % 2);
                }
                if e.op == "take" && e.a.len() == 1 {
                    e.a = vec![e.t % 2, e.a[0] + 500];
                }
            }
            let sw = if instr { instr_switches(&mut g.r, threads) } else { switches(&mut g.r, threads) };
            let nest = if !instr && g.r.chance(1, 4) { FL_NEST } else { 0 };
            let fl = if instr {
                FL_INSTR
            } else if data {
                FL_DATA
            } else if g.r.chance(3, 4) {
                FL_POINTS
            } else {
                0
            };
            let mut p = g.finish(prop, seed, fl | nest);
            if event {
                p.flags = nest;
            } else {
                p.threads = threads as usize;
                p.switches = sw;
            }
            p
        }
        "C04" => {
            // All machines in lockstep.
            g.faulty_sources = false;
            g.sizes = [3, 8, 4, 2, 0, 0];
            let looks = [("fork", 8), ("migrate", 25), ("peek", 5)];
            if g.r.chance(1, 12) {
                // Single-stepped on the simulated CPU.
                let (k, t, n) = (g.kind(), g.r.below(span), g.node());
                let slot = g.fresh_slot();
                g.open(t, slot, n, k);
                for j in 0..g.r.range(1, 2) {
                    let len = g.r.pick(&[0, 1, 55, 63, 64, 65, 100, 128, 130, 200]);
                    let fin = g.r.below(2);
                    let v = g.r.below(4);
                    g.push(t + j + 1, "step", vec![slot, len, fin, v]);
                }
            } else {
                for _ in 0..g.r.range(1, 2) {
                    let (t, k, n) = (g.r.below(span), g.kind(), g.node());
                    g.session(t, k, n, &looks);
                }
                if g.r.chance(1, 4) {
                    let (t, k) = (g.r.below(span), g.kind());
                    g.fab(t, k, &looks);
                }
                if g.r.chance(1, 3) {
                    let k = g.kind();
                    let t = g.r.below(span);
                    let keep = g.seq as usize;
                    g.oneshot(t, k);
                    let a = g.ev[keep].a.clone();
                    for n in 0..NIMG as u64 {
                        if n != a[0] {
                            let mut b = a.clone();
                            b[0] = n;
                            g.push(t, "oneshot", b);
                        }
                    }
                }
            }
            let f = FL_LOCK | if g.r.chance(2, 3) { FL_MID } else { 0 } | if g.r.chance(1, 3) { FL_COUNT } else { 0 };
            g.finish(prop, seed, f)
        }
        "C05" => {
            g.spread(10);
            for _ in 0..g.r.range(2, 12 * deep) {
                let t = g.r.below(span);
                match g.r.below(12) {
                    0..=3 => g.fteq(t, false),
                    4 => {
                        let (k, what) = (g.r.range(10, 18), g.r.pick(&[3, 3, 4]));
                        g.reuse(t, k, what)
                    }
                    _ => g.mac(t),
                }
            }
            for _ in 0..g.r.below(3) {
                let (t, k, n) = (g.r.below(span), g.r.range(10, 18), g.node());
                g.session(t, k, n, &[("fork", 15), ("peek", 10), ("flush", 5)]);
            }
            if g.r.chance(1, 5) {
                let (t, k) = (g.r.below(span), g.r.range(10, 18));
                g.fab(t, k, &[("fork", 15)]);
            }
            g.finish(prop, seed, 0)
        }
        "C06" => {
            let looks = [("fork", 12), ("ckpt", 15), ("crash", 8), ("peek", 8), ("migrate", 8)];
            for _ in 0..g.r.range(2, 6 * deep) {
                let (t, n) = (g.r.below(span), g.node());
                let k = g.r.pick(&[20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 22, 28, 1]);
                if k >= 20 && g.r.chance(1, 3) {
                    let slot = g.fresh_slot();
                    g.dyntag(t, slot, k, n);
                    g.body(t, slot, k, &looks);
                } else {
                    g.session(t, k, n, &looks);
                }
                if g.r.chance(1, 3) {
                    g.oneshot(t, k);
                }
                if g.r.chance(1, 6) {
                    g.chunks(t, k, true);
                }
                if g.r.chance(1, 6) {
                    let what = g.r.below(3);
                    g.reuse(t, k, what);
                }
            }
            for _ in 0..g.r.below(6) {
                let (t, n) = (g.r.below(span), g.node());
                let tl = g.taglen();
                let a = vec![n, g.r.next(), tl, g.class()];
                g.push(t, "hashtag", a);
            }
            if g.r.chance(1, 5) {
                let (t, k) = (g.r.below(span), g.r.range(20, 31));
                g.fab(t, k, &[("fork", 15)]);
            }
            g.finish(prop, seed, 0)
        }
        "C07" => {
            g.spread(10);
            for _ in 0..g.r.range(4, 30 * deep) {
                let t = g.r.below(span);
                if g.r.chance(1, 12) {
                    let n = g.node();
                    let a = vec![g.r.below(NREC), g.r.next(), g.class(), n];
                    g.hop();
                    g.push(t, "conv", a);
                } else {
                    g.rec(t, false);
                }
            }
            g.finish(prop, seed, 0)
        }
        "C08" => {
            g.spread(10);
            let looks = [("fork", 15), ("keys", 25), ("sipsame", 25), ("flush", 5)];
            if g.r.chance(1, 2) {
                g.sizes = [8, 2, 6, 1, 0, 0];
            }
            for _ in 0..g.r.range(1, 5 * deep) {
                let (t, n) = (g.r.below(span), g.node());
                let (slot, end) = g.session(t, 6, n, &looks);
                let _ = (slot, end);
            }
            for _ in 0..g.r.below(8) {
                let t = g.r.below(span);
                if g.r.chance(1, 5) {
                    let what = g.r.pick(&[0, 0, 4]);
                    g.reuse(t, 6, what);
                } else {
                    g.oneshot(t, 6);
                }
            }
            if g.r.chance(1, 6) {
                let t = g.r.below(span);
                g.chunks(t, 6, true);
            }
            if g.r.chance(1, 6) {
                let t = g.r.below(span);
                g.fab(t, 6, &[("fork", 15)]);
            }
            let f = g.r.pick(&[0, 0, 0, FL_LOCK]);
            if f != 0 {
                for e in &mut g.ev {
                    if e.op == "feed" {
                        e.a.truncate(6);
                    }
                }
            }
            g.finish(prop, seed, f)
        }
        "C09" => {
            g.paths = vec![path::INPUT, path::INPUT, path::WRITE, path::WRITE_ALL, path::BWRITE, path::BWRITE_ALL];
            if g.r.chance(1, 2) {
                g.paths.extend([path::VECTORED, path::COPY, path::BCOPY, path::WRITE_FMT, path::BY_REF_CHAIN]);
            }
            g.faulty_sources = false;
            if g.r.chance(1, 8) {
                g.sizes = [1, 2, 1, 2, 3, 3];
            }
            let looks = [("fork", 12), ("peek", 10), ("flush", 5), ("migrate", 12), ("warm", 10), ("count", 10), ("ckpt", 10)];
            for _ in 0..g.r.range(1, 4 * deep) {
                let (t, k, n) = (g.r.below(span), g.kind(), g.node());
                g.session(t, k, n, &looks);
            }
            for _ in 0..g.r.below(5) {
                let (t, k) = (g.r.below(span), g.kind());
                g.oneshot(t, k);
            }
            for _ in 0..g.r.below(3) {
                let (t, k) = (g.r.below(span), g.kind());
                g.chunks(t, k, false);
                let e = g.ev.last_mut().unwrap();
                e.a[2] = e.a[2] / 2 * 2; // variants whose items are borrowed
            }
            for _ in 0..g.r.below(8) {
                let t = g.r.below(span);
                match g.r.below(5) {
                    0 => g.fteq(t, true),
                    1 => {
                        let n = g.node();
                        let tl = g.taglen();
                        let a = vec![n, g.r.next(), tl, g.class()];
                        g.push(t, "hashtag", a);
                    }
                    2 => {
                        let n = g.node();
                        let a = vec![g.r.below(NREC), g.r.next(), g.class(), n];
                        g.push(t, "conv", a);
                    }
                    _ => g.rec(t, true),
                }
            }
            if g.r.chance(1, 3) {
                let (t, k) = (g.r.below(span), g.kind());
                g.fab(t, k, &looks);
            }
            let f = g.r.pick(&[FL_ALLOC, FL_ALLOC, FL_NOALLOC]);
            g.finish(prop, seed, f)
        }
        "C10" => {
            g.drip = true;
            g.spread(16);
            let looks = [("fork", 12), ("retry", 35), ("flush", 5), ("count", 5), ("migrate", 10), ("warm", 8), ("ckpt", 10), ("crash", 6)];
            for _ in 0..g.r.range(1, 3 * deep) {
                let (t, k, n) = (g.r.below(span), g.kind(), g.node());
                g.session(t, k, n, &looks);
            }
            if g.r.chance(1, 2) {
                let (t, k) = (g.r.below(span), g.kind());
                g.fab(t, k, &looks);
            }
            g.finish(prop, seed, FL_COUNT)
        }
        "C11" => {
            for _ in 0..g.r.range(1, 3 * deep) {
                let t = g.r.below(span);
                let n = g.r.below(NIMG as u64);
                let len = match g.r.below(8) {
                    0 => g.r.below(10),
                    1..=4 => g.r.pick(&[8, 20, 32, 32, 32, 48, 64, 64]),
                    5 => g.r.pick(&[7, 9, 15, 16, 17, 31, 33, 63, 65, 96, 127, 128, 129]),
                    6 => g.r.below(100),
                    _ => {
                        let top = if g.r.chance(1, 8) { 1200 } else { 300 };
                        g.r.below(top)
                    }
                };
                let (p, q) = (g.place() % 64, g.place() % 64);
                let mut a = vec![n, g.r.next(), g.class(), len, p, q];
                let k = if len > 300 { 4 } else { g.r.range(4, 12) };
                for _ in 0..k {
                    let kind = g.r.pick(&[0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 7, 7, 8, 9, 10, 11]);
                    let arg = match g.r.below(4) {
                        0 => 0,
                        1 => len.saturating_sub(1),
                        _ => g.r.below(len.max(1)),
                    };
                    a.push(kind << 56 | (g.r.next() & 0xffff_ffff) << 24 | g.r.below(256) << 16 | arg);
                }
                g.push(t, "probe", a);
            }
            g.finish(prop, seed, 0)
        }
        "C12" => {
            g.spread(10);
            for _ in 0..g.r.range(1, 2 * deep) {
                let (ty, set, n, log, ops) =
                    (g.r.below(NREC), g.r.next(), g.r.range(1, 40), g.r.next(), g.r.range(1, 90));
                for i in 0..g.r.range(1, 4) {
                    let t = g.r.below(span);
                    let order = if i == 0 { 0 } else { g.r.next() };
                    let cut = if g.r.chance(1, 2) { 0 } else { g.r.below(ops + 1) };
                    let a = vec![ty, set, n, log, ops, order, cut, g.node(), g.node()];
                    g.hop();
                    g.push(t, "replica", a);
                }
            }
            g.finish(prop, seed, 0)
        }
        "C13" => {
            g.spread(10);
            for _ in 0..g.r.range(1, 1 + deep) {
                let mut fields = Vec::new();
                let calm = g.r.chance(1, 3);
                for _ in 0..g.r.range(1, 6) {
                    let dmg = if calm || g.r.chance(1, 3) { 0 } else { g.r.below(14) };
                    let hold = if g.r.chance(1, 2) { 0 } else { g.r.below(3) };
                    let f = [g.r.below(14), hold, g.node(), g.r.next(), g.class(), dmg << 32 | g.r.below(1 << 20)];
                    fields.extend(f);
                }
                for i in 0..g.r.range(1, 3) {
                    let t = g.r.below(span);
                    let gate = g.r.below(8);
                    let order = if i == 0 { 0 } else { g.r.next() };
                    let others = if g.r.chance(1, 2) { 0 } else { g.r.next() };
                    let mut a = vec![gate, g.r.below(4), g.r.below(3), order, others];
                    a.extend(&fields);
                    g.hop();
                    g.push(t, "gate", a);
                }
            }
            g.finish(prop, seed, 0)
        }
        "C15" => {
            g.drip = true;
            g.spread(10);
            // Everything the library offers, on every machine.
            let looks = [
                ("fork", 10), ("peek", 8), ("flush", 5), ("count", 5), ("migrate", 8), ("warm", 6), ("ckpt", 8),
                ("crash", 4), ("retry", 8), ("keys", 5),
            ];
            if g.r.chance(1, 6) {
                g.sizes = [1, 2, 1, 2, 3, 3];
            }
            for _ in 0..g.r.range(1, 3 * deep) {
                let (t, k, n) = (g.r.below(span), g.kind(), g.node());
                g.session(t, k, n, &looks);
            }
            for _ in 0..g.r.range(1, 8) {
                let (t, k, n) = (g.r.below(span), g.kind(), g.node());
                g.hop();
                match g.r.below(10) {
                    0 => g.fab(t, k, &looks),
                    1 => g.oneshot(t, k),
                    2 => g.chunks(t, k, true),
                    3 => g.mac(t),
                    4 => g.fteq(t, false),
                    5 | 6 => g.rec(t, false),
                    7 => {
                        let a = vec![g.r.below(NREC), g.r.next(), g.class(), n];
                        g.push(t, "conv", a);
                    }
                    8 => {
                        let tl = g.taglen();
                        let a = vec![n, g.r.next(), tl, g.class()];
                        g.push(t, "hashtag", a);
                    }
                    _ => {
                        let a = vec![
                            g.r.below(NREC), g.r.next(), g.r.range(1, 40), g.r.next(), g.r.range(1, 90), g.r.next(),
                            g.r.below(90), n, n,
                        ];
                        g.push(t, "replica", a);
                    }
                }
            }
            if g.r.chance(1, 4) {
                let (t, k, n) = (g.r.below(span), g.kind(), g.node());
                let a = vec![n, k, g.r.below(3000), g.r.next(), g.r.below(4)];
                g.hop();
                g.push(t, "refuse", a);
            }
            let f = g.r.pick(&[FL_RO, FL_RO, 0, FL_RO | FL_COUNT | FL_MID]);
            let f = if g.mt == 0 && g.r.chance(1, 150) { FL_WORK } else { f };
            g.finish(prop, seed, f)
        }
        "C16" => {
            // A task with a small stack, on every machine; inputs of all sizes.
            if g.r.chance(1, 2) {
                g.sizes = [1, 2, 1, 2, 3, 6];
            }
            let looks = [("fork", 8), ("peek", 8), ("flush", 3), ("migrate", 8), ("warm", 6), ("count", 5), ("ckpt", 8)];
            for _ in 0..g.r.range(1, 3 * deep) {
                let (t, k, n) = (g.r.below(span), g.kind(), g.node());
                g.session(t, k, n, &looks);
            }
            for _ in 0..g.r.range(1, 8) {
                let (t, k, n) = (g.r.below(span), g.kind(), g.node());
                match g.r.below(10) {
                    0 => g.fab(t, k, &looks),
                    1 | 2 => g.oneshot(t, k),
                    3 | 4 => {
                        g.chunks(t, k, true);
                        if g.r.chance(1, 3) {
                            // Many pieces.
                            let m = g.r.range(1000, 3000);
                            let top = g.r.pick(&[2, 20, 130, 260, 340]);
                            let e = g.ev.last_mut().unwrap();
                            e.a[2] = 0;
                            e.a[3] = m * top / 2;
                            e.a.truncate(7);
                            for _ in 0..m {
                                let x = g.r.below(top + 1);
                                g.ev.last_mut().unwrap().a.push(x);
                            }
                        }
                    }
                    5 => g.mac(t),
                    6 => g.fteq(t, true),
                    7 => g.rec(t, true),
                    8 => {
                        let a = vec![g.r.below(NREC), g.r.next(), g.class(), n];
                        g.push(t, "conv", a);
                    }
                    _ => {
                        let tl = g.taglen();
                        let a = vec![n, g.r.next(), tl, g.class()];
                        g.push(t, "hashtag", a);
                    }
                }
            }
            g.finish(prop, seed, FL_STACK)
        }
        _ => panic!("harness: no property {}", prop),
    }
}

impl G {
    fn taglen(&mut self) -> u64 {
        match self.r.below(5) {
            0 => self.r.below(20),
            1 => self.r.pick(&[0, 54, 55, 56, 57, 63, 64, 65, 118, 119, 120, 121, 127, 128, 129]),
            2 => self.r.below(200),
            3 if self.r.chance(1, 12) => self.near(11, 16),
            3 if self.r.chance(1, 3) => self.near(8, 11),
            3 => self.r.below(2000),
            _ => self.r.pick(&[3, 8, 9, 16, 17, 32]),
        }
    }
    fn dyntag(&mut self, t: u64, slot: u64, kind: u64, node: u64) {
        let tl = self.taglen();
        let a = vec![slot, node, kind, self.r.next(), tl, self.class(), self.r.next(), self.class()];
        self.push(t, "dyntag", a);
    }
}

/// The seed of run `i`.
pub fn run_seed(prop: &str, seed: u64, i: u64) -> u64 {
    let p: u64 = prop.bytes().fold(7, |h, b| mix(h ^ b as u64));
    mix(p ^ mix(seed) ^ mix(i.wrapping_mul(0x9e37_79b9_7f4a_7c15)))
}

