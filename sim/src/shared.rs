//! Memory shared between a worker and the child process that executes one run: counters, the set
//! of distinct states reached, the verdict.

use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

macro_rules! stats {
    ($($id:ident = $name:expr,)*) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy)]
        #[repr(usize)]
        pub enum S { $($id,)* }
        pub const NAMES: &[&str] = &[$($name,)*];
    };
}

stats! {
    Runs = "runs",
    Steps = "steps executed",
    Evals = "oracle evaluations",
    Digests = "digests compared with the reference",
    SimUs = "simulated microseconds",
    LibCalls = "library calls",
    Bytes = "bytes hashed by the library",
    Points = "scheduling points passed",
    Switches = "thread switches",
    CpuSteps = "instructions single-stepped",
    CpuSpecial = "stepped instructions beyond SSE2",
    SimdEntries = "entries to CPU specific code",
    // faults
    F_short = "fault: short read",
    F_intr = "fault: interrupted read",
    F_block = "fault: would-block read",
    F_err = "fault: read error",
    F_panic = "fault: panicking source",
    F_eof = "fault: early end of input",
    F_retry = "fault: failed transfer retried",
    F_reorder = "fault: fragments reordered in the network",
    F_dup = "fault: fragment duplicated in the network",
    F_loss = "fault: fragment lost and retransmitted",
    F_crash = "fault: node crash",
    F_torn = "fault: torn checkpoint write",
    F_lost = "fault: lost checkpoint write",
    F_flip = "fault: checkpoint corrupted on disk",
    F_stale = "fault: resumed from a stale checkpoint",
    F_cold = "fault: restart without usable checkpoint",
    F_badcount = "fault: misaligned resume count",
    F_migrate = "fault: migration to another machine",
    F_alloc = "fault: calls with a failing allocator",
    F_cpumask = "fault: calls on a machine with masked CPU features",
    F_sinkfull = "fault: full sink",
    F_sinkchop = "fault: short and interrupted writes",
    F_rectorn = "fault: torn record",
    F_recflip = "fault: altered record",
    F_reclen = "fault: truncated or extended record",
    F_msgbad = "fault: message altered in transit",
    F_tagbad = "fault: authentication tag altered in transit",
    F_keybad = "fault: key mix-up",
    F_abandon = "fault: session abandoned",
    F_preempt = "fault: preemption inside a library call",
    F_instr = "fault: preemption point between two instructions",
    F_access = "fault: preemption point after an access to static data",
    F_guard = "fault: buffer placed at an inaccessible page",
    F_steal = "scheduler watchdog fired",
    // outcomes that matter for the histories
    O_resumed = "sessions resumed from a checkpoint",
    O_forked = "sessions forked",
    O_moved = "sessions moved between threads",
    O_lent = "engines shared by reference between threads",
    O_borrowed = "reads of a shared engine",
    O_finished = "sessions finished",
    O_refused = "misaligned counts refused",
    O_accept = "MACs accepted",
    O_reject = "MACs rejected",
    O_decoded = "records decoded",
    O_rejected = "records rejected",
    O_huge = "streams beyond 2^32 bytes",
    O_fabricated = "resumptions at fabricated positions",
    O_replica = "catalogue replicas converged",
    F_shuffle = "fault: replica received the operations in another order",
    F_redo = "fault: operation delivered twice",
    O_probe = "forgeries timed",
    ClockTicks = "simulated clock ticks (instructions) measured",
    F_nest = "fault: a callback of a call uses the library itself",
    F_stack = "fault: calls on the small stack of an embedded task",
    O_stack = "deepest stack use of a call in bytes",
    F_metered = "calls whose instructions were counted",
    O_work = "largest share of the allowed instructions a call used, per mille",
    F_reuse = "fault: a buffer's contents replaced between two calls",
    O_admitted = "fields admitted by a gatekeeper",
    O_barred = "fields barred by a gatekeeper",
    O_retried = "transfers completed by retrying",
}

pub const NSTAT: usize = NAMES.len();
pub const SETCAP: usize = 1 << 20;
pub const TEXT: usize = 8192;

#[repr(C)]
pub struct Shared {
    pub stats: [AtomicU64; NSTAT],
    /// Open-addressing set of 64-bit state hashes.
    pub set: [AtomicU64; SETCAP],
    pub set_len: AtomicU64,
    /// Distinct whole-run histories.
    pub hist: [AtomicU64; SETCAP],
    pub hist_len: AtomicU64,
    /// Hash of everything the last run observed.
    pub trace: AtomicU64,
    pub nontrivial: AtomicU64,
    /// 0: running, 1: finished, 2: finished with a violation, 3: harness error.
    pub verdict: AtomicU64,
    pub step: AtomicU64,
    pub text_len: AtomicUsize,
    pub text: [std::sync::atomic::AtomicU8; TEXT],
}

static PTR: AtomicUsize = AtomicUsize::new(0);

/// A fresh region, visible to processes forked later.
pub fn alloc() -> usize {
    unsafe {
        let p = crate::node::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            3,
            0x21 | 0x4000, // MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE
            -1,
            0,
        );
        assert!(p as isize != -1, "harness: mmap");
        p as usize
    }
}
/// From here on this process reports into region `p`.
pub fn select(p: usize) { PTR.store(p, Relaxed); }
pub fn at(p: usize) -> &'static Shared { unsafe { &*(p as *const Shared) } }

pub fn get() -> &'static Shared { unsafe { &*(PTR.load(Relaxed) as *const Shared) } }

pub fn add(s: S, n: u64) { get().stats[s as usize].fetch_add(n, Relaxed); }
pub fn max(s: S, n: u64) { get().stats[s as usize].fetch_max(n, Relaxed); }
pub fn inc(s: S) { add(s, 1) }

fn put(set: &[AtomicU64; SETCAP], len: &AtomicU64, h: u64) -> bool {
    let h = if h == 0 { 1 } else { h };
    if len.load(Relaxed) as usize > SETCAP / 4 * 3 {
        return false;
    }
    let mut i = crate::rng::mix(h) as usize % SETCAP;
    loop {
        let x = set[i].load(Relaxed);
        if x == h {
            return false;
        }
        if x == 0 {
            set[i].store(h, Relaxed);
            len.fetch_add(1, Relaxed);
            return true;
        }
        i = (i + 1) % SETCAP;
    }
}

/// Notes that a state was reached.
pub fn state(h: u64) { put(&get().set, &get().set_len, h); }
pub fn history(h: u64) -> bool { put(&get().hist, &get().hist_len, h) }

pub fn set_text(s: &str) {
    let g = get();
    let b = s.as_bytes();
    let n = b.len().min(TEXT);
    for i in 0..n {
        g.text[i].store(b[i], Relaxed);
    }
    g.text_len.store(n, Relaxed);
}
pub fn text() -> String {
    let g = get();
    let n = g.text_len.load(Relaxed).min(TEXT);
    let v: Vec<u8> = (0..n).map(|i| g.text[i].load(Relaxed)).collect();
    String::from_utf8_lossy(&v).into_owned()
}
