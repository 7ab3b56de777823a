//! Caller threads under a scheduler that the plan owns.
//!
//! Real threads, exactly one of which holds the baton at any time. The baton can move only at
//! scheduling points: between steps, at callbacks into the caller's code (sources, iterators) and
//! at the switch points inside the compression functions; in some runs at every instruction of the
//! library. Whether it moves, and to whom, is
//! written in the plan; without an entry the running thread keeps it.

use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

use crate::exec::{node, Ctx, Mail, FL_DATA, FL_INSTR, FL_POINTS};
use crate::node::NIMG;
use crate::plan::Plan;
use crate::rng::{fnv, FNV0};
use crate::shared::{self, add, inc, S};

struct Baton {
    current: usize,
    alive: Vec<bool>,
    switches: Vec<(u64, usize)>,
    next: usize,
    history: u64,
    abort: Option<(usize, String)>,
}

impl Baton {
    /// The first live thread at or after `t`.
    fn live(&self, t: usize) -> Option<usize> {
        let n = self.alive.len();
        (0..n).map(|k| (t + k) % n).find(|k| self.alive[*k])
    }
}

static BATON: Mutex<Option<Baton>> = Mutex::new(None);
static TURN: Condvar = Condvar::new();

/// Scheduling points passed, and the next one at which the plan switches.
static POINTS: AtomicU64 = AtomicU64::new(0);
static NEXT_AT: AtomicU64 = AtomicU64::new(u64::MAX);

thread_local! {
    static SPIN: Cell<u64> = const { Cell::new(0) };
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub fn points() -> u64 { POINTS.load(SeqCst) }

/// Scheduling point inside a library call.
pub extern "C" fn sim_yield() { point(true) }

/// The library called the caller's code: a source, an iterator, a sink.
pub extern "C" fn sim_callback() {
    crate::exec::nested();
    point(true)
}

fn lock() -> std::sync::MutexGuard<'static, Option<Baton>> {
    BATON.lock().unwrap_or_else(|e| e.into_inner())
}

/// Scheduling point before an instruction of the library (single-stepped runs).
pub fn instruction() {
    let at = POINTS.fetch_add(1, SeqCst);
    if at >= NEXT_AT.load(SeqCst) || at % 40_000 == 39_999 {
        let me = ME.with(|m| m.get());
        if me != usize::MAX {
            inc(S::F_instr);
            if at % 40_000 == 39_999 {
                SPIN.with(|s| s.set(FAIR - 2));
            }
            switch(at, me, true);
        }
    }
}

/// Scheduling point after an access to static data of the library.
pub fn access() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    inc(S::F_access);
    let at = POINTS.fetch_add(1, SeqCst);
    switch(at, me, true);
}

/// This thread has nothing to do until another one has got further.
pub fn pass() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    let mut g = lock();
    if let Some(b) = g.as_mut() {
        if b.current == me {
            if let Some(t) = b.live(me + 1) {
                b.current = t;
                TURN.notify_all();
            }
        }
    }
    drop(wait_turn(g, me));
}

fn point(inside: bool) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    inc(S::Points);
    let at = POINTS.fetch_add(1, SeqCst);
    switch(at, me, inside);
}

/// A thread that passes this many points without coming back from the library may be waiting for
/// another one.
const FAIR: u64 = 3000;

fn switch(at: u64, me: usize, inside: bool) {
    let stuck = SPIN.with(|s| {
        s.set(if inside { s.get() + 1 } else { 0 });
        s.get() % FAIR == FAIR - 1
    });
    let mut g = lock();
    if let Some(b) = g.as_mut() {
        if b.current == me {
            if stuck {
                if let Some(t) = b.live(me + 1) {
                    b.current = t;
                    inc(S::F_steal);
                    TURN.notify_all();
                }
            }
            while b.next < b.switches.len() && b.switches[b.next].0 < at {
                b.next += 1;
            }
            if b.next < b.switches.len() && b.switches[b.next].0 == at {
                let want = b.switches[b.next].1 % b.alive.len();
                b.next += 1;
                if let Some(t) = b.live(want) {
                    if t != me {
                        b.current = t;
                        b.history = fnv(b.history, &[t as u8, inside as u8]);
                        b.history = fnv(b.history, &at.to_le_bytes());
                        inc(S::Switches);
                        if inside {
                            inc(S::F_preempt);
                        }
                        TURN.notify_all();
                    }
                }
            }
            NEXT_AT.store(b.switches.get(b.next).map_or(u64::MAX, |x| x.0), SeqCst);
        }
    }
    drop(wait_turn(g, me));
}

fn wait_turn(
    mut g: std::sync::MutexGuard<'static, Option<Baton>>,
    me: usize,
) -> std::sync::MutexGuard<'static, Option<Baton>> {
    while g.as_ref().is_some_and(|b| b.current != me) {
        g = TURN.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    g
}

/// Runs a plan with threads.
pub fn run(plan: &Plan, mail: &Mail) -> Result<u64, (usize, String)> {
    let n = plan.threads.clamp(1, 16);
    if plan.flags & FL_POINTS != 0 {
        for i in 0..NIMG as u64 {
            node(i).knob(0, sim_yield as *const () as usize);
        }
    }
    if plan.flags & FL_DATA != 0 {
        crate::cpu::watch_data(true);
    }
    POINTS.store(0, SeqCst);
    NEXT_AT.store(plan.switches.first().map_or(u64::MAX, |x| x.0), SeqCst);
    *lock() = Some(Baton {
        current: 0,
        alive: vec![true; n],
        switches: plan.switches.clone(),
        next: 0,
        history: FNV0,
        abort: None,
    });
    let mut traces = vec![0u64; n];
    let mut shapes = vec![0u64; n];
    std::thread::scope(|s| {
        let mut hs = Vec::new();
        for me in 0..n {
            let steps: Vec<(usize, &crate::plan::Step)> =
                plan.steps.iter().enumerate().filter(|(_, x)| x.th % n == me).collect();
            let h = std::thread::Builder::new().spawn_scoped(s, move || {
                ME.with(|m| m.set(me));
                drop(wait_turn(lock(), me));
                crate::cpu::preempt(plan.flags & FL_INSTR != 0);
                let mut c = Ctx::new(plan.flags, mail);
                let mut fail = None;
                for (k, st) in steps {
                    if lock().as_ref().is_some_and(|b| b.abort.is_some()) {
                        break;
                    }
                    shared::get().step.store(k as u64, std::sync::atomic::Ordering::Relaxed);
                    if let Err(e) = c.step(st) {
                        fail = Some((k, e));
                        break;
                    }
                    point(false);
                }
                if fail.is_none() && lock().as_ref().is_some_and(|b| b.abort.is_none()) {
                    if let Err(e) = c.wrap_up() {
                        fail = Some((plan.steps.len(), e));
                    }
                }
                let mut g = lock();
                if let Some(b) = g.as_mut() {
                    b.alive[me] = false;
                    if b.abort.is_none() {
                        b.abort = fail;
                    }
                    if b.current == me {
                        b.current = b.live(me).unwrap_or(usize::MAX);
                    }
                    TURN.notify_all();
                }
                drop(g);
                (c.trace, c.shape)
            });
            hs.push(h.expect("harness: spawn"));
        }
        // Watchdog: a thread that blocks on something another thread holds would keep the baton
        // for ever. Blocking is not a violation, so hand the baton on.
        let mut seen = (0u64, 0usize);
        let mut idle = 0;
        let (mut tick, mut patience) = (100, 30);
        loop {
            let g = lock();
            let (mut g, _) = TURN
                .wait_timeout(g, Duration::from_millis(tick))
                .unwrap_or_else(|e| e.into_inner());
            let b = g.as_mut().expect("harness: baton");
            if b.alive.iter().all(|a| !a) {
                break;
            }
            let now = (POINTS.load(SeqCst), b.current);
            if now == seen {
                idle += 1;
                if idle > patience {
                    idle = 0;
                    // This library has locks; it will happen again.
                    (tick, patience) = (2, 1);
                    if let Some(t) = b.live(b.current + 1) {
                        inc(S::F_steal);
                        b.current = t;
                        TURN.notify_all();
                    }
                }
            } else {
                seen = now;
                idle = 0;
            }
        }
        for (i, h) in hs.into_iter().enumerate() {
            let (t, sh) = h.join().expect("harness: thread");
            traces[i] = t;
            shapes[i] = sh;
        }
    });
    if plan.flags & FL_DATA != 0 {
        crate::cpu::watch_data(false);
    }
    let b = lock().take().expect("harness: baton");
    for i in 0..NIMG as u64 {
        node(i).knob(0, 0);
    }
    if let Some(f) = b.abort {
        return Err(f);
    }
    let mut t = b.history;
    for x in traces.iter().chain(&shapes) {
        t = fnv(t, &x.to_le_bytes());
    }
    let mut sh = b.history;
    for x in &shapes {
        sh = fnv(sh, &x.to_le_bytes());
    }
    shared::history(sh);
    shared::get().nontrivial.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    add(S::SimUs, plan.steps.iter().map(|s| s.t).max().unwrap_or(0));
    Ok(t)
}
