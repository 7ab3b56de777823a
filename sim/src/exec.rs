//! Executes a plan against the real library and judges every observation.

use std::collections::BTreeMap;
use std::sync::{Mutex, OnceLock};

use crate::node::{path, script, Args, Arena, Node, Reply, *};
use crate::plan::{Plan, Step};
use crate::refimpl::*;
use crate::rng::{self, fill, fnv, mix, FNV0};
use crate::shared::{self, add, inc, S};

pub const FL_COUNT: u64 = 1; // judge n_bytes_hashed after every step
pub const FL_LOCK: u64 = 2; // every session runs on all machines at once
pub const FL_ALLOC: u64 = 4; // the allocator fails inside library calls
pub const FL_MID: u64 = 8; // compare midstates after every delivery
pub const FL_POINTS: u64 = 16; // switch points inside library calls
pub const FL_INSTR: u64 = 64; // every instruction of the library is a scheduling point
pub const FL_DATA: u64 = 128; // every access to static data of the library is a scheduling point
pub const FL_RO: u64 = 256; // what the library is given to read cannot be written
pub const FL_STACK: u64 = 512; // calls run on the small stack of an embedded task
pub const FL_WORK: u64 = 2048; // calls on few bytes are counted, instruction by instruction
pub const FL_SHARE: u64 = 8192; // only reads of shared engines are single-stepped
pub const FL_NEST: u64 = 1024; // the caller's callbacks use the library themselves
pub const FL_NOALLOC: u64 = 32; // the allocator works, but an attempt is a violation

pub type V<T = ()> = Result<T, String>;

static NODES: OnceLock<Vec<Node>> = OnceLock::new();

pub fn load_nodes(dir: &str) -> Result<(), String> {
    let mut v = Vec::new();
    for i in 0..NIMG {
        let n = Node::load(dir, i, crate::threads::sim_callback as *const () as usize)?;
        n.knob(5, crate::cpu::mark as *const () as usize);
        v.push(n);
    }
    let _ = NODES.set(v);
    Ok(())
}
pub fn nodes() -> &'static [Node] { NODES.get().expect("harness: no nodes") }
pub fn node(i: u64) -> &'static Node { &NODES.get().expect("harness: no nodes")[i as usize % NIMG] }

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

#[derive(Clone)]
pub struct Params {
    kind: u32,
    variant: u64,
    key: Vec<u8>,
    k0: u64,
    k1: u64,
    tag: Option<Vec<u8>>,
    msgseed: u64,
    class: u64,
    /// Fabricated start: chaining value(s), reported count, model at the start.
    fab: Option<(Vec<u8>, u64)>,
}

#[derive(Clone, Copy)]
struct Inst {
    node: usize,
    h: u64,
    /// Reported count when the instance began, and bytes it absorbed since.
    n0: u64,
    got: u64,
    keys_known: bool,
}

pub struct Sess {
    p: Params,
    insts: Vec<Inst>,
    model: Model,
    /// Position in the message.
    pos: u64,
    /// The byte count was moved by a resumption: one-shot hashes of the message differ.
    shifted: bool,
    dead: bool,
}

struct Ckpt {
    bytes: Vec<u8>,
    model: Model,
    pos: u64,
}

/// What threads share: sessions on their way from one thread to another, and engines that any of
/// them may look at.
#[derive(Default)]
pub struct Mail(Mutex<BTreeMap<u64, Sess>>, Mutex<Vec<(u64, std::sync::Arc<Lent>)>>);

/// An engine shared by reference: nobody feeds it any more.
struct Lent {
    p: Params,
    i: Inst,
    model: Model,
    pos: u64,
    shifted: bool,
}

impl Drop for Lent {
    fn drop(&mut self) {
        let x = Args { kind: self.p.kind, h: self.i.h, ..Default::default() };
        node(self.i.node as u64).call_with(OP_DROP, x, false);
    }
}

pub struct Ctx<'a> {
    flags: u64,
    sess: BTreeMap<u64, Sess>,
    disk: BTreeMap<u64, Vec<Ckpt>>,
    parked: BTreeMap<u64, Params>,
    sent: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>, // key, message, tag
    files: BTreeMap<u64, Vec<u8>>,
    arena: Arena,
    arena2: Arena,
    mail: &'a Mail,
    /// Instructions counted in metered calls.
    metered: usize,
    /// Reading an engine that others read.
    reading: bool,
    pub trace: u64,
    pub shape: u64,
}

/// Stack an embedded task has for a call.
const STACK_LIMIT: usize = 32 << 10;
/// Instructions after which an operation counts as hanging: a constant, and so many for each byte it
/// was given (ten times what the slowest takes).
const WORK: usize = 400_000;
const WORK_PER_BYTE: usize = 4_000;
const ARENA: usize = 2 << 20;

impl<'a> Ctx<'a> {
    pub fn new(flags: u64, mail: &'a Mail) -> Ctx<'a> {
        if flags & FL_STACK != 0 {
            crate::node::use_task_stack();
        }
        Ctx {
            flags,
            sess: BTreeMap::new(),
            disk: BTreeMap::new(),
            parked: BTreeMap::new(),
            sent: Vec::new(),
            files: BTreeMap::new(),
            arena: Arena::new(ARENA, flags & FL_RO != 0),
            arena2: Arena::new(1 << 20, flags & FL_RO != 0),
            mail,
            metered: 0,
            reading: false,
            trace: FNV0,
            shape: FNV0,
        }
    }

    fn note(&mut self, b: &[u8]) { self.trace = fnv(self.trace, b); }
    fn note64(&mut self, x: u64) { self.trace = fnv(self.trace, &x.to_le_bytes()); }
    fn shape(&mut self, xs: &[u64]) {
        for x in xs {
            self.shape = fnv(self.shape, &x.to_le_bytes());
        }
    }

    /// Calls the library and applies the oracles that hold for every call.
    fn call(&mut self, n: usize, op: u32, x: Args) -> V<Reply> { self.call2(n, op, x, false, false) }

    fn call2(&mut self, n: usize, op: u32, x: Args, may_panic: bool, stepped: bool) -> V<Reply> {
        let nd = node(n as u64);
        inc(S::LibCalls);
        if IMAGES[n].mask & 7 != 0 {
            inc(S::F_cpumask);
        }
        let watched = self.flags & FL_DATA != 0;
        let illegal = if watched { 0 } else { nd.knob(2, 0) };
        let fine = crate::cpu::preempting()
            && (self.flags & FL_SHARE == 0 || self.reading)
            && x.data.is_none_or(|d| d.1 <= 600)
            && crate::threads::points() < 20_000;
        let given = x.data.map_or(0, |d| d.1) + x.aux.map_or(0, |d| d.1);
        let metered = self.flags & FL_WORK != 0
            && op != OP_TIMEDEQ
            && given <= 700
            && self.metered < 60_000
            && self.trace % 8 < 5;
        let clock = crate::cpu::clock();
        let nest = self.flags & FL_NEST != 0;
        if nest {
            NEST.with(|t| *t.borrow_mut() = Some(Nest::new(n, x.kind, self.trace)));
        }
        let r = nd.call_with(op, x, stepped || fine || metered);
        if nest {
            let t = NEST.with(|t| t.borrow_mut().take());
            if let Some(Nest { bad: Some(m), .. }) = t {
                return Err(m);
            }
        }
        if self.flags & (FL_ALLOC | FL_NOALLOC) != 0 {
            inc(S::F_alloc);
            inc(S::Evals);
            if r.allocs != 0 {
                return Err(format!(
                    "{} on {} attempted {} heap allocation(s)",
                    opname(op, x.kind),
                    IMAGES[n].name,
                    r.allocs
                ));
            }
        }
        if metered && r.status != PANIC {
            let work = crate::cpu::clock() - clock;
            self.metered += work;
            let room = WORK + WORK_PER_BYTE * (given + 2 * x.script.len());
            inc(S::Evals);
            inc(S::F_metered);
            add(S::ClockTicks, work as u64);
            shared::max(S::O_work, (work * 1000 / room) as u64);
            if work > room {
                return Err(format!(
                    "{} on {} hangs: {} instructions for {} bytes (at most {} are due)",
                    opname(op, x.kind),
                    IMAGES[n].name,
                    work,
                    given,
                    room
                ));
            }
        }
        if r.stack != 0 {
            inc(S::F_stack);
            inc(S::Evals);
            shared::max(S::O_stack, r.stack as u64);
            if r.stack > STACK_LIMIT {
                return Err(format!(
                    "{} on {} used {} bytes of stack (a task has {})",
                    opname(op, x.kind),
                    IMAGES[n].name,
                    r.stack,
                    STACK_LIMIT
                ));
            }
        }
        if !watched && nd.knob(2, 0) != illegal {
            return Err(format!(
                "{} on {} entered code that needs CPU features this machine does not report",
                opname(op, x.kind),
                IMAGES[n].name
            ));
        }
        if stepped {
            inc(S::Evals);
            if let Some(w) = crate::cpu::illegal() {
                return Err(format!(
                    "{} on {} reached {} instruction which this machine does not support",
                    opname(op, x.kind),
                    IMAGES[n].name,
                    w
                ));
            }
        }
        if r.status == PANIC && r.ret[5] == 0 && !may_panic {
            return Err(format!(
                "{} on {} panicked: {}",
                opname(op, x.kind),
                IMAGES[n].name,
                String::from_utf8_lossy(&r.out)
            ));
        }
        self.note64(r.status as u64);
        self.note(&r.out);
        Ok(r)
    }

    fn fresh(&mut self, p: &Params, n: usize) -> V<u64> {
        let key = p.key.clone();
        let at = self.arena.place(&key, 0);
        let r = self.call(
            n,
            OP_NEW,
            Args {
                kind: p.kind,
                a: [p.variant, p.k0, p.k1, 0, 0, 0],
                data: Some((at, key.len())),
                ..Default::default()
            },
        )?;
        if r.status != OK {
            return Err(format!("harness: cannot create {}", kind_name(p.kind)));
        }
        Ok(r.ret[0])
    }

    fn nbytes(&mut self, kind: u32, i: Inst) -> V<u64> {
        Ok(self.call(i.node, OP_NBYTES, Args { kind, h: i.h, ..Default::default() })?.ret[0])
    }

    fn resume_raw(&mut self, n: usize, kind: u32, mid: &[u8], count: u64, variant: u64) -> V<Option<u64>> {
        let at = self.arena.place(mid, 0);
        let r = self.call(
            n,
            OP_RESUME,
            Args {
                kind,
                a: [count, variant, 0, 0, 0, 0],
                data: Some((at, mid.len())),
                ..Default::default()
            },
        )?;
        Ok(if r.status == OK { Some(r.ret[0]) } else { None })
    }

    /// Starts (or restarts from nothing) the session described by `p` on machine `n`.
    fn start(&mut self, p: &Params, n: usize) -> V<(Inst, Model)> {
        let (h, model, want0, keys) = if let Some((mid, c)) = &p.fab {
            let core = core_of(p.kind);
            // Where counting starts for this kind: a fresh engine's count stands for the bytes of
            // its key or tag block.
            let h0 = self.fresh(&Params { fab: None, tag: None, ..p.clone() }, n)?;
            let i0 = Inst { node: n, h: h0, n0: 0, got: 0, keys_known: false };
            let base = self.nbytes(p.kind, i0)?;
            self.release(p.kind, i0)?;
            let pre = absorbed(p.kind);
            let h = match self.resume_raw(n, p.kind, mid, *c, p.variant)? {
                Some(h) => h,
                None => return Err("harness: fabricated midstate".into()),
            };
            let inner = RefHash::from_chain(core, &mid[..core.chain_len()], c - base + pre);
            let outer = (p.kind >= HMAC && p.kind < TAGGED)
                .then(|| RefHash::from_chain(core, &mid[core.chain_len()..], pre));
            inc(S::O_fabricated);
            (h, Model { kind: p.kind, inner, outer }, (p.kind < HMAC).then_some(*c), false)
        } else if let Some(tag) = &p.tag {
            let at = self.arena.place(tag, 0);
            let r = self.call(
                n,
                OP_HASHTAG,
                Args { data: Some((at, tag.len())), ..Default::default() },
            )?;
            let model = Model::tagged(p.kind, tag);
            inc(S::Evals);
            if r.out != model.midstate() {
                return Err(format!(
                    "Midstate::hash_tag of a {}-byte tag on {} is {} instead of {}",
                    tag.len(),
                    IMAGES[n].name,
                    hex(&r.out),
                    hex(&model.midstate())
                ));
            }
            let h = match self.resume_raw(n, p.kind, &r.out, 64, p.variant)? {
                Some(h) => h,
                None => return Err("harness: tag midstate".into()),
            };
            (h, model, None, false)
        } else {
            let h = self.fresh(p, n)?;
            let m = Model::new(p.kind, &p.key, p.k0, p.k1);
            (h, m, (p.kind < HMAC).then_some(0), p.kind == 6)
        };
        let mut i = Inst { node: n, h, n0: 0, got: 0, keys_known: keys };
        i.n0 = self.nbytes(p.kind, i)?;
        if self.flags & FL_COUNT != 0 {
            inc(S::Evals);
            if let Some(w) = want0 {
                if i.n0 != w {
                    return Err(format!(
                        "a new {} engine on {} reports {} bytes hashed instead of {}",
                        kind_name(p.kind),
                        IMAGES[n].name,
                        i.n0,
                        w
                    ));
                }
            }
        }
        Ok((i, model))
    }

    fn release(&mut self, kind: u32, i: Inst) -> V {
        self.call(i.node, OP_DROP, Args { kind, h: i.h, ..Default::default() })?;
        Ok(())
    }

    fn machines(&self, n: u64) -> Vec<usize> {
        let n = n as usize % NIMG;
        if self.flags & FL_LOCK != 0 {
            let mut v: Vec<usize> = (0..NIMG).collect();
            v.rotate_left(n);
            v
        } else {
            vec![n]
        }
    }

    fn put_session(&mut self, slot: u64, s: Sess) -> V {
        if let Some(old) = self.sess.insert(slot, s) {
            inc(S::F_abandon);
            for i in old.insts {
                self.release(old.p.kind, i)?;
            }
        }
        Ok(())
    }

    fn begin(&mut self, slot: u64, p: Params, n: u64) -> V {
        let mut insts = Vec::new();
        let mut model = None;
        for m in self.machines(n) {
            let (i, mo) = self.start(&p, m)?;
            insts.push(i);
            model = Some(mo);
        }
        let s = Sess { p, insts, model: model.unwrap(), pos: 0, shifted: false, dead: false };
        self.put_session(slot, s)
    }

    /// Delivers `d` to one instance by `pa`; returns how many bytes were absorbed.
    #[allow(clippy::too_many_arguments)]
    fn deliver(
        &mut self,
        kind: u32,
        i: Inst,
        d: &[u8],
        pa: u64,
        place: u64,
        arg: u64,
        scr: &[u64],
        stepped: bool,
    ) -> V<u64> {
        let sourced = matches!(pa, path::COPY | path::BCOPY | path::BUFCOPY);
        let big = d.len() + 64 > ARENA;
        let mut off = 0usize;
        let mut rounds = 0;
        loop {
            // A writer that acknowledges one small buffer at a time: the rest in one piece after a while.
            rounds += 1;
            let scr = if pa == path::VECTORED && rounds > 12 { &[] } else { scr };
            let rest = &d[off..];
            let at = if big { rest.as_ptr() } else { self.arena.place(rest, place) };
            if place < 2 && !big {
                inc(S::F_guard);
            }
            let r = self.call2(
                i.node,
                OP_FEED,
                Args {
                    kind,
                    h: i.h,
                    a: [pa, arg, 0, 0, 0, 0],
                    data: Some((at, rest.len())),
                    script: scr,
                    ..Default::default()
                },
                false,
                stepped,
            )?;
            let name = path::NAMES.get(pa as usize).copied().unwrap_or("?");
            inc(S::Evals);
            if !big && unsafe { std::slice::from_raw_parts(at, rest.len()) } != rest {
                return Err(format!("{}: {} modified the caller's buffer", kind_name(kind), name));
            }
            if r.status == UNSUPPORTED {
                // This build or engine has no such path.
                return Ok(off as u64 + self.deliver(kind, i, rest, path::INPUT, place, 0, &[], stepped)?);
            }
            if sourced {
                let n = r.ret[0];
                let faulty = scr.iter().any(|e| {
                    matches!(e >> 56, script::WOULDBLOCK | script::ERROR | script::PANIC | script::EOF)
                });
                if r.ret[1] == 1 {
                    return Err(format!("{}: {}: the engine refused bytes", kind_name(kind), name));
                }
                if r.status == OK && r.ret[2] == 1 && r.ret[3] != n {
                    return Err(format!(
                        "{}: {} copied {} bytes, the source handed over {}",
                        kind_name(kind),
                        name,
                        r.ret[3],
                        n
                    ));
                }
                if !faulty && (r.status != OK || n != rest.len() as u64) {
                    return Err(format!(
                        "{}: {} from a sound source ended with status {} after {} of {} bytes",
                        kind_name(kind),
                        name,
                        r.status,
                        n,
                        rest.len()
                    ));
                }
                count_script(scr);
                add(S::Bytes, n);
                return Ok(off as u64 + n);
            }
            if r.status != OK {
                return Err(format!("{}: {} of {} bytes failed", kind_name(kind), name, rest.len()));
            }
            let n = r.ret[0] as usize;
            if n > rest.len() || (n == 0 && !rest.is_empty()) {
                return Err(format!(
                    "{}: {} of {} bytes acknowledged {}",
                    kind_name(kind),
                    name,
                    rest.len(),
                    n
                ));
            }
            add(S::Bytes, n as u64);
            off += n;
            if off == d.len() || matches!(pa, path::FLUSH) {
                return Ok(off as u64);
            }
        }
    }

    /// Judges what can be read off a live session: count, midstate, keys.
    fn observe(&mut self, s: &mut Sess) -> V {
        if self.flags & FL_COUNT != 0 {
            for k in 0..s.insts.len() {
                let i = s.insts[k];
                let n = self.nbytes(s.p.kind, i)?;
                inc(S::Evals);
                if n != i.n0 + i.got {
                    return Err(format!(
                        "{} engine on {} reports {} bytes hashed; it began at {} and absorbed {}",
                        kind_name(s.p.kind),
                        IMAGES[i.node].name,
                        n,
                        i.n0,
                        i.got
                    ));
                }
            }
        }
        if self.flags & FL_MID != 0 {
            self.peek(s)?;
        }
        Ok(())
    }

    fn peek(&mut self, s: &mut Sess) -> V {
        let mut first: Option<Vec<u8>> = None;
        for k in 0..s.insts.len() {
            let i = s.insts[k];
            let r = self.call(i.node, OP_MIDSTATE, Args { kind: s.p.kind, h: i.h, ..Default::default() })?;
            if r.ret[1] != 1 {
                continue;
            }
            inc(S::Evals);
            if s.model.aligned() && r.out != s.model.midstate() {
                return Err(format!(
                    "midstate of {} on {} after {} message bytes is {} instead of {}",
                    kind_name(s.p.kind),
                    IMAGES[i.node].name,
                    s.pos,
                    hex(&r.out),
                    hex(&s.model.midstate())
                ));
            }
            match &first {
                None => first = Some(r.out),
                Some(f) if *f != r.out => {
                    return Err(format!(
                        "midstates of {} differ between {} and {} after {} message bytes",
                        kind_name(s.p.kind),
                        IMAGES[s.insts[0].node].name,
                        IMAGES[i.node].name,
                        s.pos
                    ));
                }
                _ => {}
            }
        }
        Ok(())
    }

    fn judge(&mut self, kind: u32, n: usize, what: &str, got: &[u8], want: &[u8]) -> V {
        inc(S::Evals);
        inc(S::Digests);
        if got != want {
            return Err(format!(
                "{} of {} on {} is {} instead of {}",
                what,
                kind_name(kind),
                IMAGES[n].name,
                hex(got),
                hex(want)
            ));
        }
        Ok(())
    }

    fn message(s: &Sess, from: u64, n: u64) -> Vec<u8> {
        let mut v = vec![0; n as usize];
        fill(s.p.msgseed, s.p.class, from, &mut v);
        v
    }

    fn feed_session(
        &mut self,
        s: &mut Sess,
        len: u64,
        pa: u64,
        place: u64,
        arg: u64,
        scr: &[u64],
        stepped: bool,
    ) -> V {
        let d = Self::message(s, s.pos, len);
        let fill0 = s.model.fill() as u64;
        let mut n = None;
        for k in 0..s.insts.len() {
            let i = s.insts[k];
            let want: &[u8] = match n {
                None => &d,
                Some(n) => &d[..n as usize],
            };
            // Twins get exactly what the first instance absorbed.
            let scr = if n.is_none() { scr } else { &scr[..scr.len() * usize::from(!faulty(scr))] };
            let step_here = stepped && IMAGES[i.node].mask != 0;
            let got = self.deliver(s.p.kind, i, want, pa, place, arg, scr, step_here)?;
            s.insts[k].got += got;
            shared::state(mix(
                mix(s.p.kind as u64 * 64 + i.node as u64)
                    ^ mix(fill0 << 20 | pa << 12 | (len.min(300) << 32) | (place.min(2) << 8)),
            ));
            if n.is_none() {
                n = Some(got);
            }
        }
        let n = n.unwrap_or(0);
        s.model.update(&d[..n as usize]);
        s.pos += n;
        self.shape(&[s.p.kind as u64, s.insts[0].node as u64, fill0, len, pa, n]);
        self.observe(s)
    }

    fn finish_session(&mut self, s: &mut Sess, variant: u64, stepped: bool) -> V {
        let want = s.model.digest();
        let insts = std::mem::take(&mut s.insts);
        s.dead = true;
        inc(S::O_finished);
        self.shape(&[99, s.p.kind as u64, s.pos]);
        for i in insts {
            let st = stepped && IMAGES[i.node].mask != 0;
            let r = self.call2(
                i.node,
                OP_FINISH,
                Args { kind: s.p.kind, h: i.h, a: [variant, 0, 0, 0, 0, 0], ..Default::default() },
                false,
                st,
            )?;
            let what = format!("digest after {} message bytes", s.pos);
            self.judge(s.p.kind, i.node, &what, &r.out, &want)?;
        }
        Ok(())
    }

    fn fork_of(&mut self, s: &Sess) -> V<Sess> {
        let mut insts = Vec::new();
        let x = mix(s.pos ^ s.p.msgseed.rotate_left(17));
        let junk = rng::bytes(x, 0, (x >> 8) as usize % 200);
        for i in &s.insts {
            // `clone`, or `clone_from` into an engine that has hashed something else.
            let at = self.arena.place(&junk, 0);
            let r = self.call(
                i.node,
                OP_CLONE,
                Args {
                    kind: s.p.kind,
                    h: i.h,
                    a: [u64::from(x % 3 == 0), 0, 0, 0, 0, 0],
                    data: Some((at, junk.len())),
                    ..Default::default()
                },
            )?;
            let mut c = *i;
            c.h = r.ret[0];
            insts.push(c);
        }
        inc(S::O_forked);
        Ok(Sess { p: s.p.clone(), insts, model: s.model.clone(), pos: s.pos, shifted: s.shifted, dead: false })
    }

    /// Runs `f` on the session in `slot`, if there is one.
    fn with(&mut self, slot: u64, f: impl FnOnce(&mut Self, &mut Sess) -> V) -> V {
        if let Some(mut s) = self.sess.remove(&slot) {
            f(self, &mut s)?;
            if !s.dead {
                self.sess.insert(slot, s);
            }
        }
        Ok(())
    }

    pub fn step(&mut self, st: &Step) -> V {
        let get = |i: usize| st.a.get(i).copied().unwrap_or(0);
        let kind = |i: usize| -> u32 {
            let k = get(i) as u32;
            if KINDS.contains(&k) {
                k
            } else {
                KINDS[k as usize % KINDS.len()]
            }
        };
        inc(S::Steps);
        match st.op {
            // slot node kind variant keyseed keylen k0 k1 msgseed class
            "open" => {
                let k = kind(2);
                let keylen = if (HMAC..TAGGED).contains(&k) { (get(5) as usize).min(100_000) } else { 0 };
                let sip = k == 6;
                let p = Params {
                    kind: k,
                    variant: get(3),
                    key: rng::bytes(get(4), 0, keylen),
                    k0: if sip { get(6) } else { 0 },
                    k1: if sip { get(7) } else { 0 },
                    tag: None,
                    msgseed: get(8),
                    class: get(9),
                    fab: None,
                };
                self.begin(get(0), p, get(1))
            }
            // slot node kind tagseed taglen class msgseed msgclass
            "dyntag" => {
                let k = kind(2);
                let k = if k >= TAGGED { k } else { TAGGED + k % 10 };
                let p = Params {
                    kind: k,
                    variant: 0,
                    key: vec![],
                    k0: 0,
                    k1: 0,
                    tag: Some(rng::bytes(get(3), get(5), (get(4) as usize).min(1 << 20))),
                    msgseed: get(6),
                    class: get(7),
                    fab: None,
                };
                self.begin(get(0), p, get(1))
            }
            // slot node kind count chainseed chainclass msgseed class variant
            "fab" => {
                let k = kind(2);
                let core = core_of(k);
                if core == Core::Sip {
                    return Ok(());
                }
                let b = core.block() as u64;
                let n = core.chain_len() * if (HMAC..TAGGED).contains(&k) { 2 } else { 1 };
                let least = absorbed(k);
                let count = (get(3) / b * b).max(least.div_ceil(b) * b).min((1 << 61) - (1 << 30));
                let mut mid = rng::bytes(get(4), get(5), n);
                if get(5) == 7 {
                    // The value a fresh engine has.
                    let m = Model::new(k, &[], 0, 0).midstate();
                    if m.len() == n {
                        mid = m;
                    }
                }
                let p = Params {
                    kind: k,
                    variant: get(8),
                    key: vec![],
                    k0: 0,
                    k1: 0,
                    tag: None,
                    msgseed: get(6),
                    class: get(7),
                    fab: Some((mid, count)),
                };
                self.begin(get(0), p, get(1))
            }
            // slot path len place arg net script...
            "feed" => {
                let net = get(5);
                for (bit, s) in [(1, S::F_reorder), (2, S::F_dup), (4, S::F_loss)] {
                    if net & bit != 0 {
                        inc(s);
                    }
                }
                let scr = st.a.get(6..).unwrap_or(&[]).to_vec();
                self.with(get(0), |c, s| {
                    c.feed_session(s, get(2).min(64 << 20), get(1), get(3), get(4), &scr, false)
                })
            }
            "flush" => self.with(get(0), |c, s| {
                for k in 0..s.insts.len() {
                    let i = s.insts[k];
                    let r = c.call(
                        i.node,
                        OP_FEED,
                        Args { kind: s.p.kind, h: i.h, a: [path::FLUSH, get(1) & 1, 0, 0, 0, 0], ..Default::default() },
                    )?;
                    inc(S::Evals);
                    if r.status == ERR {
                        return Err(format!("flush of {} failed", kind_name(s.p.kind)));
                    }
                }
                c.observe(s)
            }),
            "count" => self.with(get(0), |c, s| {
                let f = c.flags;
                c.flags |= FL_COUNT;
                let r = c.observe(s);
                c.flags = f;
                r
            }),
            "peek" => self.with(get(0), |c, s| c.peek(s)),
            // slot dst, finish the clone at once?, variant
            "fork" => {
                let mut out = None;
                self.with(get(0), |c, s| {
                    let mut f = c.fork_of(s)?;
                    if get(2) == 1 {
                        c.finish_session(&mut f, get(3), false)?;
                    } else if get(1) != get(0) {
                        out = Some(f);
                    } else {
                        // Continue in the clone, drop the original.
                        std::mem::swap(s, &mut f);
                        for i in std::mem::take(&mut f.insts) {
                            c.release(f.p.kind, i)?;
                        }
                    }
                    c.observe(s)
                })?;
                if let Some(f) = out {
                    self.put_session(get(1), f)?;
                }
                Ok(())
            }
            "drop" => {
                if let Some(s) = self.sess.remove(&get(0)) {
                    inc(S::F_abandon);
                    for i in s.insts {
                        self.release(s.p.kind, i)?;
                    }
                }
                Ok(())
            }
            "finish" => self.with(get(0), |c, s| c.finish_session(s, get(1), false)),
            // slot len finish variant: under the simulated CPU
            "step" => self.with(get(0), |c, s| {
                c.feed_session(s, get(1).min(300), path::INPUT, 2, 0, &[], true)?;
                if get(2) == 1 {
                    c.finish_session(s, get(3), true)?;
                }
                Ok(())
            }),
            // slot align fault f1: write a checkpoint to disk
            "ckpt" => self.with(get(0), |c, s| c.checkpoint(get(0), s, get(1), get(2), get(3))),
            // node: lose everything volatile
            "crash" => {
                let n = get(0) as usize % NIMG;
                inc(S::F_crash);
                let slots: Vec<u64> = self
                    .sess
                    .iter()
                    .filter(|(_, s)| s.insts.iter().any(|i| i.node == n))
                    .map(|(k, _)| *k)
                    .collect();
                for k in slots {
                    let s = self.sess.remove(&k).unwrap();
                    self.parked.insert(k, s.p.clone());
                    for i in s.insts {
                        self.release(s.p.kind, i)?;
                    }
                }
                Ok(())
            }
            // slot node variant: continue a crashed session from disk on some machine
            "resume" => {
                if let Some(p) = self.parked.remove(&get(0)) {
                    self.restart(get(0), p, get(1), get(2))?;
                }
                Ok(())
            }
            // slot newnode variant: hand a live session over through its midstate
            "migrate" => self.with(get(0), |c, s| c.migrate(s, get(1), get(2))),
            // slot variant: SipHash state kept in memory
            "warm" => self.with(get(0), |c, s| c.warm(s, get(1), get(2))),
            // node kind count seed variant
            "refuse" => self.refuse(get(0) as usize % NIMG, kind(1), get(2), get(3), get(4)),
            // node kind variant len place msgseed class k0 k1
            "oneshot" => {
                let (n, k) = (get(0) as usize % NIMG, kind(1));
                let d = rng::bytes(get(5), get(6), get(3).min(1 << 20) as usize);
                let at = self.arena.place(&d, get(4));
                let r = self.call(
                    n,
                    OP_ONESHOT,
                    Args {
                        kind: k,
                        a: [get(2), get(7), get(8), 0, 0, 0],
                        data: Some((at, d.len())),
                        ..Default::default()
                    },
                )?;
                if r.status == UNSUPPORTED {
                    return Ok(());
                }
                let mut m = Model::new(k, &[], get(7), get(8));
                m.update(&d);
                add(S::Bytes, d.len() as u64);
                shared::state(mix(mix(k as u64 * 64 + n as u64) ^ mix(7777 + get(2) * 1000 + (d.len() as u64).min(400))));
                self.shape(&[3, k as u64, n as u64, get(2), d.len() as u64]);
                let what = format!("one-shot digest (variant {}) of {} bytes", get(2), d.len());
                self.judge(k, n, &what, &r.out, &m.digest())
            }
            // node kind variant len place seed class k0 k1 what rounds
            "reuse" => self.reuse(&st.a),
            // slot pieces size: very many small deliveries
            "drip" => self.with(get(0), |c, s| {
                if s.dead {
                    return Ok(());
                }
                let (n, size) = (get(1).min(200_000), get(2).clamp(1, 64));
                let d = Self::message(s, s.pos, n * size);
                for i in s.insts.iter_mut() {
                    for p in d.chunks(size as usize) {
                        let x = Args {
                            kind: s.p.kind,
                            h: i.h,
                            data: Some((p.as_ptr(), p.len())),
                            ..Default::default()
                        };
                        let r = node(i.node as u64).call_with(OP_FEED, x, false);
                        if r.status != OK {
                            return Err(format!("{}: feeding panicked: {}", kind_name(s.p.kind), String::from_utf8_lossy(&r.out)));
                        }
                    }
                    i.got += d.len() as u64;
                }
                add(S::Bytes, d.len() as u64);
                add(S::LibCalls, n);
                s.model.update(&d);
                s.pos += d.len() as u64;
                c.shape(&[15, s.p.kind as u64, n, size]);
                c.observe(s)
            }),
            // node kind variant len place msgseed class script...
            "chunks" => {
                let (n, k) = (get(0) as usize % NIMG, kind(1));
                let d = rng::bytes(get(5), get(6), get(3).min(1 << 20) as usize);
                let at = self.arena.place(&d, get(4));
                let scr = st.a.get(7..).unwrap_or(&[]);
                let r = self.call(
                    n,
                    OP_CHUNKS,
                    Args {
                        kind: k,
                        a: [get(2), 0, 0, 0, 0, 0],
                        data: Some((at, d.len())),
                        script: scr,
                        ..Default::default()
                    },
                )?;
                if r.status == PANIC {
                    inc(S::F_panic);
                    if !scr.iter().any(|s| s & script::BOOM != 0) {
                        return Err("harness: chunk source panicked unasked".into());
                    }
                    return Ok(());
                }
                let mut m = Model::new(k, &[], 0, 0);
                m.update(&d);
                add(S::Bytes, d.len() as u64);
                self.shape(&[4, k as u64, n as u64, get(2), d.len() as u64, scr.len() as u64]);
                let what = format!("chunked digest of {} bytes in {} chunks", d.len(), scr.len() + 1);
                self.judge(k, n, &what, &r.out, &m.digest())
            }
            // slot place: every entry point on the bytes of the session so far (SipHash)
            "sipsame" => self.with(get(0), |c, s| c.sip_same(s, get(1))),
            "keys" => self.with(get(0), |c, s| {
                for i in s.insts.clone() {
                    if !i.keys_known {
                        continue;
                    }
                    let r = c.call(i.node, OP_KEYS, Args { kind: s.p.kind, h: i.h, ..Default::default() })?;
                    inc(S::Evals);
                    if r.status == OK && (r.ret[0], r.ret[1]) != (s.p.k0, s.p.k1) {
                        return Err(format!(
                            "keys() of an engine keyed ({:#x}, {:#x}) returned ({:#x}, {:#x}) on {}",
                            s.p.k0, s.p.k1, r.ret[0], r.ret[1], IMAGES[i.node].name
                        ));
                    }
                }
                Ok(())
            }),
            // slot total path place arg, scripts separated by u64::MAX
            "retry" => {
                let scripts: Vec<Vec<u64>> = st
                    .a
                    .get(5..)
                    .unwrap_or(&[])
                    .split(|x| *x == u64::MAX)
                    .map(|x| x.to_vec())
                    .collect();
                self.with(get(0), |c, s| {
                    c.retry(s, get(1).min(1 << 20), get(2), get(3), get(4), &scripts)
                })
            }
            "mac" => self.mac(&st.a),
            "fteq" => self.fteq(&st.a),
            "probe" => self.probe(&st.a),
            "replica" => self.replica(&st.a),
            "rec" => self.record(&st.a),
            "gate" => self.gate(&st.a),
            // type valueseed class node
            "conv" => {
                let (ty, n) = (get(0) % NREC, get(3) as usize % NIMG);
                let v = rng::bytes(get(1), get(2), rec_len(ty));
                let at = self.arena.place(&v, 0);
                let r = self.call(
                    n,
                    R_CONVERT,
                    Args { kind: ty as u32, data: Some((at, v.len())), ..Default::default() },
                )?;
                inc(S::Evals);
                if r.status != OK || r.out != v {
                    return Err(format!(
                        "a byte conversion of {} changed {} on {}",
                        rec_name(ty),
                        hex(&v),
                        IMAGES[n].name
                    ));
                }
                Ok(())
            }
            // slot box
            "give" => {
                if let Some(s) = self.sess.remove(&get(0)) {
                    let old = self.mail.0.lock().unwrap().insert(get(1), s);
                    inc(S::O_moved);
                    if let Some(o) = old {
                        self.put_session(get(0), o)?;
                    }
                }
                Ok(())
            }
            // slot box: a snapshot of the session becomes visible to all threads
            "lend" => {
                let Some(s) = self.sess.get(&get(0)) else { return Ok(()) };
                if s.dead || s.insts.is_empty() {
                    return Ok(());
                }
                let (p, mut i, model, pos, shifted) =
                    (s.p.clone(), s.insts[0], s.model.clone(), s.pos, s.shifted);
                let r = self.call(i.node, OP_AUTO, Args { kind: p.kind, ..Default::default() })?;
                inc(S::Evals);
                if r.ret[0] != 3 {
                    return Err(format!(
                        "{} cannot be {} another thread",
                        kind_name(p.kind),
                        if r.ret[0] & 1 == 0 { "moved to" } else { "shared with" }
                    ));
                }
                i.h = self.call(i.node, OP_CLONE, Args { kind: p.kind, h: i.h, ..Default::default() })?.ret[0];
                inc(S::O_lent);
                let l = std::sync::Arc::new(Lent { p, i, model, pos, shifted });
                self.mail.1.lock().unwrap().push((get(1), l));
                Ok(())
            }
            // box slot order: reads the latest shared engine of the box, perhaps while others do
            "borrow" => {
                let look = || self.mail.1.lock().unwrap().iter().rev().find(|x| x.0 == get(0)).map(|x| x.1.clone());
                let mut l = look();
                for _ in 0..if self.flags & FL_SHARE != 0 { 40 } else { 0 } {
                    if l.is_some() {
                        break;
                    }
                    crate::threads::pass();
                    l = look();
                }
                let Some(l) = l else { return Ok(()) };
                let mut h = 0;
                self.reading = true;
                for k in 0..3 {
                    match (k + get(2)) % 3 {
                        0 => {
                            let x = Args { kind: l.p.kind, h: l.i.h, ..Default::default() };
                            h = self.call(l.i.node, OP_CLONE, x)?.ret[0];
                        }
                        1 => {
                            let n = self.nbytes(l.p.kind, l.i)?;
                            inc(S::Evals);
                            if n != l.i.n0 + l.i.got {
                                return Err(format!(
                                    "a shared {} engine on {} reports {} bytes hashed instead of {}",
                                    kind_name(l.p.kind),
                                    IMAGES[l.i.node].name,
                                    n,
                                    l.i.n0 + l.i.got
                                ));
                            }
                        }
                        _ if l.model.aligned() && core_of(l.p.kind) != Core::Sip => {
                            let x = Args { kind: l.p.kind, h: l.i.h, ..Default::default() };
                            let r = self.call(l.i.node, OP_MIDSTATE, x)?;
                            inc(S::Evals);
                            if r.out != l.model.midstate() {
                                return Err(format!(
                                    "the midstate of a shared {} engine on {} is {} instead of {}",
                                    kind_name(l.p.kind),
                                    IMAGES[l.i.node].name,
                                    hex(&r.out),
                                    hex(&l.model.midstate())
                                ));
                            }
                        }
                        _ => {}
                    }
                }
                self.reading = false;
                inc(S::O_borrowed);
                self.shape(&[16, l.p.kind as u64, get(2) % 3]);
                let s = Sess {
                    p: l.p.clone(),
                    insts: vec![Inst { h, ..l.i }],
                    model: l.model.clone(),
                    pos: l.pos,
                    shifted: l.shifted,
                    dead: false,
                };
                self.put_session(get(1), s)
            }
            // box slot
            "take" => {
                let s = self.mail.0.lock().unwrap().remove(&get(0));
                if let Some(s) = s {
                    self.put_session(get(1), s)?;
                }
                Ok(())
            }
            "marathon" => crate::marathon::marathon(self, &st.a),
            "giant" => crate::marathon::giant(self, &st.a),
            "bigconst" => crate::marathon::bigconst(self, &st.a),
            // node tagseed taglen class
            "hashtag" => {
                let n = get(0) as usize % NIMG;
                let tag = rng::bytes(get(1), get(3), get(2).min(1 << 20) as usize);
                let at = self.arena.place(&tag, 0);
                let r = self.call(n, OP_HASHTAG, Args { data: Some((at, tag.len())), ..Default::default() })?;
                let want = Model::tagged(TAGGED, &tag).midstate();
                inc(S::Evals);
                if r.out != want {
                    return Err(format!(
                        "Midstate::hash_tag of a {}-byte tag on {} is {} instead of {}",
                        tag.len(),
                        IMAGES[n].name,
                        hex(&r.out),
                        hex(&want)
                    ));
                }
                Ok(())
            }
            o => Err(format!("harness: op {}", o)),
        }
    }

    fn checkpoint(&mut self, slot: u64, s: &mut Sess, align: u64, fault: u64, f1: u64) -> V {
        if core_of(s.p.kind) == Core::Sip {
            return Ok(());
        }
        if !s.model.aligned() {
            if align == 0 {
                return Ok(());
            }
            let n = s.model.inner.core.unit() as u64 - s.model.fill() as u64;
            self.feed_session(s, n, path::INPUT, 0, 0, &[], false)?;
        }
        let i = s.insts[0];
        let count = self.nbytes(s.p.kind, i)?;
        let r = self.call(i.node, OP_MIDSTATE, Args { kind: s.p.kind, h: i.h, ..Default::default() })?;
        let mut b = vec![0x43, 0x4b];
        b.extend(count.to_le_bytes());
        b.extend(s.pos.to_le_bytes());
        b.extend((r.out.len() as u32).to_le_bytes());
        b.extend(&r.out);
        let sum = fnv(FNV0, &b);
        b.extend(sum.to_le_bytes());
        match fault {
            1 => {
                inc(S::F_torn);
                b.truncate(f1 as usize % b.len());
            }
            2 => {
                inc(S::F_lost);
                return Ok(());
            }
            3 => {
                inc(S::F_flip);
                let k = f1 as usize % (b.len() * 8);
                b[k / 8] ^= 1 << (k % 8);
            }
            _ => {}
        }
        let v = self.disk.entry(slot).or_default();
        v.push(Ckpt { bytes: b, model: s.model.clone(), pos: s.pos });
        if v.len() > 4 {
            v.remove(0);
        }
        self.shape(&[5, s.p.kind as u64, s.pos]);
        Ok(())
    }

    fn restart(&mut self, slot: u64, p: Params, n: u64, variant: u64) -> V {
        let mut found = None;
        if let Some(v) = self.disk.get(&slot) {
            for (age, c) in v.iter().rev().enumerate() {
                if let Some((count, mid)) = decode_ckpt(&c.bytes) {
                    found = Some((count, mid, c.model.clone(), c.pos, age));
                    break;
                }
            }
        }
        // A checkpoint belongs to one computation: another session in the same slot has another key.
        let found = found.filter(|f| f.2.kind == p.kind);
        match found {
            None => {
                inc(S::F_cold);
                self.begin(slot, p, n)
            }
            Some((count, mid, model, pos, age)) => {
                if age > 0 {
                    inc(S::F_stale);
                }
                inc(S::O_resumed);
                let mut insts = Vec::new();
                for m in self.machines(n) {
                    let h = match self.resume_raw(m, p.kind, &mid, count, variant)? {
                        Some(h) => h,
                        None => return Err(format!("{}: a midstate it exported is not accepted back", kind_name(p.kind))),
                    };
                    let mut i = Inst { node: m, h, n0: 0, got: 0, keys_known: false };
                    i.n0 = self.nbytes(p.kind, i)?;
                    inc(S::Evals);
                    if p.kind < HMAC && i.n0 != count {
                        return Err(format!(
                            "{} resumed on {} with count {} reports {}",
                            kind_name(p.kind),
                            IMAGES[m].name,
                            count,
                            i.n0
                        ));
                    }
                    insts.push(i);
                }
                self.shape(&[6, p.kind as u64, pos, n]);
                self.put_session(slot, Sess { p, insts, model, pos, shifted: false, dead: false })
            }
        }
    }

    fn migrate(&mut self, s: &mut Sess, n: u64, variant: u64) -> V {
        if core_of(s.p.kind) == Core::Sip {
            return Ok(());
        }
        if !s.model.aligned() {
            let k = s.model.inner.core.unit() as u64 - s.model.fill() as u64;
            self.feed_session(s, k, path::INPUT, 0, 0, &[], false)?;
        }
        inc(S::F_migrate);
        let mut states = Vec::new();
        for k in 0..s.insts.len() {
            let i = s.insts[k];
            let count = self.nbytes(s.p.kind, i)?;
            let r = self.call(i.node, OP_MIDSTATE, Args { kind: s.p.kind, h: i.h, ..Default::default() })?;
            states.push((count, r.out));
        }
        let len = s.insts.len();
        for k in 0..len {
            // In lockstep every machine takes over from the next one.
            let (count, mid) = states[(k + 1) % len].clone();
            let target = if len > 1 { s.insts[k].node } else { n as usize % NIMG };
            let h = match self.resume_raw(target, s.p.kind, &mid, count, variant)? {
                Some(h) => h,
                None => return Err(format!("{}: a midstate it exported is not accepted back", kind_name(s.p.kind))),
            };
            self.release(s.p.kind, s.insts[k])?;
            let mut i = Inst { node: target, h, n0: 0, got: 0, keys_known: false };
            i.n0 = self.nbytes(s.p.kind, i)?;
            s.insts[k] = i;
        }
        inc(S::O_resumed);
        Ok(())
    }

    /// SipHash (also under HMAC): the state object survives, the engine does not.
    ///
    /// `extra`: the count is moved on by that much, as if the computation were that much longer.
    fn warm(&mut self, s: &mut Sess, variant: u64, extra: u64) -> V {
        let extra = if s.p.kind == 6 { extra.min(1 << 60) / 256 * 256 } else { 0 };
        if !s.model.aligned() {
            let k = s.model.inner.core.unit() as u64 - s.model.fill() as u64;
            self.feed_session(s, k, path::INPUT, 0, 0, &[], false)?;
        }
        for k in 0..s.insts.len() {
            let i = s.insts[k];
            let count = self.nbytes(s.p.kind, i)? + extra;
            let r = self.call(
                i.node,
                OP_MIDSTATE,
                Args { kind: s.p.kind, h: i.h, a: [1, 0, 0, 0, 0, 0], ..Default::default() },
            )?;
            let m = r.ret[0];
            self.release(s.p.kind, i)?;
            let r = self.call(
                i.node,
                OP_RESUME,
                Args { kind: s.p.kind, h: m, a: [count, variant, 0, 0, 0, 0], ..Default::default() },
            )?;
            self.call(i.node, OP_MIDDROP, Args { kind: s.p.kind, h: m, ..Default::default() })?;
            let mut j = Inst { node: i.node, h: r.ret[0], n0: 0, got: 0, keys_known: false };
            j.n0 = self.nbytes(s.p.kind, j)?;
            inc(S::Evals);
            if s.p.kind < HMAC && j.n0 != count {
                return Err(format!(
                    "{} resumed in memory on {} with count {} reports {}",
                    kind_name(s.p.kind),
                    IMAGES[i.node].name,
                    count,
                    j.n0
                ));
            }
            s.insts[k] = j;
        }
        s.model.inner.total += extra;
        s.shifted |= extra != 0;
        inc(S::O_resumed);
        self.shape(&[7, s.p.kind as u64, s.pos]);
        Ok(())
    }

    fn refuse(&mut self, n: usize, kind: u32, count: u64, seed: u64, variant: u64) -> V {
        let core = core_of(kind);
        if core == Core::Sip || count % core.block() as u64 == 0 {
            return Ok(());
        }
        let len = core.chain_len() * if (HMAC..TAGGED).contains(&kind) { 2 } else { 1 };
        let mid = rng::bytes(seed, 0, len);
        let at = self.arena.place(&mid, 0);
        inc(S::F_badcount);
        let r = self.call2(
            n,
            OP_RESUME,
            Args { kind, a: [count, variant, 0, 0, 0, 0], data: Some((at, len)), ..Default::default() },
            true,
            false,
        )?;
        inc(S::Evals);
        if r.status != PANIC {
            return Err(format!(
                "{} on {} accepted a midstate with the misaligned byte count {}",
                kind_name(kind),
                IMAGES[n].name,
                count
            ));
        }
        inc(S::O_refused);
        Ok(())
    }

    fn retry(&mut self, s: &mut Sess, total: u64, pa: u64, place: u64, arg: u64, scripts: &[Vec<u64>]) -> V {
        let p0 = s.pos;
        let target = p0 + total;
        let d = Self::message(s, p0, total);
        for k in 0..s.insts.len() {
            let i = s.insts[k];
            let n0 = self.nbytes(s.p.kind, i)?;
            let mut sent = 0u64;
            let mut attempt = 0;
            // The client knows only the count the engine reports.
            loop {
                let n = self.nbytes(s.p.kind, i)?;
                let done = n.wrapping_sub(n0);
                inc(S::Evals);
                if done != sent {
                    return Err(format!(
                        "{} on {} reports {} bytes absorbed after a transfer that handed over {}",
                        kind_name(s.p.kind),
                        IMAGES[i.node].name,
                        done as i64,
                        sent
                    ));
                }
                if done == total {
                    break;
                }
                if attempt > scripts.len() {
                    return Err(format!(
                        "{} on {}: retrying from the reported position makes no progress",
                        kind_name(s.p.kind),
                        IMAGES[i.node].name
                    ));
                }
                let scr: &[u64] = scripts.get(attempt).map(|v| &v[..]).unwrap_or(&[]);
                if attempt > 0 {
                    inc(S::F_retry);
                }
                attempt += 1;
                sent += self.deliver(s.p.kind, i, &d[done as usize..], pa, place, arg, scr, false)?;
            }
            s.insts[k].got += total;
            if attempt > 1 {
                inc(S::O_retried);
            }
        }
        s.model.update(&d);
        s.pos = target;
        self.shape(&[8, s.p.kind as u64, p0, total, scripts.len() as u64]);
        self.observe(s)
    }

    fn sip_same(&mut self, s: &mut Sess, place: u64) -> V {
        if s.p.kind != 6 || s.pos > 1 << 20 || s.p.fab.is_some() || s.shifted {
            return Ok(());
        }
        let d = Self::message(s, 0, s.pos);
        let want = s.model.digest();
        for i in s.insts.clone() {
            for v in [0, 1, 5, 6, 7, 8] {
                let at = self.arena.place(&d, place);
                let r = self.call(
                    i.node,
                    OP_ONESHOT,
                    Args {
                        kind: 6,
                        a: [v, s.p.k0, s.p.k1, 0, 0, 0],
                        data: Some((at, d.len())),
                        ..Default::default()
                    },
                )?;
                if r.status == OK {
                    let what = format!("one-shot digest (variant {}) of {} bytes", v, d.len());
                    self.judge(6, i.node, &what, &r.out, &want)?;
                }
            }
            for v in 0..4 {
                let r = self.call(i.node, OP_CLONE, Args { kind: 6, h: i.h, ..Default::default() })?;
                let h = r.ret[0];
                let r = self.call(
                    i.node,
                    OP_FINISH,
                    Args { kind: 6, h, a: [v, 0, 0, 0, 0, 0], ..Default::default() },
                )?;
                let what = format!("digest (finish variant {}) of {} bytes", v, d.len());
                self.judge(6, i.node, &what, &r.out, &want)?;
            }
        }
        Ok(())
    }

    /// A caller that uses one buffer over and over: same address and length, other contents.
    fn reuse(&mut self, a: &[u64]) -> V {
        let get = |i: usize| a.get(i).copied().unwrap_or(0);
        let n = get(0) as usize % NIMG;
        let k = KINDS[get(1) as usize % KINDS.len()];
        let (len, what) = (get(3).min(1 << 16) as usize, get(9));
        let first = rng::bytes(get(5), get(6), len);
        let mut d = first.clone();
        let (mut k0, mut k1) = (get(7), get(8));
        if k != 6 || get(2) < 2 {
            (k0, k1) = (0, 0);
        }
        self.shape(&[16, k as u64, n as u64, what, len as u64]);
        for round in 0..get(10).min(12) {
            let x = mix(get(5) ^ mix(round));
            if round > 0 {
                inc(S::F_reuse);
                match x % 5 {
                    0 => d.copy_from_slice(&first),
                    1 => d = rng::bytes(x, get(6), len),
                    2 if k == 6 && (k0, k1) != (0, 0) => {
                        if x & 64 == 0 {
                            k0 ^= 1 << (x >> 8) % 64
                        } else {
                            k1 ^= 1 << (x >> 8) % 64
                        }
                    }
                    _ =>
                        if len > 0 {
                            let i = match (x >> 4) % 4 {
                                0 => 0,
                                1 => len - 1,
                                _ => (x >> 8) as usize % len,
                            };
                            d[i] ^= 1 << (x >> 40) % 8;
                        },
                }
            }
            let at = self.arena.place(&d, get(4));
            let data = Some((at, len));
            match what {
                // The message.
                0 => {
                    let r = self.call(
                        n,
                        OP_ONESHOT,
                        Args { kind: k, a: [get(2), k0, k1, 0, 0, 0], data, ..Default::default() },
                    )?;
                    if r.status == UNSUPPORTED {
                        return Ok(());
                    }
                    let mut m = Model::new(k, &[], k0, k1);
                    m.update(&d);
                    let what = format!("one-shot digest (variant {}) of a reused {}-byte buffer", get(2), len);
                    self.judge(k, n, &what, &r.out, &m.digest())?;
                }
                1 => {
                    let scr = [len as u64 / 3, 0, len as u64 / 2];
                    let r = self.call(
                        n,
                        OP_CHUNKS,
                        Args { kind: k, a: [get(2) % 5, 0, 0, 0, 0, 0], data, script: &scr, ..Default::default() },
                    )?;
                    let mut m = Model::new(k, &[], 0, 0);
                    m.update(&d);
                    self.judge(k, n, &format!("chunked digest of a reused {}-byte buffer", len), &r.out, &m.digest())?;
                }
                // The tag.
                2 => {
                    let r = self.call(n, OP_HASHTAG, Args { data, ..Default::default() })?;
                    let want = Model::tagged(TAGGED, &d).midstate();
                    inc(S::Evals);
                    if r.out != want {
                        return Err(format!("Midstate::hash_tag of a tag in a reused {}-byte buffer on {} is wrong", len, IMAGES[n].name));
                    }
                }
                // The key of a MAC, or the message fed to engines made one after the other.
                _ => {
                    let h = (HMAC..TAGGED).contains(&k) && what == 3;
                    let (key, msg): (&[u8], &[u8]) = if h { (&d, b"message") } else { (&[], &d) };
                    let x = Args { kind: k, a: [get(2), k0, k1, 0, 0, 0], data: if h { data } else { None }, ..Default::default() };
                    let r = self.call(n, OP_NEW, x)?;
                    if r.status != OK {
                        return Ok(());
                    }
                    let i = r.ret[0];
                    let p = if h { msg.as_ptr() } else { at };
                    self.call(n, OP_FEED, Args { kind: k, h: i, data: Some((p, msg.len())), ..Default::default() })?;
                    let r = self.call(n, OP_FINISH, Args { kind: k, h: i, a: [round, 0, 0, 0, 0, 0], ..Default::default() })?;
                    let mut m = Model::new(k, key, k0, k1);
                    m.update(msg);
                    let what = format!("digest with the {} in a reused {}-byte buffer", if h { "key" } else { "message" }, len);
                    self.judge(k, n, &what, &r.out, &m.digest())?;
                }
            }
            add(S::Bytes, len as u64);
        }
        Ok(())
    }

    /// kind nodeS nodeR keyseed keylen msglen msgseed fault f1 f2 f3 fragseed class
    fn mac(&mut self, a: &[u64]) -> V {
        let get = |i: usize| a.get(i).copied().unwrap_or(0);
        let kind = HMAC + get(0) as u32 % 9;
        let (ns, nr) = (get(1) as usize % NIMG, get(2) as usize % NIMG);
        let key = rng::bytes(get(3), 0, get(4).min(4096) as usize);
        let msg = rng::bytes(get(6), get(12), get(5).min(65536) as usize);
        let tag = self.mac_of(kind, ns, &key, &msg, get(11))?;
        let want = hmac(kind, &key, &msg);
        self.judge(kind, ns, &format!("MAC ({}-byte key, {}-byte message)", key.len(), msg.len()), &tag, &want)?;
        let (mut rk, mut rm, mut rt) = (key.clone(), msg.clone(), tag.clone());
        let (f1, f2, f3) = (get(8) as usize, get(9) as usize, get(10));
        let flip = |v: &mut Vec<u8>, bit: usize| {
            if !v.is_empty() {
                let k = bit % (v.len() * 8);
                v[k / 8] ^= 1 << (k % 8);
            }
        };
        let m8 = (f3 as u8).max(1);
        let fault = get(7) % 21;
        match fault {
            1 => flip(&mut rm, f1),
            2 => flip(&mut rt, f1),
            3 => {
                // The same mask at two places.
                let (i, j) = (f1 % rt.len(), f2 % rt.len());
                rt[i] ^= m8;
                if i != j {
                    rt[j] ^= m8;
                }
            }
            4 => rm.truncate(if rm.is_empty() { 0 } else { f1 % rm.len() }),
            5 => rm.extend(rng::bytes(f3, f2 as u64 % 3, 1 + f1 % 70)),
            6 =>
                if !self.sent.is_empty() {
                    let o = self.sent[f1 % self.sent.len()].2.clone();
                    if o.len() == rt.len() {
                        rt = o
                    }
                },
            7 =>
                if !self.sent.is_empty() {
                    rk = self.sent[f1 % self.sent.len()].0.clone()
                },
            8 => rk.extend(vec![0; 1 + f1 % 130]),
            9 => {
                rk.pop();
            }
            10 => rk = RefHash::hash(core_of(kind), &rk),
            11 => rt.truncate(f1 % rt.len()),
            12 => rt.extend(rng::bytes(f3, f2 as u64 % 3, 1 + f1 % 9)),
            13 => {
                let (i, j) = (f1 % rt.len(), f2 % rt.len());
                rt.swap(i, j);
            }
            14 => rt.iter_mut().for_each(|b| *b ^= m8),
            15 =>
                if rm.len() > 2 {
                    // Two fragments arrive in the wrong order.
                    let k = 1 + f1 % (rm.len() - 1);
                    rm.rotate_left(k);
                },
            16 => rt = rt.iter().map(|b| !b).collect(),
            17 => rt.fill(0),
            18 =>
                if !rm.is_empty() {
                    // A fragment is delivered twice.
                    let k = f1 % rm.len();
                    let n = (1 + f2 % 100).min(rm.len() - k);
                    let part = rm[k..k + n].to_vec();
                    rm.splice(k + n..k + n, part);
                },
            19 =>
                if !self.sent.is_empty() {
                    // An old delivery is replayed whole: this is an intact message.
                    let (k, m, t) = self.sent[f1 % self.sent.len()].clone();
                    if t.len() == rt.len() {
                        rk = k;
                        rm = m;
                        rt = t;
                    }
                },
            20 => flip(&mut rk, f1),
            _ => {}
        }
        match fault {
            1 | 4 | 5 | 15 | 18 => inc(S::F_msgbad),
            2 | 3 | 6 | 11..=14 | 16 | 17 => inc(S::F_tagbad),
            7..=10 | 20 => inc(S::F_keybad),
            19 => inc(S::F_dup),
            _ => {}
        }
        self.sent.push((key, msg, tag));
        let mine = self.mac_of(kind, nr, &rk, &rm, mix(get(11)))?;
        let want = hmac(kind, &rk, &rm);
        self.judge(kind, nr, &format!("MAC ({}-byte key, {}-byte message)", rk.len(), rm.len()), &mine, &want)?;
        let same = want == rt;
        let x = self.arena.place(&mine, get(11) % 3);
        let y = self.arena2.place(&rt, get(11) / 3 % 3);
        let r = self.call2(
            nr,
            OP_FTEQ,
            Args { data: Some((x, mine.len())), aux: Some((y, rt.len())), ..Default::default() },
            true,
            false,
        )?;
        inc(S::Evals);
        if rt.len() != mine.len() {
            if r.status != PANIC {
                return Err(format!(
                    "fixed_time_eq of {} and {} bytes on {} did not panic (returned {})",
                    mine.len(),
                    rt.len(),
                    IMAGES[nr].name,
                    r.ret[0]
                ));
            }
            inc(S::O_reject);
            return Ok(());
        }
        if r.status != OK || (r.ret[0] == 1) != same {
            return Err(format!(
                "fixed_time_eq({}, {}) on {} returned {} (status {})",
                hex(&mine),
                hex(&rt),
                IMAGES[nr].name,
                r.ret[0],
                r.status
            ));
        }
        // As digest values: the HMAC hash type of this length.
        let ty = match mine.len() {
            8 => 8,
            20 => 9,
            32 => 10,
            48 => 11,
            _ => 12,
        };
        let r = self.call(
            nr,
            R_EQ,
            Args { kind: ty, data: Some((x, mine.len())), aux: Some((y, rt.len())), ..Default::default() },
        )?;
        inc(S::Evals);
        if r.status != OK || (r.ret[0] == 1) != same || (r.ret[1] == 1) == same || (r.ret[2] == 1) != same {
            return Err(format!(
                "comparing {} with {} as {} on {} gave == {} != {} (status {})",
                hex(&mine),
                hex(&rt),
                rec_name(ty as u64),
                IMAGES[nr].name,
                r.ret[0],
                r.ret[1],
                r.status
            ));
        }
        inc(if same { S::O_accept } else { S::O_reject });
        self.shape(&[10, kind as u64, get(4), get(5), fault]);
        shared::state(mix(mix(kind as u64 * 64 + nr as u64) ^ mix(get(4).min(300) << 16 | fault << 8 | 3)));
        Ok(())
    }

    /// An HMAC over `msg` in fragments chosen by `fragseed`.
    fn mac_of(&mut self, kind: u32, n: usize, key: &[u8], msg: &[u8], fragseed: u64) -> V<Vec<u8>> {
        let at = self.arena2.place(key, fragseed % 3);
        let r = self.call(
            n,
            OP_NEW,
            Args { kind, a: [fragseed / 7, 0, 0, 0, 0, 0], data: Some((at, key.len())), ..Default::default() },
        )?;
        let h = r.ret[0];
        let i = Inst { node: n, h, n0: 0, got: 0, keys_known: false };
        let mut g = rng::Rng::new(fragseed);
        let mut rest = msg;
        let whole = g.chance(1, 3);
        loop {
            let k = if whole { rest.len() } else { (g.below(140) as usize).min(rest.len()) };
            let (x, y) = rest.split_at(k);
            let pa = g.pick(&[path::INPUT, path::INPUT, path::WRITE, path::BWRITE_ALL, path::WRITE_ALL]);
            let place = g.below(3);
            self.deliver(kind, i, x, pa, place, 0, &[], false)?;
            rest = y;
            if rest.is_empty() {
                break;
            }
        }
        let r = self.call(
            n,
            OP_FINISH,
            Args { kind, h, a: [g.below(2), 0, 0, 0, 0, 0], ..Default::default() },
        )?;
        Ok(r.out)
    }

    /// gate settings how order others {type hold writer valueseed class damage}: a document of
    /// digests is written field by field on its machines, damaged in transit, and judged by a
    /// gatekeeper with the schemas that its machine publishes for the fields. The gatekeeper asks for
    /// them in an order of its own, after those of other documents.
    fn gate(&mut self, a: &[u64]) -> V {
        use serde_json::Value;
        let get = |i: usize| a.get(i).copied().unwrap_or(0);
        let gate = get(0) as usize % NIMG;
        let kinds: Vec<u64> = (0..NREC).filter(|k| *k != 7 && *k != 16).collect();
        let fields: Vec<&[u64]> = a.get(5..).unwrap_or(&[]).chunks_exact(6).take(12).collect();
        let entry = |f: &[u64]| kinds[f[0] as usize % kinds.len()] | (f[1] % 3) << 8;
        let mut g = rng::Rng::new(get(4));
        let mut script: Vec<u64> = Vec::new();
        if get(4) != 0 {
            for _ in 0..g.range(1, 5) {
                let f = [g.below(kinds.len() as u64), g.below(3)];
                script.push(entry(&f));
            }
        }
        let others = script.len();
        let mut order: Vec<usize> = (0..fields.len()).collect();
        if get(3) != 0 {
            let mut g = rng::Rng::new(get(3));
            for i in (1..order.len()).rev() {
                order.swap(i, g.below(i as u64 + 1) as usize);
            }
            inc(S::F_shuffle);
        }
        script.extend(order.iter().map(|i| entry(fields[*i])));
        let args = [get(1), get(2), 0, 0, 0, 0];
        let r = self.call(gate, R_SCHEMA, Args { a: args, script: &script, ..Default::default() })?;
        if r.status == UNSUPPORTED {
            return Ok(());
        }
        if r.status != OK {
            return Err(format!("asking for schemas failed on {} (status {})", IMAGES[gate].name, r.status));
        }
        let Ok(all) = serde_json::from_slice::<Value>(&r.out) else {
            return Err(format!("harness: no JSON: {}", String::from_utf8_lossy(&r.out)));
        };
        for (at, i) in order.iter().enumerate() {
            let f = fields[*i];
            let ty = kinds[f[0] as usize % kinds.len()];
            let n = rec_len(ty);
            let w = f[2] as usize % NIMG;
            let mut h = rng::Rng::new(f[3]);
            let count = match f[1] % 3 {
                0 => 1,
                1 => h.below(4).min(1),
                _ => h.below(4),
            };
            let mut vals: Vec<Value> = Vec::new();
            for _ in 0..count {
                let v = rng::bytes(h.next(), f[4], n);
                let p = self.arena.place(&v, 0);
                let x = Args { kind: ty as u32, a: [h.below(2), 0, 0, 0, 0, 0], data: Some((p, v.len())), ..Default::default() };
                let r = self.call(w, R_JSON_SER, x)?;
                match serde_json::from_slice::<Value>(&r.out) {
                    Ok(v) if r.status == OK => vals.push(v),
                    _ => return Err(format!("{} could not be written as JSON on {}", rec_name(ty), IMAGES[w].name)),
                }
            }
            // In transit.
            let mut intact = true;
            let (dmg, p) = (f[5] >> 32, f[5] as u32 as usize);
            if let Some(v) = vals.last_mut() {
                let s = v.as_str().unwrap_or("").to_string();
                let digits: Vec<char> = s.chars().collect();
                let cut = |k: usize| Value::String(digits[..k.min(digits.len())].iter().collect());
                let bad = match dmg % 14 {
                    1 => Some(cut(p % (digits.len() + 1))),
                    2 => Some(cut(digits.len().saturating_sub(1 + p % 2))),
                    3 => Some(Value::String(s.clone() + &s[..s.len().min(1 + p % 8)])),
                    4 => Some(Value::String(s.repeat(2))),
                    5 => Some(Value::from(p)),
                    6 => Some(Value::Null),
                    7 => Some(Value::Array(vec![v.clone()])),
                    8 => Some(Value::Bool(p % 2 == 1)),
                    // Digits replaced by wider characters: the same number of bytes, fewer characters.
                    9 if digits.len() >= 2 => Some(Value::String(s[2..].to_string() + "\u{e9}")),
                    // A value of some other type in its place.
                    10 => {
                        let l = rec_len(kinds[p % kinds.len()]);
                        Some(Value::String(hex(&rng::bytes(f[3] + 1, f[4], l))))
                    }
                    11 => Some(Value::String(String::new())),
                    12 => Some(serde_json::json!({ "hash": s })),
                    13 => Some(Value::String(format!("0x{}", s))),
                    _ => None,
                };
                if let Some(b) = bad {
                    if b != *v {
                        intact = false;
                        inc(if b.is_string() { S::F_reclen } else { S::F_recflip });
                        *v = b;
                    }
                }
            }
            let fits = |v: &Value| v.as_str().map_or(false, |s| s.chars().count() == 2 * n);
            let (doc, sound) = match f[1] % 3 {
                0 => (vals[0].clone(), fits(&vals[0])),
                1 => match vals.first() {
                    None => (Value::Null, true),
                    Some(v) => (v.clone(), v.is_null() || fits(v)),
                },
                _ => (Value::Array(vals.clone()), vals.iter().all(fits)),
            };
            if intact && !sound {
                return Err(format!("{} written on {} is {}", rec_name(ty), IMAGES[w].name, doc));
            }
            let schema = &all["f"][others + at];
            let what = || {
                let before: Vec<_> = script[..others + at].iter().map(|x| rec_name(x & 255)).collect();
                format!(
                    "the schema of {}{} asked for on {} after those of [{}], {},",
                    ["", "an optional ", "a list of "][f[1] as usize % 3],
                    rec_name(ty),
                    IMAGES[gate].name,
                    before.join(", "),
                    schema
                )
            };
            inc(S::Evals);
            match crate::schema::admits(schema, schema, &all["defs"], &doc, 0) {
                Err(e) => return Err(format!("{} is broken: {}", what(), e)),
                Ok(false) if intact || (f[1] % 3 == 1 && doc.is_null()) =>
                    return Err(format!("{} does not admit {} written on {}", what(), doc, IMAGES[w].name)),
                Ok(true) if !sound => return Err(format!("{} admits {}", what(), doc)),
                Ok(ok) => inc(if ok { S::O_admitted } else { S::O_barred }),
            }
            self.shape(&[21, ty, f[1] % 3, dmg % 14, u64::from(intact), get(1) % 4, get(2) % 3]);
        }
        shared::state(mix(fnv(FNV0, &r.out)));
        Ok(())
    }

    /// type setseed values logseed ops orderseed cut nodea nodeb: one replica of a catalogue keyed
    /// by digests receives the log, crashes after `cut` operations and goes on on another machine
    /// from what it had stored
    fn replica(&mut self, a: &[u64]) -> V {
        let get = |i: usize| a.get(i).copied().unwrap_or(0);
        let ty = get(0) % NREC;
        let len = rec_len(ty);
        let room = (3000 / (len + 1)).min(40) as u64;
        let set = values(get(1), get(2).clamp(1, room), len);
        // The log; operations on different values commute, so every replica has to end the same.
        let mut g = rng::Rng::new(get(3));
        let mut log: Vec<(u8, usize)> = (0..get(4).clamp(1, 90))
            .map(|_| (g.weighted(&[6, 3, 2, 1, 3]) as u8, g.below(set.len() as u64) as usize))
            .collect();
        let mut r = rng::Rng::new(get(5));
        if get(5) != 0 {
            for _ in 0..log.len() * 2 {
                let i = r.below(log.len().max(2) as u64 - 1) as usize;
                if i + 1 < log.len() && log[i].1 != log[i + 1].1 {
                    log.swap(i, i + 1);
                    inc(S::F_shuffle);
                }
            }
            if r.chance(1, 2) {
                let i = r.below(log.len() as u64) as usize;
                log.insert(i, log[i]);
                inc(S::F_redo);
            }
        }
        let cut = (get(6) as usize).min(log.len());
        let mut stored: Vec<Vec<u8>> = Vec::new();
        let mut model = std::collections::BTreeSet::new();
        for (part, n) in [(&log[..cut], get(7)), (&log[cut..], get(8))] {
            let n = n as usize % NIMG;
            if cut != 0 && part.as_ptr() != log.as_ptr() {
                inc(S::F_crash);
            }
            let mut data = Vec::new();
            for (o, v) in part {
                data.push(*o);
                data.extend_from_slice(&set[*v]);
            }
            let aux = stored.concat();
            let p = self.arena.place(&data, 0);
            let q = self.arena2.place(&aux, 0);
            let rep = self.call(
                n,
                R_CATALOG,
                Args {
                    kind: ty as u32,
                    a: [len as u64, 0, 0, 0, 0, 0],
                    data: Some((p, data.len())),
                    aux: Some((q, aux.len())),
                    ..Default::default()
                },
            )?;
            if rep.status != OK {
                return Err(format!("a catalogue of {} failed on {} (status {})", rec_name(ty), IMAGES[n].name, rep.status));
            }
            let mut want = Vec::new();
            let mut prev: Option<&Vec<u8>> = None;
            for (o, v) in part {
                let v = &set[*v];
                match o {
                    0 => want.push(if model.insert(v.clone()) { 7 } else { 0 }),
                    1 => want.push(if model.remove(v) { 7 } else { 0 }),
                    2 => want.push(if model.contains(v) { 7 } else { 0 }),
                    3 => {
                        let k = model.range(..v.clone()).count() as u8;
                        want.extend([k, k, model.len() as u8 - k]);
                    }
                    _ => match prev {
                        None => want.push(0),
                        Some(p) => {
                            let (b, c, d) = match v.cmp(p) {
                                std::cmp::Ordering::Less => (1, 0x23, 1),
                                std::cmp::Ordering::Equal => (2, 0x1a, 3),
                                std::cmp::Ordering::Greater => (3, 0x2c, 2),
                            };
                            want.extend([b, b, c, d, u8::from(v == p)]);
                        }
                    },
                }
                prev = Some(v);
            }
            inc(S::Evals);
            let (got, rest) = rep.out.split_at((rep.ret[1] as usize).min(rep.out.len()));
            if got != want {
                let at = got.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(0);
                let (mut k, mut i) = (0, 0);
                let mut first = true;
                for (j, (o, _)) in part.iter().enumerate() {
                    let w = match o {
                        3 => 3,
                        4 if !first => 5,
                        _ => 1,
                    };
                    first = false;
                    if at < k + w {
                        i = j;
                        break;
                    }
                    k += w;
                }
                let (o, v) = part.get(i).copied().unwrap_or((9, 0));
                return Err(format!(
                    "a catalogue of {} on {} answered operation {} ({} {}{}) unlike the same catalogue of bytes",
                    rec_name(ty),
                    IMAGES[n].name,
                    i,
                    ["insert", "remove", "find", "rank", "compare", "?"][(o as usize).min(5)],
                    hex(&set[v]),
                    if o == 4 && i > 0 { format!(" with {}", hex(&set[part[i - 1].1])) } else { String::new() }
                ));
            }
            stored = rest.chunks(len).map(|x| x.to_vec()).collect();
            if rep.ret[0] != 1 || !stored.iter().eq(model.iter()) {
                return Err(format!(
                    "a catalogue of {} on {} holds other values, or another order, than the same catalogue of bytes",
                    rec_name(ty),
                    IMAGES[n].name
                ));
            }
            shared::state(mix(mix(800 + n as u64) ^ mix(ty << 32 | (stored.len() as u64) << 16 | part.len() as u64)));
        }
        inc(S::O_replica);
        self.shape(&[13, ty, get(1), get(3), get(5), get(6)]);
        Ok(())
    }

    /// node seed class len placea placeb forgery...: a forger who watches the verifier's clock
    fn probe(&mut self, a: &[u64]) -> V {
        let get = |i: usize| a.get(i).copied().unwrap_or(0);
        let n = get(0) as usize % NIMG;
        let tag = rng::bytes(get(1), get(2), get(3).min(4096) as usize);
        // The verifier has been running for a while: lazy initialisation is over.
        self.timed(n, &tag, &tag, get(4), get(5))?;
        let mut first: Option<(u64, usize)> = None;
        let genuine = self.timed(n, &tag, &tag, get(4), get(5))?.1;
        // The verifier's own copy against itself, and against another copy that lies alike.
        if get(1) % 4 == 0 {
            let apart = self.timed(n, &tag, &tag, get(4), get(4))?.1;
            let p = self.arena.place(&tag, get(4) % 64);
            let x = Some((p, tag.len()));
            let r = self.call2(n, OP_TIMEDEQ, Args { data: x, aux: x, ..Default::default() }, false, true)?;
            let same = crate::cpu::elapsed();
            inc(S::Evals);
            if r.ret[0] != 1 || same.abs_diff(apart) > 6 {
                return Err(format!(
                    "fixed_time_eq of a {}-byte slice with itself returned {} after {} instructions ({} for a copy) on {}",
                    tag.len(),
                    r.ret[0],
                    same,
                    apart,
                    IMAGES[n].name
                ));
            }
        }
        for f in a.iter().skip(6).take(64) {
            let y = forge(&tag, *f);
            let (verdict, time) = self.timed(n, &tag, &y, get(4), get(5))?;
            inc(S::Evals);
            inc(S::O_probe);
            if y != tag {
                inc(S::F_tagbad);
            }
            if verdict != (y == tag) {
                return Err(format!(
                    "fixed_time_eq of two {}-byte slices ({}) returned {} on {}",
                    tag.len(),
                    forged(&tag, &y),
                    verdict,
                    IMAGES[n].name
                ));
            }
            if y == tag {
                if time != genuine {
                    return Err(format!(
                        "fixed_time_eq of two equal {}-byte slices took {} and then {} instructions on {}",
                        tag.len(),
                        genuine,
                        time,
                        IMAGES[n].name
                    ));
                }
                continue;
            }
            match first {
                None => {
                    first = Some((*f, time));
                    // The verdict itself may cost an instruction or two.
                    if time.abs_diff(genuine) > 6 {
                        return Err(format!(
                            "fixed_time_eq of two {}-byte slices took {} instructions when they are equal and {} when they differ ({}) on {}",
                            tag.len(),
                            genuine,
                            time,
                            forged(&tag, &y),
                            IMAGES[n].name
                        ));
                    }
                }
                Some((f0, t0)) if t0 != time => {
                    return Err(format!(
                        "fixed_time_eq of two {}-byte slices took {} instructions for one forgery ({}) and {} for another ({}) on {}",
                        tag.len(),
                        t0,
                        forged(&tag, &forge(&tag, f0)),
                        time,
                        forged(&tag, &y),
                        IMAGES[n].name
                    ));
                }
                _ => {}
            }
            shared::state(mix(mix(700 + n as u64) ^ mix(get(3) << 16 | (f >> 56) << 8 | (f & 0xff))));
        }
        self.shape(&[12, get(3), get(0), a.len() as u64]);
        Ok(())
    }

    /// The verdict and the time of one comparison.
    fn timed(&mut self, n: usize, x: &[u8], y: &[u8], px: u64, py: u64) -> V<(bool, usize)> {
        let p = self.arena.place(x, px % 64);
        let q = self.arena2.place(y, py % 64);
        let r = self.call2(
            n,
            OP_TIMEDEQ,
            Args { data: Some((p, x.len())), aux: Some((q, y.len())), ..Default::default() },
            false,
            true,
        )?;
        let t = crate::cpu::elapsed();
        if t == 0 {
            return Err("harness: the simulated CPU's clock stands still".into());
        }
        self.note64(t as u64);
        add(S::ClockTicks, t as u64);
        Ok((r.ret[0] == 1, t))
    }

    /// node len seed ndiff mask placea placeb extra class: raw comparisons
    fn fteq(&mut self, a: &[u64]) -> V {
        let get = |i: usize| a.get(i).copied().unwrap_or(0);
        let n = get(0) as usize % NIMG;
        let x = rng::bytes(get(2), get(8), get(1).min(1 << 18) as usize);
        let mut y = x.clone();
        let mut g = rng::Rng::new(get(2) ^ 77);
        if !y.is_empty() {
            for _ in 0..get(3).min(100_000) {
                let k = g.below(y.len() as u64) as usize;
                y[k] ^= if get(4) == 0 { 1 << g.below(8) } else { get(4) as u8 };
            }
        }
        match get(7) {
            0 => {}
            e if e % 2 == 1 => y.extend(rng::bytes(get(2) ^ 5, get(8), 1 + (e as usize / 2) % 40)),
            e => y.truncate(y.len().saturating_sub(1 + (e as usize / 2) % 40)),
        }
        let p = self.arena.place(&x, get(5) % 4);
        let q = self.arena2.place(&y, get(6) % 4);
        inc(S::F_guard);
        let r = self.call2(
            n,
            OP_FTEQ,
            Args { data: Some((p, x.len())), aux: Some((q, y.len())), ..Default::default() },
            x.len() != y.len(),
            false,
        )?;
        inc(S::Evals);
        if x.len() != y.len() {
            if r.status != PANIC {
                return Err(format!(
                    "fixed_time_eq of {} and {} bytes on {} did not panic (returned {})",
                    x.len(),
                    y.len(),
                    IMAGES[n].name,
                    r.ret[0]
                ));
            }
            return Ok(());
        }
        if r.status != OK || (r.ret[0] == 1) != (x == y) {
            let diffs = x.iter().zip(&y).filter(|(a, b)| a != b).count();
            return Err(format!(
                "fixed_time_eq of two {}-byte slices that differ in {} places returned {} on {} (status {})",
                x.len(),
                diffs,
                r.ret[0],
                IMAGES[n].name,
                r.status
            ));
        }
        self.shape(&[11, get(1), get(3), get(4)]);
        shared::state(mix(mix(900 + n as u64) ^ mix(get(1) << 16 | get(3).min(9) << 8 | (get(4) & 0xff))));
        Ok(())
    }

    /// type valueseed class nodeW nodeR slot enc room chop corrupt f1 f2 dec hold script...
    ///
    /// enc: 0-2 text, 3 debug, 4-5 alternate, 6 JSON, 7 binary serde, 8 human readable serde, 9 raw bytes.
    fn record(&mut self, a: &[u64]) -> V {
        let get = |i: usize| a.get(i).copied().unwrap_or(0);
        let ty = get(0) % NREC;
        let n = rec_len(ty);
        let v = rng::bytes(get(1), get(2), n);
        let (nw, nr) = (get(3) as usize % NIMG, get(4) as usize % NIMG);
        let enc = get(6) % 10;
        let lower = hex(&v);
        let upper = lower.to_uppercase();
        // What holds a JSON record: nothing, an option, a list, a map (as its key), a tuple.
        let holder = get(13) % 5;
        let hold = [("", ""), ("", ""), ("[", "]"), ("{", ":true}"), ("[", ",7]")][holder as usize];
        // --- write
        let full: Vec<u8> = match enc {
            0 | 1 => lower.clone().into_bytes(),
            2 => upper.clone().into_bytes(),
            6 => format!("{}\"{}\"{}", hold.0, lower, hold.1).into_bytes(),
            8 => lower.clone().into_bytes(),
            7 | 9 => v.clone(),
            _ => vec![],
        };
        let loose = matches!(enc, 3..=5); // debug, alternate and padded forms: the digits in some dress
        let style = match enc {
            3 => [3, 7, 12][get(12) as usize / 3 % 3],
            4 => [4, 8, 11, 13][get(12) as usize / 3 % 4],
            5 => [5, 6, 9, 10, 14][get(12) as usize / 3 % 5],
            x => x,
        };
        let room = if get(7) == 0 { 4000 } else { get(7) - 1 };
        let at = self.arena.place(&v, get(10) % 3);
        let data = Some((at, v.len()));
        let k = ty as u32;
        let (r, limited) = match enc {
            0..=5 => (
                self.call(nw, R_FMT, Args { kind: k, a: [style, room, 0, 0, 0, 0], data, ..Default::default() })?,
                true,
            ),
            6 => {
                let how = get(12) % 3;
                (
                    self.call(
                        nw,
                        R_JSON_SER,
                        Args { kind: k, a: [how, room, get(8), holder, 0, 0], data, ..Default::default() },
                    )?,
                    how == 2,
                )
            }
            7 | 8 => (
                self.call(
                    nw,
                    R_BIN_SER,
                    Args { kind: k, a: [enc - 7, room, 0, 0, 0, 0], data, ..Default::default() },
                )?,
                true,
            ),
            _ => (self.call(nw, R_SLICE, Args { kind: k, data, ..Default::default() })?, false),
        };
        inc(S::Evals);
        let what = || format!("{} {} written on {}", rec_name(ty), ENC[enc as usize], IMAGES[nw].name);
        let file = if loose {
            let s = String::from_utf8_lossy(&r.out).into_owned();
            if r.status == OK {
                let dressed = match style {
                    6 | 10 => s.contains(&upper),
                    13 => s.contains(&lower) || lower.starts_with(&s), // cut short by the caller's wish
                    3 | 7 | 12 => s.contains(&lower) || s.contains(&upper),
                    _ => s.contains(&lower),
                };
                if !dressed {
                    return Err(format!("{}: {:?} does not contain {}", what(), s, lower));
                }
            } else if room >= 2 * n as u64 + 64 {
                return Err(format!("{}: failed with room for {} bytes", what(), room));
            } else {
                inc(S::F_sinkfull);
            }
            return Ok(());
        } else {
            let fits = !limited || room >= full.len() as u64;
            if limited && get(8) != 0 && enc == 6 {
                inc(S::F_sinkchop);
            }
            if r.status == OK && r.out != full {
                return Err(format!(
                    "{}: success reported but {:?} was written instead of {:?}",
                    what(),
                    String::from_utf8_lossy(&r.out),
                    String::from_utf8_lossy(&full)
                ));
            }
            if fits && r.status != OK {
                return Err(format!("{}: failed though the sink has room", what()));
            }
            if !fits {
                inc(S::F_sinkfull);
                if r.status == OK {
                    return Err(format!("{}: success reported by a sink that took {} bytes", what(), room));
                }
            }
            r.out
        };
        // --- storage
        let old = self.files.get(&get(5)).cloned().unwrap_or_default();
        let (f1, f2) = (get(10) as usize, get(11) as usize);
        let mut b = file;
        let mut array = None;
        match get(9) % 13 {
            1 => {
                // Torn write over an older record.
                inc(S::F_rectorn);
                let c = f1 % (b.len() + 1);
                b.truncate(c);
                if old.len() > c {
                    b.extend(&old[c..]);
                }
            }
            2 => {
                inc(S::F_rectorn);
                b.truncate(f1 % (b.len() + 1));
            }
            3 =>
                if !b.is_empty() {
                    inc(S::F_recflip);
                    let c = f1 % (b.len() * 8);
                    b[c / 8] ^= 1 << (c % 8);
                },
            4 =>
                if !b.is_empty() {
                    inc(S::F_recflip);
                    let c = f1 % b.len();
                    b[c] = *b"gG:/`@ zZxX\0\x80+-".get(f2 % 15).unwrap();
                },
            5 => {
                inc(S::F_reclen);
                b.extend(rng::bytes(f2 as u64, f1 as u64 % 6, 1 + f1 % 5));
            }
            6 => {
                // Longer older record shines through.
                inc(S::F_reclen);
                if old.len() > b.len() {
                    let l = b.len();
                    b.extend(&old[l..]);
                } else {
                    let c = b.clone();
                    b.extend(c);
                }
            }
            7 =>
                if !b.is_empty() {
                    inc(S::F_recflip);
                    // Case of some letters changes.
                    for (i, x) in b.iter_mut().enumerate() {
                        if (f1 >> (i % 60)) & 1 == 1 {
                            *x = if f2 % 2 == 0 { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
                        }
                    }
                },
            8 => {
                inc(S::F_reclen);
                let c = f1 % (b.len() + 1);
                let x = *b"0aF \"\n\\x".get(f2 % 8).unwrap();
                b.insert(c, x);
            }
            9 =>
                if !b.is_empty() {
                    inc(S::F_reclen);
                    b.remove(f1 % b.len());
                },
            10 => {
                inc(S::F_reclen);
                let mut p: Vec<u8> = [&b"0x"[..], b"0X", b" ", b"+", b"\xef\xbb\xbf", b"\""][f1 % 6].to_vec();
                p.extend(&b);
                b = p;
            }
            11 => {
                inc(S::F_recflip);
                // A two-byte character where two digits were.
                if b.len() >= 2 {
                    let c = f1 % (b.len() - 1);
                    b[c] = 0xc3;
                    b[c + 1] = 0xa9;
                }
            }
            12 if enc == 6 && holder == 0 => {
                inc(S::F_reclen);
                // Some other document.
                let k = [n, n, n - 1, n + 1, 2 * n, 0][f1 % 6];
                let list = |s: &str| {
                    let l: Vec<String> = v.iter().cycle().take(k).map(|x| format!("{}", x)).collect();
                    format!("[{}]", l.join(s))
                };
                b = match f2 % 8 {
                    0..=2 => list(","),
                    3 => "null".to_string(),
                    4 => format!("{{\"hash\":\"{}\"}}", lower),
                    5 => format!("[\"{}\"]", lower),
                    6 => lower.bytes().filter(u8::is_ascii_digit).map(char::from).collect(),
                    _ => "true".to_string(),
                }
                .into_bytes();
                if f2 % 8 < 3 && k == n {
                    array = Some(v.clone());
                }
            }
            _ => {}
        }
        self.files.insert(get(5), b.clone());
        // --- read
        let at = self.arena.place(&b, f2 as u64 % 2);
        inc(S::F_guard);
        let data = Some((at, b.len()));
        let scr = a.get(14..).unwrap_or(&[]);
        let mut source_failed = false;
        // Presented in a shape the reader need not understand: exact or refused.
        let mut odd = false;
        let utf8 = std::str::from_utf8(&b).is_ok();
        let (r, want) = match enc {
            0..=2 => {
                // Text can come back by parsing or by a human readable deserializer.
                let r = if get(12) % 3 == 0 {
                    odd = utf8 && get(12) / 3 % 5 == 3;
                    self.call(
                        nr,
                        R_BIN_DE,
                        Args { kind: k, a: [1, get(12) / 3, 0, 0, 0, 0], data, ..Default::default() },
                    )?
                } else {
                    self.call(nr, R_PARSE, Args { kind: k, a: [get(12) / 3, 0, 0, 0, 0, 0], data, ..Default::default() })?
                };
                (r, Some(spell_text(&b, n)))
            }
            6 => {
                let how = get(12) / 3 % 3;
                if how == 2 {
                    count_script(scr);
                    source_failed = scr.iter().any(|e| {
                        matches!(e >> 56, script::WOULDBLOCK | script::ERROR | script::PANIC | script::EOF)
                    });
                }
                let r = self.call(
                    nr,
                    R_JSON_DE,
                    Args { kind: k, a: [how, 0, 0, holder, 0, 0], data, script: scr, ..Default::default() },
                )?;
                odd = array.is_some();
                (r, if odd { Some(array) } else { spell_held(&b, n, holder, hold) })
            }
            7 | 8 => {
                odd = if enc == 7 { matches!(get(12) % 6, 3..=5) } else { utf8 && get(12) % 5 == 3 };
                let r = self.call(
                    nr,
                    R_BIN_DE,
                    Args { kind: k, a: [enc - 7, get(12), 0, 0, 0, 0], data, ..Default::default() },
                )?;
                let exact = (b.len() == n).then(|| b.clone());
                let want = if enc == 8 || get(12) % 6 == 5 && utf8 {
                    spell_text(&b, n).or(exact.filter(|_| odd))
                } else {
                    exact
                };
                (r, Some(want))
            }
            _ => {
                let r = self.call(nr, R_SLICE, Args { kind: k, data, ..Default::default() })?;
                inc(S::Evals);
                if r.status == ERR && (r.ret[0], r.ret[1]) != (n as u64, b.len() as u64) {
                    return Err(format!(
                        "{}::from_slice of {} bytes reports expected {} got {}",
                        rec_name(ty),
                        b.len(),
                        r.ret[0],
                        r.ret[1]
                    ));
                }
                (r, Some((b.len() == n).then(|| b.clone())))
            }
        };
        inc(S::Evals);
        shared::state(mix(mix(500 + ty * 64 + nr as u64) ^ mix(enc << 16 | (get(9) % 13) << 8 | (get(12) % 9))));
        self.shape(&[12, ty, enc, get(9) % 13, get(12) % 9, f1 as u64 % 200]);
        let what = || {
            format!("{} {} {:?} read on {}", rec_name(ty), ENC[enc as usize], String::from_utf8_lossy(&b), IMAGES[nr].name)
        };
        if r.status == UNSUPPORTED {
            return Ok(()); // not a `str`
        }
        if r.status == PANIC && !(source_failed && r.ret[5] == 1) {
            return Err(format!("{}: panic", what()));
        }
        if let Some(want) = want {
            if r.status == OK {
                inc(S::O_decoded);
                // An early end of the source can leave a shorter, still complete record, hence `<=`.
                let ok = match &want {
                    Some(w) => r.out == *w,
                    None => source_failed && r.out == v,
                };
                if !ok {
                    return Err(format!(
                        "{}: decoded to {}, {}",
                        what(),
                        hex(&r.out),
                        match want {
                            Some(w) => format!("it spells {}", hex(&w)),
                            None => "it spells no such value".to_string(),
                        }
                    ));
                }
            } else {
                inc(S::O_rejected);
                if want.is_some() && !source_failed && !odd {
                    return Err(format!("{}: rejected", what()));
                }
            }
        }
        Ok(())
    }

    /// Ends the run: everything still open is finished and judged.
    pub fn wrap_up(&mut self) -> V {
        let slots: Vec<u64> = self.sess.keys().copied().collect();
        for k in slots {
            self.with(k, |c, s| c.finish_session(s, k, false))?;
        }
        let parked: Vec<u64> = self.parked.keys().copied().collect();
        for k in parked {
            // Liveness: every crashed session can be continued once the faults stop.
            let p = self.parked.remove(&k).unwrap();
            self.restart(k, p, k, 0)?;
            self.with(k, |c, s| {
                c.feed_session(s, 70, path::INPUT, 0, 0, &[], false)?;
                c.finish_session(s, k, false)
            })?;
        }
        Ok(())
    }
}

pub fn faulty(scr: &[u64]) -> bool {
    scr.iter().any(|e| matches!(e >> 56, script::WOULDBLOCK | script::ERROR | script::PANIC | script::EOF))
}

fn count_script(scr: &[u64]) {
    for e in scr {
        inc(match e >> 56 {
            script::INTERRUPTED => S::F_intr,
            script::WOULDBLOCK => S::F_block,
            script::ERROR => S::F_err,
            script::PANIC => S::F_panic,
            script::EOF => S::F_eof,
            _ => S::F_short,
        });
        if matches!(e >> 56, script::WOULDBLOCK | script::ERROR | script::PANIC | script::EOF) {
            break; // the rest of the script does not happen
        }
    }
}

fn decode_ckpt(b: &[u8]) -> Option<(u64, Vec<u8>)> {
    if b.len() < 30 || b[..2] != [0x43, 0x4b] {
        return None;
    }
    let (body, sum) = b.split_at(b.len() - 8);
    if fnv(FNV0, body).to_le_bytes() != sum {
        return None;
    }
    let count = u64::from_le_bytes(body[2..10].try_into().unwrap());
    let n = u32::from_le_bytes(body[18..22].try_into().unwrap()) as usize;
    (body.len() == 22 + n).then(|| (count, body[22..].to_vec()))
}

pub const NREC: u64 = 18;
const ENC: [&str; 10] = [
    "text {}", "text {:x}", "text {:X}", "debug", "text {:#}", "text {:#x}", "JSON", "binary serde",
    "human readable serde", "slice",
];
fn rec_len(ty: u64) -> usize {
    [20, 32, 48, 64, 32, 20, 8, 32, 8, 20, 32, 48, 64, 32, 32, 33, 32, 1][ty as usize]
}
fn rec_name(ty: u64) -> &'static str {
    [
        "sha1::Hash", "sha256::Hash", "sha384::Hash", "sha512::Hash", "sha512_256::Hash",
        "ripemd160::Hash", "siphash24::Hash", "sha256::Midstate", "hmac::Hash<8>", "hmac::Hash<20>",
        "hmac::Hash<32>", "hmac::Hash<48>", "hmac::Hash<64>", "sha256t::Hash<1>", "sha256t::Hash<2>",
        "hmac::Hash<33>", "a newtype with serde_impl!", "hmac::Hash<1>",
    ][ty as usize]
}

/// What the caller's callbacks do in the middle of a call: sessions of their own, with the same
/// library on the same thread.
struct Nest {
    node: usize,
    kind: u32,
    r: rng::Rng,
    left: u32,
    busy: bool,
    /// A session that lives across several callbacks.
    open: Option<(u32, u64, Model)>,
    bad: Option<String>,
}
impl Nest {
    fn new(node: usize, kind: u32, seed: u64) -> Nest {
        Nest { node, kind: kind % 30, r: rng::Rng::new(seed), left: 24, busy: false, open: None, bad: None }
    }
    fn pick(&mut self) -> u32 {
        let k = if self.r.chance(1, 2) { self.kind } else { self.r.below(30) as u32 };
        if matches!(k, 7..=9 | 19) {
            1
        } else {
            k
        }
    }
    fn act(&mut self) {
        let n = node(self.node as u64);
        let d = rng::bytes(self.r.next(), 0, self.r.below(300) as usize);
        let data = Some((d.as_ptr(), d.len()));
        inc(S::F_nest);
        add(S::Bytes, d.len() as u64);
        let mut seen = None;
        if let Some((k, h, mut m)) = self.open.take() {
            let path = self.r.pick(&[0, 2, 4]);
            let a = [path, 0, 0, 0, 0, 0];
            let r = n.call_with(OP_FEED, Args { kind: k, h, a, data, ..Default::default() }, false);
            if r.status == UNSUPPORTED {
                n.call_with(OP_FEED, Args { kind: k, h, data, ..Default::default() }, false);
            }
            m.update(&d);
            if self.r.chance(1, 2) {
                let r = n.call_with(OP_FINISH, Args { kind: k, h, ..Default::default() }, false);
                seen = Some((k, "the digest of a session", r.out, m.digest()));
            } else {
                self.open = Some((k, h, m));
            }
        } else {
            let k = self.pick();
            let mut m = Model::new(k, &[], 0, 0);
            match self.r.below(8) {
                0 | 1 => {
                    let r = n.call_with(OP_ONESHOT, Args { kind: k, data, ..Default::default() }, false);
                    m.update(&d);
                    if r.status != UNSUPPORTED {
                        seen = Some((k, "a one-shot digest", r.out, m.digest()));
                    }
                }
                2 | 3 => {
                    let scr: Vec<u64> = (0..self.r.below(5)).map(|_| self.r.below(90)).collect();
                    let a = [self.r.below(5), 0, 0, 0, 0, 0];
                    let x = Args { kind: k, a, data, script: &scr, ..Default::default() };
                    let r = n.call_with(OP_CHUNKS, x, false);
                    m.update(&d);
                    seen = Some((k, "a chunked digest", r.out, m.digest()));
                }
                4 => {
                    let r = n.call_with(OP_HASHTAG, Args { data, ..Default::default() }, false);
                    seen = Some((1, "the midstate of a tag", r.out, Model::tagged(TAGGED, &d).midstate()));
                }
                5 => {
                    // A digest, written as text and read back.
                    let v = rng::bytes(self.r.next(), 0, 20);
                    let data = Some((v.as_ptr(), v.len()));
                    let a = [self.r.below(3), 4000, 0, 0, 0, 0];
                    let r = n.call_with(R_FMT, Args { kind: 0, a, data, ..Default::default() }, false);
                    let text = r.out;
                    let data = Some((text.as_ptr(), text.len()));
                    let r = n.call_with(R_PARSE, Args { kind: 0, data, ..Default::default() }, false);
                    seen = Some((0, "a value written as text and read back", r.out, v));
                }
                _ => {
                    let key = Some((d.as_ptr(), 0));
                    let r = n.call_with(OP_NEW, Args { kind: k, data: key, ..Default::default() }, false);
                    if r.status == OK {
                        self.open = Some((k, r.ret[0], m));
                    }
                }
            }
        }
        if let Some((k, what, got, want)) = seen {
            inc(S::Evals);
            inc(S::Digests);
            if got != want {
                self.bad = Some(format!(
                    "{}: {} inside a callback of another call on {} is {} instead of {}",
                    kind_name(k),
                    what,
                    IMAGES[self.node].name,
                    hex(&got),
                    hex(&want)
                ));
            }
        }
    }
}
thread_local! {
    static NEST: std::cell::RefCell<Option<Nest>> = const { std::cell::RefCell::new(None) };
}

/// Called by the library's caller's code while a call is under way.
pub fn nested() {
    let mine = NEST.with(|t| match t.try_borrow_mut() {
        Ok(mut t) => match t.as_mut() {
            Some(x) if !x.busy && x.left > 0 && x.bad.is_none() => {
                x.left -= 1;
                x.busy = true;
                t.take()
            }
            _ => None,
        },
        Err(_) => None,
    });
    if let Some(mut x) = mine {
        if x.r.chance(1, 2) {
            x.act();
        }
        x.busy = false;
        NEST.with(|t| *t.borrow_mut() = Some(x));
    }
}

/// The value that text spells: exactly two hex digits per byte.
fn spell_text(b: &[u8], n: usize) -> Option<Vec<u8>> {
    if b.len() != 2 * n || !b.iter().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    Some((0..n).map(|i| u8::from_str_radix(std::str::from_utf8(&b[2 * i..2 * i + 2]).unwrap(), 16).unwrap()).collect())
}

/// The value that a JSON document spells; outer `None`: not judged (escapes).
/// The same inside what holds the record; no verdict where more than the record was altered.
fn spell_held(b: &[u8], n: usize, holder: u64, hold: (&str, &str)) -> Option<Option<Vec<u8>>> {
    if holder < 2 {
        return spell_json(b, n);
    }
    let inner = b.strip_prefix(hold.0.as_bytes())?.strip_suffix(hold.1.as_bytes())?;
    // Another element, another key, a cut through the quotes: all we ask is that nothing breaks.
    if inner.len() < 2 || inner[0] != b'"' || inner[inner.len() - 1] != b'"' || inner[1..inner.len() - 1].contains(&b'"') {
        return None;
    }
    spell_json(inner, n)
}

fn spell_json(b: &[u8], n: usize) -> Option<Option<Vec<u8>>> {
    if b.contains(&b'\\') {
        return None;
    }
    let ws = |c: &u8| matches!(c, b' ' | b'\n' | b'\t' | b'\r');
    let start = b.iter().position(|c| !ws(c)).unwrap_or(0);
    let end = b.iter().rposition(|c| !ws(c)).map(|x| x + 1).unwrap_or(0);
    let t = &b[start..end.max(start)];
    if t.len() < 2 || t[0] != b'"' || t[t.len() - 1] != b'"' {
        return Some(None);
    }
    Some(spell_text(&t[1..t.len() - 1], n))
}

fn opname(op: u32, kind: u32) -> String {
    let n = match op {
        OP_NEW => "creating",
        OP_FEED => "feeding",
        OP_NBYTES => "n_bytes_hashed of",
        OP_CLONE => "cloning",
        OP_DROP => "dropping",
        OP_FINISH => "finishing",
        OP_MIDSTATE => "midstate of",
        OP_RESUME => "from_midstate of",
        OP_KEYS => "keys of",
        OP_ONESHOT => "one-shot",
        OP_CHUNKS => "hash_byte_chunks of",
        OP_AUTO => "asking about",
        OP_HASHTAG => return "Midstate::hash_tag".into(),
        OP_FTEQ | OP_TIMEDEQ => return "fixed_time_eq".into(),
        R_FMT => return format!("formatting {}", rec_name(kind as u64)),
        R_PARSE => return format!("parsing {}", rec_name(kind as u64)),
        R_SLICE => return format!("from_slice of {}", rec_name(kind as u64)),
        R_CONVERT => return format!("converting {}", rec_name(kind as u64)),
        R_CATALOG => return format!("a catalogue of {}", rec_name(kind as u64)),
        R_EQ => return format!("comparing {}", rec_name(kind as u64)),
        30..=59 => return format!("(de)serializing {}", rec_name(kind as u64)),
        _ => "?",
    };
    format!("{} {}", n, kind_name(kind))
}

/// Executes a whole run in this process. `Err((step, what))` is a violation.
pub fn run(plan: &Plan) -> Result<u64, (usize, String)> {
    let mail = Mail::default();
    let stepped0 = crate::cpu::STEPS.load(std::sync::atomic::Ordering::Relaxed);
    let special0 = crate::cpu::SPECIAL.load(std::sync::atomic::Ordering::Relaxed);
    for i in 0..NIMG as u64 {
        node(i).knob(1, usize::from(plan.flags & FL_ALLOC != 0));
    }
    if plan.threads > 0 {
        return crate::threads::run(plan, &mail);
    }
    let mut c = Ctx::new(plan.flags, &mail);
    let mut t = 0;
    for (k, st) in plan.steps.iter().enumerate() {
        shared::get().step.store(k as u64, std::sync::atomic::Ordering::Relaxed);
        c.step(st).map_err(|e| (k, e))?;
        t = t.max(st.t);
    }
    c.wrap_up().map_err(|e| (plan.steps.len(), e))?;
    add(S::SimUs, t);
    if c.shape != FNV0 {
        let fresh = shared::history(c.shape);
        let _ = fresh;
        shared::get().nontrivial.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    let simd: usize = (0..NIMG as u64).map(|i| node(i).knob(3, 0)).sum();
    add(S::SimdEntries, simd as u64);
    add(S::CpuSteps, (crate::cpu::STEPS.load(std::sync::atomic::Ordering::Relaxed) - stepped0) as u64);
    add(S::CpuSpecial, (crate::cpu::SPECIAL.load(std::sync::atomic::Ordering::Relaxed) - special0) as u64);
    Ok(c.trace)
}

impl Ctx<'_> {
    /// For marathon.rs.
    pub fn raw(&mut self, n: usize, op: u32, x: Args) -> V<Reply> { self.call(n, op, x) }
    pub fn verdict(&mut self, kind: u32, n: usize, what: &str, got: &[u8], want: &[u8]) -> V {
        self.judge(kind, n, what, got, want)
    }
    pub fn flags(&self) -> u64 { self.flags }
    pub fn mark(&mut self, xs: &[u64]) { self.shape(xs) }
}

/// What a forger sends instead of the tag.
fn forge(tag: &[u8], f: u64) -> Vec<u8> {
    let mut y = tag.to_vec();
    let n = y.len();
    if n == 0 {
        return y;
    }
    let (arg, bits) = ((f & 0xffff) as usize % n, ((f >> 16) & 0xff).max(1) as u8);
    let mut g = rng::Rng::new(f);
    match f >> 56 {
        0 => {}
        1 => y[arg] ^= 1 << (bits % 8),
        2 => y[arg] ^= bits,
        3 => y[arg..].iter_mut().for_each(|b| *b = g.next() as u8),
        4 => y[..=arg].iter_mut().for_each(|b| *b = g.next() as u8),
        5 => y.iter_mut().for_each(|b| *b = !*b),
        6 => y.iter_mut().for_each(|b| *b = g.next() as u8),
        7 => y.iter_mut().for_each(|b| *b ^= bits),
        8 => y.iter_mut().step_by(arg.max(1)).for_each(|b| *b ^= bits),
        9 => {
            let k = g.below(n as u64) as usize;
            y.swap(arg, k);
        }
        10 => y.iter_mut().for_each(|b| *b = 0),
        _ => y.rotate_left(arg),
    }
    y
}

fn forged(tag: &[u8], y: &[u8]) -> String {
    let d: Vec<usize> = (0..tag.len()).filter(|i| tag[*i] != y[*i]).collect();
    match d.len() {
        0 => "equal".into(),
        1 => format!("byte {} differs", d[0]),
        k => format!("{} bytes differ, the first is byte {}", k, d[0]),
    }
}

/// Distinct values that are easily confused: common prefixes and suffixes, single bits, extremes.
fn values(seed: u64, n: u64, len: usize) -> Vec<Vec<u8>> {
    let mut g = rng::Rng::new(seed);
    let mut v: Vec<Vec<u8>> = Vec::new();
    while (v.len() as u64) < n {
        let mut x = match (g.below(8), v.is_empty()) {
            (0, _) => vec![g.pick(&[0, 0xff, 0x7f, 0x80]) as u8; len],
            (1, _) | (_, true) => rng::bytes(g.next(), 0, len),
            _ => {
                let k = g.below(v.len() as u64) as usize;
                v[k].clone()
            }
        };
        match g.below(7) {
            0 => x[g.below(len as u64) as usize] ^= 1 << g.below(8),
            1 => x[g.below(len as u64) as usize] = g.pick(&[0, 1, 0x7f, 0x80, 0xff]) as u8,
            2 => {
                let (i, j) = (g.below(len as u64) as usize, g.below(len as u64) as usize);
                x.swap(i, j);
            }
            3 => x[len - 1] = g.next() as u8,
            4 => x[0] ^= 0x80,
            5 => {
                let k = g.below(len as u64) as usize;
                x[k..].iter_mut().for_each(|b| *b = g.next() as u8);
            }
            _ => {}
        }
        if !v.contains(&x) || g.chance(1, 8) {
            v.push(x);
        }
    }
    v.sort();
    v.dedup();
    v
}
