//! The simulated CPU: runs library code one instruction at a time (trap flag) and raises an
//! "illegal instruction" when the machine's feature set does not contain what the next
//! instruction of the library needs.

use std::cell::Cell;
use std::ffi::{c_int, c_void};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

use crate::node::{Node, AVX, AVX2, IMAGES, NIMG, SHA, SSE41, SSSE3};


extern "C" {
    fn sigaction(sig: c_int, new: *const c_void, old: *mut c_void) -> c_int;
}

thread_local! {
    /// What this thread executes step by step: the machine's code, its missing features, the first
    /// offence.
    static LO: Cell<usize> = const { Cell::new(0) };
    static HI: Cell<usize> = const { Cell::new(0) };
    static MASK: Cell<usize> = const { Cell::new(0) };
    static BAD_WHAT: Cell<usize> = const { Cell::new(0) };
    /// The simulated CPU's clock: instructions executed, in the library and in whatever it calls.
    static CLOCK: Cell<usize> = const { Cell::new(0) };
    static STARTED: Cell<usize> = const { Cell::new(0) };
    static ELAPSED: Cell<usize> = const { Cell::new(0) };
    /// Inside [`step`].
    static STEPPING: Cell<bool> = const { Cell::new(false) };
    /// Data region (number + 1) opened for the one instruction that is being executed.
    static WINDOW: Cell<usize> = const { Cell::new(0) };
    /// Every instruction is a scheduling point.
    static PREEMPT: Cell<bool> = const { Cell::new(false) };
}
pub static STEPS: AtomicUsize = AtomicUsize::new(0);
pub static SPECIAL: AtomicUsize = AtomicUsize::new(0);

/// Which feature beyond x86-64 baseline the instruction at `p` needs (0: none).
unsafe fn needs(mut p: *const u8) -> usize {
    let (mut f2, mut f3, mut p66) = (false, false, false);
    let mut n = 0;
    loop {
        match *p {
            0x66 => p66 = true,
            0xf2 => f2 = true,
            0xf3 => f3 = true,
            0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0 => {}
            _ => break,
        }
        p = p.add(1);
        n += 1;
        if n > 14 {
            return 0;
        }
    }
    if *p & 0xf0 == 0x40 {
        p = p.add(1);
    }
    match *p {
        0xc4 | 0xc5 | 0x62 => AVX, // VEX, EVEX
        0x0f => {
            let b = *p.add(1);
            match b {
                0x38 => match *p.add(2) {
                    0xc8..=0xcd => SHA,
                    0x00..=0x0b | 0x1c..=0x1e => SSSE3,
                    _ => SSE41,
                },
                0x3a => match *p.add(2) {
                    0x0f => SSSE3,
                    0xcc => SHA,
                    _ => SSE41,
                },
                0xb8 if f3 => SSE41, // POPCNT
                0xbd if f3 => AVX,   // LZCNT
                0x12 | 0x16 if f3 => SSSE3, // SSE3
                0x12 if f2 => SSSE3,
                0x7c | 0x7d | 0xd0 if f2 || p66 => SSSE3,
                0xf0 if f2 => SSSE3,
                _ => 0,
            }
        }
        _ => 0,
    }
}

/// What the machine's CPU reports for `cpuid`: the real CPU's answer without the masked features.
/// Features whose instructions are VEX or EVEX encoded go with AVX.
fn cpuid(leaf: u32, sub: u32, mask: usize) -> [u32; 4] {
    #[allow(unused_unsafe)]
    let r = unsafe { std::arch::x86_64::__cpuid_count(leaf, sub) };
    let (mut a, mut b, mut c, mut d) = (r.eax, r.ebx, r.ecx, r.edx);
    match (leaf, sub) {
        (1, _) => {
            if mask & SSSE3 != 0 {
                c &= !(1 | 1 << 9); // SSE3, SSSE3
            }
            if mask & SSE41 != 0 {
                c &= !(1 << 19 | 1 << 20 | 1 << 23 | 1 << 25 | 1 << 1); // SSE4, POPCNT, AES, PCLMUL
            }
            if mask & AVX != 0 {
                c &= !(1 << 28 | 1 << 12 | 1 << 29); // AVX, FMA, F16C
            }
        }
        (7, 0) => {
            if mask & SHA != 0 {
                b &= !(1 << 29);
            }
            if mask & (AVX | AVX2) != 0 {
                b &= !(1 << 5 | 1 << 16 | 1 << 17 | 1 << 21 | 1 << 26 | 1 << 27 | 1 << 28 | 1 << 30 | 1 << 31);
                c = 0;
                d = 0;
            }
            if mask & AVX != 0 {
                b &= !(1 << 3 | 1 << 8 | 1 << 19); // BMI1, BMI2, ADX
            }
        }
        (7, _) =>
            if mask & (AVX | AVX2 | SHA) != 0 {
                (a, b, c, d) = (0, 0, 0, 0);
            },
        (0x8000_0001, _) =>
            if mask & AVX != 0 {
                c &= !(1 << 11 | 1 << 16 | 1 << 21 | 1 << 6 | 1 << 5); // XOP, FMA4, TBM, SSE4A, LZCNT
            },
        _ => {}
    }
    [a, b, c, d]
}

pub static CPUIDS: AtomicUsize = AtomicUsize::new(0);

extern "C" fn on_trap(_sig: c_int, _info: *mut c_void, ctx: *mut c_void) {
    unsafe {
        let regs = (ctx as *mut u8).add(40) as *mut usize;
        let (rbx, rdx, rax, rcx, rip) =
            (regs.add(11), regs.add(12), regs.add(13), regs.add(14), regs.add(16));
        let w = WINDOW.replace(0);
        if w != 0 {
            shut(w - 1);
            if !STEPPING.get() {
                *regs.add(17) &= !0x100;
            }
            crate::threads::access();
            if !STEPPING.get() {
                return;
            }
        }
        CLOCK.set(CLOCK.get() + 1);
        loop {
            let at = *rip;
            if at < LO.get() || at >= HI.get() {
                return;
            }
            STEPS.fetch_add(1, Relaxed);
            if PREEMPT.get() {
                crate::threads::instruction();
            }
            let p = at as *const u8;
            if *p == 0x0f && *p.add(1) == 0xa2 {
                let v = cpuid(*rax as u32, *rcx as u32, MASK.get());
                *rax = v[0] as usize;
                *rbx = v[1] as usize;
                *rcx = v[2] as usize;
                *rdx = v[3] as usize;
                *rip = at + 2;
                CPUIDS.fetch_add(1, Relaxed);
                continue;
            }
            let f = needs(p);
            if f != 0 {
                SPECIAL.fetch_add(1, Relaxed);
                if f & MASK.get() != 0 && BAD_WHAT.get() == 0 {
                    BAD_WHAT.set(f);
                }
            }
            return;
        }
    }
}

fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        // struct sigaction on x86-64 glibc: handler, sa_mask (128 bytes), sa_flags, sa_restorer.
        let mut sa = [0u64; 20];
        sa[0] = on_trap as *const () as u64;
        sa[17] = 4 | 0x4000_0000; // SA_SIGINFO | SA_NODEFER
        assert!(
            sigaction(5, sa.as_ptr() as *const c_void, std::ptr::null_mut()) == 0,
            "harness: sigaction"
        );
    });
}

/// Runs `f` under the simulated CPU of `node`.
#[inline(never)]
pub fn step<R>(node: &Node, f: impl FnOnce() -> R) -> R {
    install();
    LO.set(node.text.0);
    HI.set(node.text.1);
    MASK.set(IMAGES[node.id].mask);
    BAD_WHAT.set(0);
    STEPPING.set(true);
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let r = f();
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    STEPPING.set(false);
    r
}

/// The first unsupported instruction of the last [`step`].
pub fn illegal() -> Option<String> {
    let w = BAD_WHAT.replace(0);
    if w == 0 {
        return None;
    }
    Some(match w {
        SHA => "a SHA extension".to_string(),
        SSSE3 => "an SSE3/SSSE3".to_string(),
        SSE41 => "an SSE4".to_string(),
        _ => "a VEX/EVEX (AVX)".to_string(),
    })
}

/// Does single stepping work in this environment?
pub fn available(node: &Node) -> bool {
    let before = STEPS.load(Relaxed);
    let d = [0u8; 8];
    node.call_with(
        crate::node::OP_ONESHOT,
        crate::node::Args { kind: 0, data: Some((d.as_ptr(), 8)), ..Default::default() },
        true,
    );
    let _ = illegal();
    STEPS.load(Relaxed) > before
}

/// Writable data of the machines' libraries: closed while threads run, so that every access to
/// memory that sessions could share is seen.
static CLOSED: [(AtomicUsize, AtomicUsize); NIMG] =
    [const { (AtomicUsize::new(0), AtomicUsize::new(0)) }; NIMG];
pub static ACCESSES: AtomicUsize = AtomicUsize::new(0);

unsafe fn shut(i: usize) {
    let (a, b) = (CLOSED[i].0.load(Relaxed), CLOSED[i].1.load(Relaxed));
    if a < b {
        crate::node::mprotect(a as *mut c_void, b - a, 0);
    }
}

extern "C" fn on_segv(_sig: c_int, info: *mut c_void, ctx: *mut c_void) {
    unsafe {
        let addr = *((info as *const u8).add(16) as *const usize);
        for (i, c) in CLOSED.iter().enumerate() {
            let (a, b) = (c.0.load(Relaxed), c.1.load(Relaxed));
            if addr >= a && addr < b && WINDOW.get() == 0 {
                crate::node::mprotect(a as *mut c_void, b - a, 3);
                WINDOW.set(i + 1);
                ACCESSES.fetch_add(1, Relaxed);
                let regs = (ctx as *mut u8).add(40) as *mut usize;
                *regs.add(17) |= 0x100;
                return;
            }
        }
        // A real fault: die of it.
        let sa = [0u64; 20];
        sigaction(11, sa.as_ptr() as *const c_void, std::ptr::null_mut());
    }
}

/// Makes every access to the libraries' static data a scheduling point, or stops that.
pub fn watch_data(on: bool) {
    install();
    if on {
        let mut sa = [0u64; 20];
        sa[0] = on_segv as *const () as u64;
        sa[17] = 4 | 0x4000_0000;
        unsafe {
            assert!(
                sigaction(11, sa.as_ptr() as *const c_void, std::ptr::null_mut()) == 0,
                "harness: sigaction"
            );
        }
    }
    for n in crate::exec::nodes() {
        let (a, b) = n.data;
        if on {
            CLOSED[n.id].0.store(a, Relaxed);
            CLOSED[n.id].1.store(b, Relaxed);
            unsafe { shut(n.id) };
        } else {
            CLOSED[n.id].0.store(0, Relaxed);
            CLOSED[n.id].1.store(0, Relaxed);
            if a < b {
                unsafe { crate::node::mprotect(a as *mut c_void, b - a, 3) };
            }
        }
    }
}

/// Makes every instruction of this thread's library calls a scheduling point.
pub fn preempt(on: bool) { PREEMPT.set(on) }
pub fn preempting() -> bool { PREEMPT.get() }

/// Called by a machine: the stretch since the previous call has ended.
pub extern "C" fn mark() {
    let now = CLOCK.get();
    ELAPSED.set(now - STARTED.replace(now));
}

/// Instructions this thread has executed under the simulated CPU.
pub fn clock() -> usize { CLOCK.get() }

/// Instructions between the last two [`mark`]s.
pub fn elapsed() -> usize { ELAPSED.get() }
