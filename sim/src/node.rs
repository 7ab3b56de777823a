//! Machines: loaded copies of the node library, each with its own statics and CPU feature mask.

use std::ffi::{c_char, c_int, c_void, CString};

extern "C" {
    fn dlopen(path: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
    pub fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    pub fn munmap(a: *mut c_void, n: usize) -> c_int;
    pub fn mprotect(a: *mut c_void, n: usize, prot: c_int) -> c_int;
    pub fn memfd_create(name: *const c_char, flags: u32) -> c_int;
    pub fn ftruncate(fd: c_int, n: i64) -> c_int;
    pub fn close(fd: c_int) -> c_int;
}

pub const SHA: usize = 1;
pub const SSSE3: usize = 2;
pub const SSE41: usize = 4;
pub const AVX: usize = 8;
pub const AVX2: usize = 16;

pub struct ImageSpec {
    pub name: &'static str,
    /// Which build (see build.sh).
    #[allow(dead_code)]
    pub build: &'static str,
    /// Features the machine's CPU lacks.
    pub mask: usize,
}

/// The fleet. Feature sets are consistent (SSE4.1 implies SSSE3, AVX2 implies AVX implies SSE4.1),
/// as a CPU or a hypervisor's CPU model would report them.
pub const IMAGES: [ImageSpec; 10] = [
    ImageSpec { name: "std/full-cpu", build: "a", mask: 0 },
    ImageSpec { name: "std/sse2-only", build: "a", mask: 31 },
    ImageSpec { name: "std/sha-without-ssse3", build: "a", mask: SSSE3 | SSE41 | AVX | AVX2 },
    ImageSpec { name: "std/sha-without-sse4.1", build: "a", mask: SSE41 | AVX | AVX2 },
    ImageSpec { name: "std/avx2-without-sha", build: "a", mask: SHA },
    ImageSpec { name: "std/sha-without-avx", build: "a", mask: AVX | AVX2 },
    ImageSpec { name: "std+small-hash+checks/full-cpu", build: "b", mask: 0 },
    ImageSpec { name: "std+small-hash+checks/sse2-only", build: "b", mask: 31 },
    ImageSpec { name: "no_std/sse2-only", build: "c", mask: 31 },
    ImageSpec { name: "no_std+small-hash+checks/sse2-only", build: "d", mask: 31 },
];
pub const NIMG: usize = IMAGES.len();

#[repr(C)]
pub struct Call {
    pub op: u32,
    pub kind: u32,
    pub h: u64,
    pub a: [u64; 6],
    pub data: *const u8,
    pub len: usize,
    pub aux: *const u8,
    pub aux_len: usize,
    pub script: *const u64,
    pub script_len: usize,
    pub out: *mut u8,
    pub out_cap: usize,
    pub out_len: usize,
    pub ret: [u64; 6],
    pub allocs: u64,
}

pub const OK: i32 = 0;
pub const ERR: i32 = 1;
pub const PANIC: i32 = 2;
pub const UNSUPPORTED: i32 = 3;

pub const OP_NEW: u32 = 1;
pub const OP_FEED: u32 = 2;
pub const OP_NBYTES: u32 = 3;
pub const OP_CLONE: u32 = 4;
pub const OP_DROP: u32 = 5;
pub const OP_FINISH: u32 = 6;
pub const OP_MIDSTATE: u32 = 7;
pub const OP_RESUME: u32 = 8;
pub const OP_KEYS: u32 = 9;
pub const OP_ONESHOT: u32 = 10;
pub const OP_MIDDROP: u32 = 11;
pub const OP_CHUNKS: u32 = 12;
pub const OP_HASHTAG: u32 = 20;
pub const OP_FTEQ: u32 = 21;
pub const OP_AUTO: u32 = 23;
pub const OP_TIMEDEQ: u32 = 22;
pub const R_FMT: u32 = 30;
pub const R_PARSE: u32 = 31;
pub const R_SLICE: u32 = 32;
pub const R_CONVERT: u32 = 33;
pub const R_JSON_SER: u32 = 34;
pub const R_JSON_DE: u32 = 35;
pub const R_BIN_SER: u32 = 36;
pub const R_BIN_DE: u32 = 37;
pub const R_EQ: u32 = 38;
pub const R_CATALOG: u32 = 39;
pub const R_SCHEMA: u32 = 40;

pub mod path {
    pub const INPUT: u64 = 0;
    pub const WRITE: u64 = 1;
    pub const WRITE_ALL: u64 = 2;
    pub const BWRITE: u64 = 3;
    pub const BWRITE_ALL: u64 = 4;
    pub const VECTORED: u64 = 5;
    pub const COPY: u64 = 6;
    pub const BUFWRITER: u64 = 7;
    pub const LINEWRITER: u64 = 8;
    pub const WRITE_FMT: u64 = 9;
    pub const BCOPY: u64 = 10;
    pub const FLUSH: u64 = 11;
    pub const BUFCOPY: u64 = 12;
    pub const BY_REF_CHAIN: u64 = 13;
    pub const NAMES: [&str; 14] = [
        "input", "write", "write_all", "bitcoin write", "bitcoin write_all", "write_vectored",
        "io::copy", "BufWriter", "LineWriter", "write_fmt", "bitcoin copy loop", "flush",
        "BufReader loop", "io::copy of a chain",
    ];
}

pub mod script {
    pub const DATA: u64 = 1;
    pub const INTERRUPTED: u64 = 2;
    pub const WOULDBLOCK: u64 = 3;
    pub const ERROR: u64 = 4;
    pub const PANIC: u64 = 5;
    pub const EOF: u64 = 6;
    pub const BOOM: u64 = 1 << 63;
}

#[derive(Clone, Copy)]
pub struct Node {
    pub id: usize,
    call: unsafe extern "C" fn(*mut Call) -> i32,
    knob: unsafe extern "C" fn(usize, usize) -> usize,
    cpu: extern "C" fn() -> usize,
    pub text: (usize, usize),
    /// Writable static data.
    pub data: (usize, usize),
}

pub struct Reply {
    pub status: i32,
    pub ret: [u64; 6],
    pub out: Vec<u8>,
    pub allocs: u64,
    /// Bytes of stack the call used, where it ran on a task's own stack.
    pub stack: usize,
}

/// Arguments of a call.
#[derive(Default, Clone, Copy)]
pub struct Args<'a> {
    pub kind: u32,
    pub h: u64,
    pub a: [u64; 6],
    pub data: Option<(*const u8, usize)>,
    pub aux: Option<(*const u8, usize)>,
    pub script: &'a [u64],
}

impl Node {
    pub fn load(dir: &str, id: usize, yield_fn: usize) -> Result<Node, String> {
        let p = format!("{}/img{}.so", dir, id);
        let c = CString::new(p.clone()).unwrap();
        unsafe {
            let h = dlopen(c.as_ptr(), 2); // RTLD_NOW, local
            if h.is_null() {
                let e = dlerror();
                return Err(format!("dlopen {}: {:?}", p, std::ffi::CStr::from_ptr(e)));
            }
            let sym = |n: &str| -> Result<*mut c_void, String> {
                let s = CString::new(n).unwrap();
                let r = dlsym(h, s.as_ptr());
                if r.is_null() {
                    Err(format!("{}: no symbol {}", p, n))
                } else {
                    Ok(r)
                }
            };
            let init: unsafe extern "C" fn(usize, usize) = std::mem::transmute(sym("node_init")?);
            let node = Node {
                id,
                call: std::mem::transmute(sym("node_call")?),
                knob: std::mem::transmute(sym("node_knob")?),
                cpu: std::mem::transmute(sym("node_cpu")?),
                text: text_range(&p),
                data: data_range(&p),
            };
            // The standard library caches what the CPU reports; it asks here, under the simulated
            // CPU, so that every later question is answered from the machine's own feature set.
            crate::cpu::step(&node, || init(IMAGES[id].mask, yield_fn));
            let _ = crate::cpu::illegal();
            Ok(node)
        }
    }

    /// CPU features this machine detects (bits as in `SHA`...).
    pub fn cpu(&self) -> usize { (self.cpu)() }

    pub fn knob(&self, k: usize, v: usize) -> usize { unsafe { (self.knob)(k, v) } }

    pub fn call_with(&self, op: u32, x: Args, stepped: bool) -> Reply {
        let room = if op == R_SCHEMA { 1 << 17 } else { 4096 };
        let mut out = Vec::with_capacity(room);
        let d = x.data.unwrap_or((std::ptr::null(), 0));
        let aux = x.aux.unwrap_or((std::ptr::null(), 0));
        let mut c = Call {
            op,
            kind: x.kind,
            h: x.h,
            a: x.a,
            data: d.0,
            len: d.1,
            aux: aux.0,
            aux_len: aux.1,
            script: x.script.as_ptr(),
            script_len: x.script.len(),
            out: out.as_mut_ptr(),
            out_cap: room,
            out_len: 0,
            ret: [0; 6],
            allocs: 0,
        };
        let mut stack = 0;
        let status = if stepped {
            crate::cpu::step(self, || unsafe { (self.call)(&mut c) })
        } else if let Some(t) = small_stack() {
            let (s, used) = t.run(self.call, &mut c);
            stack = used;
            s
        } else {
            unsafe { (self.call)(&mut c) }
        };
        unsafe { out.set_len(c.out_len) };
        Reply { status, ret: c.ret, out, allocs: c.allocs, stack }
    }
}

fn text_range(path: &str) -> (usize, usize) {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    for l in maps.lines() {
        if l.ends_with(path) && l.contains("r-xp") {
            let r = l.split(' ').next().unwrap();
            let (a, b) = r.split_once('-').unwrap();
            return (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        }
    }
    (0, 0)
}

/// The image's writable data: from its first writable page to the end of its last writable segment.
fn data_range(path: &str) -> (usize, usize) {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let (mut base, mut start) = (0, 0);
    for l in maps.lines() {
        let mut w = l.split_whitespace();
        let (range, perm) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
        let a = usize::from_str_radix(range.split('-').next().unwrap_or(""), 16).unwrap_or(0);
        if w.nth(3) == Some(path) {
            if base == 0 {
                base = a;
            }
            if perm == "rw-p" && start == 0 {
                start = a;
            }
        }
    }
    let Ok(f) = std::fs::read(path) else { return (0, 0) };
    let u64at = |o: usize| u64::from_le_bytes(f[o..o + 8].try_into().unwrap()) as usize;
    let u16at = |o: usize| u16::from_le_bytes(f[o..o + 2].try_into().unwrap()) as usize;
    if f.len() < 64 || start == 0 {
        return (0, 0);
    }
    let (phoff, phsize, phnum) = (u64at(32), u16at(54), u16at(56));
    let mut end = 0;
    for i in 0..phnum {
        let p = phoff + i * phsize;
        if p + 56 > f.len() {
            return (0, 0);
        }
        let (kind, flags) = (f[p], f[p + 4]);
        if kind == 1 && flags & 2 != 0 {
            end = end.max(base + u64at(p + 16) + u64at(p + 40));
        }
    }
    let end = (end + PAGE - 1) / PAGE * PAGE;
    if start < end {
        (start, end)
    } else {
        (0, 0)
    }
}

/// Memory between two inaccessible pages.
pub struct Arena {
    base: *mut u8,
    map: usize,
    pub size: usize,
    /// Readable only, except while it is being filled.
    ro: bool,
    used: (usize, usize),
}
unsafe impl Send for Arena {}

const PAGE: usize = 4096;

impl Arena {
    pub fn new(size: usize, ro: bool) -> Arena {
        let size = (size + PAGE - 1) / PAGE * PAGE;
        let map = size + 2 * PAGE;
        unsafe {
            let p = mmap(std::ptr::null_mut(), map, 0, 0x22 | 0x4000, -1, 0) as *mut u8;
            assert!(p as isize != -1, "harness: mmap");
            let base = p.add(PAGE);
            assert!(mprotect(base as *mut c_void, size, 3) == 0, "harness: mprotect");
            Arena { base, map, size, ro, used: (0, 0) }
        }
    }
    /// Copies `d` so that it ends at the upper guard page (`place` 0), starts at the lower one (1)
    /// or lies at an odd address (2..).
    pub fn place(&mut self, d: &[u8], place: u64) -> *const u8 {
        assert!(d.len() + 64 <= self.size, "harness: arena");
        unsafe {
            let at = match place {
                0 => self.base.add(self.size - d.len()),
                1 => self.base,
                n => self.base.add(n as usize % 64),
            };
            if self.ro {
                let (a, n) = self.used;
                if n != 0 {
                    mprotect(a as *mut c_void, n, 3);
                }
            }
            std::ptr::copy_nonoverlapping(d.as_ptr(), at, d.len());
            if self.ro {
                let a = at as usize / PAGE * PAGE;
                let n = (at as usize + d.len() + PAGE - 1) / PAGE * PAGE - a;
                mprotect(a as *mut c_void, n, 1);
                self.used = (a, n);
            }
            at
        }
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base.sub(PAGE) as *mut c_void, self.map);
        }
    }
}

/// The stack of an embedded task: a mapping of its own above an inaccessible page, painted so that
/// the depth a call reached can be read off afterwards.
#[derive(Clone, Copy)]
pub struct Task {
    low: *mut u8,
}
pub const TASK: usize = 256 << 10;
const PAINT: u64 = 0x5a5a_c3c3_a5a5_3c3c;

thread_local! {
    static SMALL: std::cell::Cell<Option<Task>> = const { std::cell::Cell::new(None) };
}
fn small_stack() -> Option<Task> { SMALL.with(|s| s.get()) }

/// From here on calls of this thread run on a task's stack.
pub fn use_task_stack() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), TASK + PAGE, 0, 0x22 | 0x4000, -1, 0) as *mut u8;
        assert!(p as isize != -1, "harness: mmap");
        let low = p.add(PAGE);
        assert!(mprotect(low as *mut c_void, TASK, 3) == 0, "harness: mprotect");
        let t = Task { low };
        t.paint(0);
        SMALL.with(|s| s.set(Some(t)));
    }
}

impl Task {
    /// Paints everything from `from` up.
    fn paint(&self, from: usize) {
        let w = self.low as *mut u64;
        for i in from / 8..TASK / 8 {
            unsafe { w.add(i).write_volatile(PAINT) };
        }
    }
    fn run(&self, f: unsafe extern "C" fn(*mut Call) -> i32, c: &mut Call) -> (i32, usize) {
        let top = self.low as usize + TASK;
        let status: i32;
        unsafe {
            std::arch::asm!(
                "mov r12, rsp",
                "mov rsp, {top}",
                "call {f}",
                "mov rsp, r12",
                out("r12") _,
                top = in(reg) top,
                f = in(reg) f,
                in("rdi") c as *mut Call,
                lateout("rax") status,
                clobber_abi("C"),
            );
        }
        // The lowest word that lost its paint.
        let w = self.low as *const u64;
        let mut i = 0;
        while i < TASK / 8 && unsafe { w.add(i).read_volatile() } == PAINT {
            i += 1;
        }
        self.paint(i * 8);
        (status, TASK - i * 8)
    }
}
