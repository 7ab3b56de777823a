//! One "machine" of the simulated fleet: the real `chf` library behind a C ABI.
//!
//! The simulator loads one copy of this library per machine. Nothing in here decides anything:
//! every choice (variant, path, fragment, fault script) arrives in the [`Call`].

#![allow(clippy::missing_safety_doc)]

use std::cell::{Cell, RefCell};
use std::fmt::{self, Write as _};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine};

mod alloc;
mod records;
mod script;

use alloc::armed;
use script::ScriptReader;

pub const OK: i32 = 0;
pub const ERR: i32 = 1;
pub const PANIC: i32 = 2;
pub const UNSUPPORTED: i32 = 3;

#[repr(C)]
pub struct Call {
    pub op: u32,
    pub kind: u32,
    pub h: u64,
    pub a: [u64; 6],
    pub data: *const u8,
    pub len: usize,
    pub aux: *const u8,
    pub aux_len: usize,
    pub script: *const u64,
    pub script_len: usize,
    pub out: *mut u8,
    pub out_cap: usize,
    pub out_len: usize,
    pub ret: [u64; 6],
    /// Heap allocations attempted inside library calls.
    pub allocs: u64,
}

impl Call {
    pub fn data(&self) -> &'static [u8] {
        if self.data.is_null() {
            &[]
        } else {
            unsafe { std::slice::from_raw_parts(self.data, self.len) }
        }
    }
    pub fn aux(&self) -> &'static [u8] {
        if self.aux.is_null() {
            &[]
        } else {
            unsafe { std::slice::from_raw_parts(self.aux, self.aux_len) }
        }
    }
    pub fn script(&self) -> &'static [u64] {
        if self.script.is_null() {
            &[]
        } else {
            unsafe { std::slice::from_raw_parts(self.script, self.script_len) }
        }
    }
    pub fn put(&mut self, b: &[u8]) {
        assert!(self.out_len + b.len() <= self.out_cap, "harness: out buffer too small");
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.out.add(self.out_len), b.len()) };
        self.out_len += b.len();
    }
}

/// Address of the simulator's `extern "C" fn()` that may switch to another thread.
static YIELD: AtomicUsize = AtomicUsize::new(0);

pub fn yield_now() {
    let f = YIELD.load(SeqCst);
    if f != 0 {
        let f: extern "C" fn() = unsafe { std::mem::transmute(f) };
        f()
    }
}

/// Address of the simulator's `extern "C" fn()` that reads the simulated CPU's clock.
static MARK: AtomicUsize = AtomicUsize::new(0);

fn mark() {
    let f = MARK.load(SeqCst);
    if f != 0 {
        let f: extern "C" fn() = unsafe { std::mem::transmute(f) };
        f()
    }
}

thread_local! {
    pub static DELIVERED: Cell<u64> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

// ---------------------------------------------------------------------------------------------
// Tags

pub const TAPTWEAK: &[u8] = b"TapTweak";

macro_rules! tags {
    ($($name:ident = $bytes:expr;)*) => {$(
        #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
        pub struct $name;
        impl $name {
            const MID: sha256::Midstate = sha256::Midstate::hash_tag($bytes);
        }
        impl sha256t::Tag for $name {
            fn engine() -> sha256t::Engine<Self> {
                sha256t::Engine::<Self>::from_midstate(Self::MID, 64)
            }
        }
    )*};
}
tags! {
    Tag0 = b"";
    Tag1 = b"BIP0340/challenge";
    Tag2 = TAPTWEAK;
    Tag3 = &[0x61; 55];
    Tag4 = &[0x62; 56];
    Tag5 = &[0x00; 64];
    Tag6 = &[0xff; 119];
    Tag7 = &[0x63; 200];
}
/// The same tag as `Tag2`, its midstate computed when a session starts.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Tag8;
impl sha256t::Tag for Tag8 {
    fn engine() -> sha256t::Engine<Self> {
        sha256t::Engine::<Self>::from_midstate(sha256::Midstate::hash_tag(TAPTWEAK), 64)
    }
}
/// A tag whose midstate is computed by streaming, when a session starts.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Tag9;
impl sha256t::Tag for Tag9 {
    fn engine() -> sha256t::Engine<Self> {
        let t = sha256::Hash::hash(b"TapBranch");
        let mut e = sha256::Engine::default();
        e.input(t.as_bytes());
        e.input(t.as_bytes());
        sha256t::Engine::<Self>::from_midstate(e.midstate(), e.n_bytes_hashed())
    }
}

/// A tag whose sessions start from a whole salted block more: 128 bytes absorbed.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Tag10;
impl sha256t::Tag for Tag10 {
    fn engine() -> sha256t::Engine<Self> {
        let t = sha256::Hash::hash(TAPTWEAK);
        let mut e = sha256::Engine::default();
        e.input(t.as_bytes());
        e.input(t.as_bytes());
        e.input(&[0x5a; 64]);
        sha256t::Engine::<Self>::from_midstate(e.midstate(), 128)
    }
}
/// A tag whose sessions start from an engine with a salt in its buffer.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Tag11;
impl sha256t::Tag for Tag11 {
    fn engine() -> sha256t::Engine<Self> {
        let mut e = sha256t::Engine::<Self>::from_midstate(sha256::Midstate::hash_tag(TAPTWEAK), 64);
        e.input(b"some salt!");
        e
    }
}

// ---------------------------------------------------------------------------------------------
// Kinds of engine

type Dig = ([u8; 64], usize);

fn dig(b: &[u8]) -> Dig {
    let mut d = [0; 64];
    d[..b.len()].copy_from_slice(b);
    (d, b.len())
}

pub trait MidCodec: Sized {
    fn enc(&self, out: &mut Vec<u8>) -> bool;
    fn dec(b: &[u8]) -> Option<Self>;
    fn dup(&self) -> Self;
}
impl<const N: usize> MidCodec for [u8; N] {
    fn enc(&self, out: &mut Vec<u8>) -> bool {
        out.extend_from_slice(self);
        true
    }
    fn dec(b: &[u8]) -> Option<Self> { b.try_into().ok() }
    fn dup(&self) -> Self { *self }
}
impl MidCodec for sha256::Midstate {
    fn enc(&self, out: &mut Vec<u8>) -> bool {
        out.extend_from_slice(&self.to_byte_array());
        true
    }
    fn dec(b: &[u8]) -> Option<Self> { Some(Self::from_byte_array(b.try_into().ok()?)) }
    fn dup(&self) -> Self { *self }
}
impl MidCodec for siphash24::State {
    fn enc(&self, _: &mut Vec<u8>) -> bool { false }
    fn dec(_: &[u8]) -> Option<Self> { None }
    fn dup(&self) -> Self { self.clone() }
}
impl<E: HashEngine> MidCodec for hmac::Midstate<E>
where
    E::Midstate: MidCodec,
{
    fn enc(&self, out: &mut Vec<u8>) -> bool { self.inner.enc(out) && self.outer.enc(out) }
    fn dec(b: &[u8]) -> Option<Self> {
        let (i, o) = b.split_at(b.len() / 2);
        Some(hmac::Midstate { inner: E::Midstate::dec(i)?, outer: E::Midstate::dec(o)? })
    }
    fn dup(&self) -> Self { hmac::Midstate { inner: self.inner.dup(), outer: self.outer.dup() } }
}

pub trait Kind: 'static {
    type E: HashEngine + 'static;
    /// Creates an engine; `None` when the variant cannot express the key.
    fn create(variant: u64, key: &[u8], k0: u64, k1: u64) -> Option<Self::E>;
    fn finish(e: Self::E, variant: u64) -> Dig;
    fn oneshot(variant: u64, data: &[u8], k0: u64, k1: u64) -> Option<Dig>;
    fn bw(e: &mut Self::E) -> Option<&mut dyn bitcoin_io::Write>;
    #[cfg(feature = "std")]
    fn sw(e: &mut Self::E) -> Option<&mut dyn std::io::Write>;
    fn keys(_: &Self::E) -> Option<(u64, u64)> { None }
    fn resume(variant: u64, m: <Self::E as HashEngine>::Midstate, n: usize) -> Self::E {
        let _ = variant;
        <Self::E as HashEngine>::from_midstate(m, n)
    }
}

macro_rules! writers {
    (yes) => {
        fn bw(e: &mut Self::E) -> Option<&mut dyn bitcoin_io::Write> { Some(e) }
        #[cfg(feature = "std")]
        fn sw(e: &mut Self::E) -> Option<&mut dyn std::io::Write> { Some(e) }
    };
    (no) => {
        fn bw(_: &mut Self::E) -> Option<&mut dyn bitcoin_io::Write> { None }
        #[cfg(feature = "std")]
        fn sw(_: &mut Self::E) -> Option<&mut dyn std::io::Write> { None }
    };
}

macro_rules! plain {
    ($name:ident, $m:ident, $w:ident) => {
        pub struct $name;
        impl Kind for $name {
            type E = $m::Engine;
            fn create(variant: u64, _: &[u8], _: u64, _: u64) -> Option<Self::E> {
                Some(match variant % 3 {
                    0 => $m::Engine::default(),
                    1 => <$m::Engine as HashEngine>::new(),
                    _ => $m::Hash::engine(),
                })
            }
            fn finish(e: Self::E, variant: u64) -> Dig {
                match variant % 2 {
                    0 => dig(&e.finalize()),
                    _ => dig($m::Hash::from_engine(e).as_bytes()),
                }
            }
            fn oneshot(variant: u64, data: &[u8], _: u64, _: u64) -> Option<Dig> {
                Some(match variant {
                    0 => dig($m::Hash::hash(data).as_byte_array()),
                    1 => dig(&<$m::Engine as HashEngine>::hash(data)),
                    _ => return None,
                })
            }
            writers!($w);
        }
    };
}
plain!(KSha1, sha1, yes);
plain!(KSha384, sha384, no);
plain!(KSha512, sha512, yes);
plain!(KSha512t, sha512_256, no);
plain!(KRmd, ripemd160, yes);

pub struct KSha256;
impl Kind for KSha256 {
    type E = sha256::Engine;
    fn create(variant: u64, _: &[u8], _: u64, _: u64) -> Option<Self::E> {
        Some(match variant % 3 {
            0 => sha256::Engine::default(),
            1 => <sha256::Engine as HashEngine>::new(),
            _ => sha256::Hash::engine(),
        })
    }
    fn finish(e: Self::E, variant: u64) -> Dig {
        match variant % 2 {
            0 => dig(&e.finalize()),
            _ => dig(sha256::Hash::from_engine(e).as_bytes()),
        }
    }
    fn oneshot(variant: u64, data: &[u8], _: u64, _: u64) -> Option<Dig> {
        Some(match variant {
            0 => dig(sha256::Hash::hash(data).as_byte_array()),
            1 => dig(&<sha256::Engine as HashEngine>::hash(data)),
            4 => dig(sha256::Hash::const_hash(data).as_byte_array()),
            _ => return None,
        })
    }
    writers!(yes);
    fn resume(variant: u64, m: sha256::Midstate, n: usize) -> Self::E {
        match variant % 2 {
            0 => <sha256::Engine as HashEngine>::from_midstate(m, n),
            _ => sha256::Engine::from_midstate(m, n),
        }
    }
}

pub struct KSip;
impl Kind for KSip {
    type E = siphash24::Engine;
    fn create(variant: u64, _: &[u8], k0: u64, k1: u64) -> Option<Self::E> {
        if k0 == 0 && k1 == 0 {
            return Some(match variant % 5 {
                0 => siphash24::Engine::with_keys(0, 0),
                1 => siphash24::Engine::new(),
                2 => <siphash24::Engine as HashEngine>::new(),
                3 => siphash24::Hash::engine(),
                _ => siphash24::Engine::default(),
            });
        }
        Some(siphash24::Engine::with_keys(k0, k1))
    }
    fn finish(e: Self::E, variant: u64) -> Dig {
        match variant % 4 {
            0 => dig(&e.finalize()),
            1 => dig(siphash24::Hash::from_engine(e).as_bytes()),
            2 => dig(&siphash24::Hash::from_engine_to_u64(e).to_le_bytes()),
            _ => {
                let h = siphash24::Hash::from_engine(e);
                dig(&siphash24::Hash::from_u64(h.as_u64()).to_byte_array())
            }
        }
    }
    fn oneshot(variant: u64, data: &[u8], k0: u64, k1: u64) -> Option<Dig> {
        Some(match variant {
            0 if (k0, k1) == (0, 0) => dig(siphash24::Hash::hash(data).as_byte_array()),
            1 if (k0, k1) == (0, 0) => dig(&<siphash24::Engine as HashEngine>::hash(data)),
            5 => dig(&siphash24::Hash::hash_with_keys(k0, k1, data).to_byte_array()),
            6 => dig(&siphash24::Hash::hash_to_u64_with_keys(k0, k1, data).to_le_bytes()),
            7 => dig(&siphash24::Hash::hash_with_keys(k0, k1, data).as_u64().to_le_bytes()),
            8 => dig(
                siphash24::Hash::from_u64(siphash24::Hash::hash_to_u64_with_keys(k0, k1, data))
                    .as_bytes(),
            ),
            _ => return None,
        })
    }
    writers!(yes);
    fn keys(e: &Self::E) -> Option<(u64, u64)> { Some(e.keys()) }
}

pub struct KHmac<K: Kind, const N: usize>(PhantomData<K>);
impl<K: Kind, const N: usize> Kind for KHmac<K, N>
where
    K::E: HashEngine<Digest = [u8; N]>,
{
    type E = hmac::Engine<K::E>;
    fn create(variant: u64, key: &[u8], _: u64, _: u64) -> Option<Self::E> {
        if key.is_empty() {
            return Some(match variant % 4 {
                0 => hmac::Engine::new(key),
                1 => hmac::Engine::default(),
                2 => <hmac::Engine<K::E> as HashEngine>::new(),
                _ => hmac::Hash::<N>::engine(),
            });
        }
        Some(hmac::Engine::new(key))
    }
    fn finish(e: Self::E, variant: u64) -> Dig {
        match variant % 2 {
            0 => dig(&e.finalize()),
            _ => dig(hmac::Hash::<N>::from_engine(e).as_bytes()),
        }
    }
    fn oneshot(variant: u64, data: &[u8], _: u64, _: u64) -> Option<Dig> {
        Some(match variant {
            0 | 1 => dig(&<Self::E as HashEngine>::hash(data)),
            _ => return None,
        })
    }
    writers!(yes);
}

pub struct KTag<T>(PhantomData<T>);
impl<T: sha256t::Tag + 'static> Kind for KTag<T> {
    type E = sha256t::Engine<T>;
    fn create(variant: u64, _: &[u8], _: u64, _: u64) -> Option<Self::E> {
        Some(match variant % 4 {
            0 => sha256t::Engine::<T>::default(),
            1 => <sha256t::Engine<T> as HashEngine>::new(),
            2 => sha256t::Hash::<T>::engine(),
            _ => <T as sha256t::Tag>::engine(),
        })
    }
    fn finish(e: Self::E, variant: u64) -> Dig {
        match variant % 2 {
            0 => dig(&e.finalize()),
            _ => dig(sha256t::Hash::<T>::from_engine(e).as_bytes()),
        }
    }
    fn oneshot(variant: u64, data: &[u8], _: u64, _: u64) -> Option<Dig> {
        Some(match variant {
            0 => dig(sha256t::Hash::<T>::hash(data).as_byte_array()),
            1 => dig(&<Self::E as HashEngine>::hash(data)),
            _ => return None,
        })
    }
    writers!(yes);
}

/// An engine of the user's own under the crate's HMAC: SHA-256 applied twice, not written with the
/// crate's hash types.
#[derive(Clone, Default)]
pub struct Own(sha256::Engine);
impl HashEngine for Own {
    type Digest = [u8; 32];
    type Midstate = sha256::Midstate;
    const BLOCK_SIZE: usize = 64;
    fn input(&mut self, data: &[u8]) { self.0.input(data) }
    fn n_bytes_hashed(&self) -> usize { self.0.n_bytes_hashed() }
    fn finalize(self) -> [u8; 32] {
        let mut e = sha256::Engine::default();
        e.input(&self.0.finalize());
        e.finalize()
    }
    fn midstate(&self) -> sha256::Midstate { self.0.midstate() }
    fn from_midstate(m: sha256::Midstate, n: usize) -> Self { Own(sha256::Engine::from_midstate(m, n)) }
}
pub struct KOwn;
impl Kind for KOwn {
    type E = Own;
    fn create(_: u64, _: &[u8], _: u64, _: u64) -> Option<Own> { Some(Own::default()) }
    fn finish(e: Own, _: u64) -> Dig { dig(&e.finalize()) }
    fn oneshot(_: u64, _: &[u8], _: u64, _: u64) -> Option<Dig> { None }
    writers!(no);
}

// ---------------------------------------------------------------------------------------------
// Operations on engines

pub const OP_NEW: u32 = 1;
pub const OP_FEED: u32 = 2;
pub const OP_NBYTES: u32 = 3;
pub const OP_CLONE: u32 = 4;
pub const OP_DROP: u32 = 5;
pub const OP_FINISH: u32 = 6;
pub const OP_MIDSTATE: u32 = 7;
pub const OP_RESUME: u32 = 8;
pub const OP_KEYS: u32 = 9;
pub const OP_ONESHOT: u32 = 10;
pub const OP_MIDDROP: u32 = 11;
pub const OP_CHUNKS: u32 = 12;
pub const OP_HASHTAG: u32 = 20;
pub const OP_FTEQ: u32 = 21;
pub const OP_TIMEDEQ: u32 = 22;
pub const OP_AUTO: u32 = 23;
// 30.. are records, see records.rs

/// Paths by which bytes reach an engine.
#[allow(dead_code)]
mod path {
    pub const INPUT: u64 = 0;
    pub const WRITE: u64 = 1;
    pub const WRITE_ALL: u64 = 2;
    pub const BWRITE: u64 = 3;
    pub const BWRITE_ALL: u64 = 4;
    pub const VECTORED: u64 = 5;
    pub const COPY: u64 = 6;
    pub const BUFWRITER: u64 = 7;
    pub const LINEWRITER: u64 = 8;
    pub const WRITE_FMT: u64 = 9;
    pub const BCOPY: u64 = 10;
    pub const FLUSH: u64 = 11;
    pub const BUFCOPY: u64 = 12;
    pub const BY_REF_CHAIN: u64 = 13;
}

/// Feeds `data`. `ret[0]`: bytes acknowledged (or handed over by the source).
fn feed<K: Kind>(e: &mut K::E, c: &mut Call) -> i32 {
    let data = c.data();
    let p = c.a[0];
    let arg = c.a[1];
    if p == path::INPUT {
        armed(|| e.input(data));
        c.ret[0] = data.len() as u64;
        return OK;
    }
    if matches!(p, path::BWRITE | path::BWRITE_ALL | path::BCOPY) || (p == path::FLUSH && arg == 1)
    {
        let w = match K::bw(e) {
            Some(w) => w,
            None => return UNSUPPORTED,
        };
        return match p {
            path::BWRITE => match armed(|| w.write(data)) {
                Ok(n) => {
                    c.ret[0] = n as u64;
                    OK
                }
                Err(_) => ERR,
            },
            path::BWRITE_ALL => match armed(|| w.write_all(data)) {
                Ok(()) => {
                    c.ret[0] = data.len() as u64;
                    OK
                }
                Err(_) => ERR,
            },
            path::FLUSH => match armed(|| w.flush()) {
                Ok(()) => OK,
                Err(_) => ERR,
            },
            _ => {
                // The copy loop a bitcoin_io user writes.
                let mut r = ScriptReader::new(data, c.script());
                let mut buf = vec![0u8; (arg as usize).clamp(1, 65536)];
                loop {
                    use bitcoin_io::Read;
                    match r.read(&mut buf) {
                        Ok(0) => return OK,
                        Ok(n) => {
                            if armed(|| w.write_all(&buf[..n])).is_err() {
                                c.ret[1] = 1; // the engine failed, not the source
                                return ERR;
                            }
                        }
                        Err(e) if e.kind() == bitcoin_io::ErrorKind::Interrupted => {}
                        Err(_) => return ERR,
                    }
                }
            }
        };
    }
    #[cfg(feature = "std")]
    {
        use std::io::{self, BufRead, BufReader, BufWriter, IoSlice, LineWriter, Read, Write};
        let w: &mut dyn Write = match K::sw(e) {
            Some(w) => w,
            None => return UNSUPPORTED,
        };
        match p {
            path::WRITE => match armed(|| w.write(data)) {
                Ok(n) => {
                    c.ret[0] = n as u64;
                    OK
                }
                Err(_) => ERR,
            },
            path::WRITE_ALL => match armed(|| w.write_all(data)) {
                Ok(()) => {
                    c.ret[0] = data.len() as u64;
                    OK
                }
                Err(_) => ERR,
            },
            path::VECTORED => {
                let mut rest = data;
                let mut v = Vec::new();
                for s in c.script() {
                    // What is a fault for a source is an empty buffer here.
                    let n = (*s as u32 as usize).min(rest.len());
                    let (x, y) = rest.split_at(n);
                    v.push(IoSlice::new(x));
                    rest = y;
                }
                v.push(IoSlice::new(rest));
                match armed(|| w.write_vectored(&v)) {
                    Ok(n) => {
                        c.ret[0] = n as u64;
                        OK
                    }
                    Err(_) => ERR,
                }
            }
            path::FLUSH => match armed(|| w.flush()) {
                Ok(()) => OK,
                Err(_) => ERR,
            },
            path::COPY => {
                let mut r = ScriptReader::new(data, c.script());
                match armed(|| io::copy(&mut r, w)) {
                    Ok(n) => {
                        c.ret[2] = 1;
                        c.ret[3] = n;
                        OK
                    }
                    Err(e) => {
                        // WriteZero can only come from the engine's side.
                        c.ret[1] = (e.kind() == io::ErrorKind::WriteZero) as u64;
                        ERR
                    }
                }
            }
            path::BUFCOPY => {
                let r = ScriptReader::new(data, c.script());
                let mut r = BufReader::with_capacity((arg as usize).clamp(1, 65536), r);
                // Hand over the buffered parts one by one.
                loop {
                    let n = match r.fill_buf() {
                        Ok([]) => return OK,
                        Ok(b) => {
                            if armed(|| w.write_all(b)).is_err() {
                                c.ret[1] = 1;
                                return ERR;
                            }
                            b.len()
                        }
                        Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
                        Err(_) => return ERR,
                    };
                    r.consume(n);
                }
            }
            path::BUFWRITER => {
                let mut b = BufWriter::with_capacity((arg as usize).clamp(1, 65536), w);
                let mut rest = data;
                for s in c.script() {
                    // What is a fault for a source is an empty buffer here.
                    let n = (*s as u32 as usize).min(rest.len());
                    if b.write_all(&rest[..n]).is_err() {
                        return ERR;
                    }
                    rest = &rest[n..];
                }
                if b.write_all(rest).is_err() || b.flush().is_err() {
                    return ERR;
                }
                c.ret[0] = data.len() as u64;
                OK
            }
            path::LINEWRITER => {
                let mut b = LineWriter::with_capacity((arg as usize).clamp(1, 65536), w);
                if b.write_all(data).is_err() || b.flush().is_err() {
                    return ERR;
                }
                c.ret[0] = data.len() as u64;
                OK
            }
            path::WRITE_FMT => {
                let s = match std::str::from_utf8(data) {
                    Ok(s) => s,
                    Err(_) => return UNSUPPORTED,
                };
                let cut = (arg as usize).min(s.len());
                let cut = if s.is_char_boundary(cut) { cut } else { 0 };
                match armed(|| w.write_fmt(format_args!("{}{}", &s[..cut], &s[cut..]))) {
                    Ok(()) => {
                        c.ret[0] = data.len() as u64;
                        OK
                    }
                    Err(_) => ERR,
                }
            }
            path::BY_REF_CHAIN => {
                let cut = (arg as usize).min(data.len());
                let mut r = data[..cut].chain(&data[cut..]);
                match armed(|| io::copy(&mut r, w)) {
                    Ok(n) => {
                        c.ret[0] = data.len() as u64;
                        c.ret[2] = 1;
                        c.ret[3] = n;
                        OK
                    }
                    Err(_) => ERR,
                }
            }
            _ => UNSUPPORTED,
        }
    }
    #[cfg(not(feature = "std"))]
    {
        UNSUPPORTED
    }
}

/// Where engines live: at every address their alignment allows.
mod home {
    use std::alloc::{alloc, dealloc, Layout};
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

    static NEXT: AtomicUsize = AtomicUsize::new(0);

    fn layout<E>() -> Layout {
        Layout::from_size_align(std::mem::size_of::<E>() + 128, 64).expect("harness: layout")
    }
    pub fn put<E>(e: E) -> u64 {
        assert!(std::mem::align_of::<E>() <= 64, "harness: alignment");
        let step = std::mem::align_of::<E>();
        unsafe {
            let base = alloc(layout::<E>());
            assert!(!base.is_null(), "harness: no memory");
            let off = 64 + NEXT.fetch_add(1, SeqCst) * step % 64;
            let at = base.add(off);
            (at.sub(1)).write(off as u8);
            (at as *mut E).write(e);
            at as u64
        }
    }
    pub unsafe fn take<E>(p: *mut E) -> E {
        let e = p.read();
        let off = (p as *mut u8).sub(1).read();
        dealloc((p as *mut u8).sub(off as usize), layout::<E>());
        e
    }
}

fn engine_op<K: Kind>(c: &mut Call) -> i32
where
    <K::E as HashEngine>::Midstate: MidCodec,
{
    let eng = c.h as *mut K::E;
    match c.op {
        OP_NEW => match armed(|| K::create(c.a[0], c.data(), c.a[1], c.a[2])) {
            Some(e) => {
                c.ret[0] = home::put(e);
                OK
            }
            None => UNSUPPORTED,
        },
        OP_FEED => feed::<K>(unsafe { &mut *eng }, c),
        OP_NBYTES => {
            let e = unsafe { &*eng };
            c.ret[0] = armed(|| e.n_bytes_hashed()) as u64;
            OK
        }
        OP_CLONE => {
            let e = unsafe { &*eng };
            c.ret[0] = if c.a[0] == 1 {
                // Over an engine that was used for something else.
                let mut n = K::E::default();
                n.input(c.data());
                armed(|| n.clone_from(e));
                home::put(n)
            } else {
                home::put(armed(|| e.clone()))
            };
            OK
        }
        OP_DROP => {
            drop(unsafe { home::take(eng) });
            OK
        }
        OP_FINISH => {
            let e = unsafe { home::take(eng) };
            let v = c.a[0];
            let (d, n) = armed(move || K::finish(e, v));
            c.put(&d[..n]);
            OK
        }
        OP_MIDSTATE => {
            let e = unsafe { &*eng };
            let m = armed(|| e.midstate());
            let mut v = Vec::new();
            c.ret[1] = m.enc(&mut v) as u64;
            if c.ret[1] == 1 {
                c.put(&v);
            }
            c.ret[0] = if c.a[0] == 1 { Box::into_raw(Box::new(m)) as u64 } else { 0 };
            OK
        }
        OP_MIDDROP => {
            drop(unsafe { Box::from_raw(c.h as *mut <K::E as HashEngine>::Midstate) });
            OK
        }
        OP_RESUME => {
            let m = if c.h != 0 {
                unsafe { &*(c.h as *const <K::E as HashEngine>::Midstate) }.dup()
            } else {
                match <K::E as HashEngine>::Midstate::dec(c.data()) {
                    Some(m) => m,
                    None => return UNSUPPORTED,
                }
            };
            let n = c.a[0] as usize;
            let e = armed(|| K::resume(c.a[1], m, n));
            c.ret[0] = home::put(e);
            OK
        }
        OP_KEYS => match K::keys(unsafe { &*eng }) {
            Some((a, b)) => {
                c.ret[0] = a;
                c.ret[1] = b;
                OK
            }
            None => UNSUPPORTED,
        },
        OP_ONESHOT => {
            let data = c.data();
            match armed(|| K::oneshot(c.a[0], data, c.a[1], c.a[2])) {
                Some((d, n)) => {
                    c.put(&d[..n]);
                    OK
                }
                None => UNSUPPORTED,
            }
        }
        OP_CHUNKS => {
            let d = chunks::<K::E>(c);
            c.put(&d.0[..d.1]);
            OK
        }
        _ => UNSUPPORTED,
    }
}

/// `hash_byte_chunks` over differently typed iterators. The script gives the split; the top bit of
/// an entry makes the iterator panic there.
fn chunks<E: HashEngine>(c: &Call) -> Dig {
    const BOOM: u64 = 1 << 63;
    let mut rest = c.data();
    let mut parts: Vec<(&[u8], bool)> = Vec::new();
    for s in c.script() {
        let n = ((*s & !BOOM) as usize).min(rest.len());
        let (x, y) = rest.split_at(n);
        parts.push((x, *s & BOOM != 0));
        rest = y;
    }
    parts.push((rest, false));
    fn it<'a>(parts: &'a [(&'a [u8], bool)]) -> impl Iterator<Item = &'a [u8]> {
        parts.iter().map(|(p, boom)| {
            yield_now();
            if *boom {
                panic!("source panicked");
            }
            *p
        })
    }
    match c.a[0] {
        0 => dig(armed(|| E::hash_byte_chunks(it(&parts))).as_ref()),
        1 => {
            let v: Vec<Vec<u8>> = it(&parts).map(|p| p.to_vec()).collect();
            dig(armed(|| E::hash_byte_chunks(&v)).as_ref())
        }
        2 => {
            let v: Vec<&[u8]> = it(&parts).collect();
            dig(armed(|| E::hash_byte_chunks(v.iter())).as_ref())
        }
        4 => {
            // Items that run the caller's code when they are looked at.
            struct Loud<'a>(&'a [u8]);
            impl AsRef<[u8]> for Loud<'_> {
                fn as_ref(&self) -> &[u8] {
                    yield_now();
                    self.0
                }
            }
            let v: Vec<Loud> = it(&parts).map(Loud).collect();
            dig(armed(|| E::hash_byte_chunks(&v)).as_ref())
        }
        5 => {
            // One whose size hint says little: some of what it walks over is not for us.
            let mixed = it(&parts).flat_map(|p| [Some(p), None]);
            dig(armed(|| E::hash_byte_chunks(mixed.filter_map(|x| x))).as_ref())
        }
        6 => {
            // One that goes on after it has ended.
            struct Zombie<I>(I, u8);
            impl<'a, I: Iterator<Item = &'a [u8]>> Iterator for Zombie<I> {
                type Item = &'a [u8];
                fn next(&mut self) -> Option<&'a [u8]> {
                    if (1..4).contains(&self.1) {
                        self.1 += 1;
                        return Some(b"not part of the message");
                    }
                    let x = self.0.next();
                    self.1 += u8::from(x.is_none());
                    x
                }
            }
            dig(armed(|| E::hash_byte_chunks(Zombie(it(&parts), 0))).as_ref())
        }
        _ => {
            // An iterator without a size hint.
            let mut i = it(&parts);
            dig(armed(|| E::hash_byte_chunks(std::iter::from_fn(|| i.next()))).as_ref())
        }
    }
}

/// What the compiler lets threads do with the types.
mod auto {
    use super::*;
    struct Of<T>(PhantomData<T>);
    trait No {
        const SEND: u64 = 0;
        const SYNC: u64 = 0;
    }
    impl<T> No for Of<T> {}
    #[allow(dead_code)]
    impl<T: Send> Of<T> {
        const SEND: u64 = 1;
    }
    #[allow(dead_code)]
    impl<T: Sync> Of<T> {
        const SYNC: u64 = 2;
    }
    macro_rules! bits {
        ($($k:pat => $t:ty,)*) => {
            /// Bit 0: can be moved to another thread, bit 1: can be shared with one.
            pub fn bits(kind: u32) -> u64 {
                match kind {
                    $($k => <Of<$t>>::SEND | <Of<$t>>::SYNC,)*
                    _ => 3,
                }
            }
        };
    }
    bits! {
        0 => (sha1::Engine, sha1::Hash),
        1 => (sha256::Engine, sha256::Hash, sha256::Midstate),
        2 => (sha384::Engine, sha384::Hash),
        3 => (sha512::Engine, sha512::Hash),
        4 => (sha512_256::Engine, sha512_256::Hash),
        5 => (ripemd160::Engine, ripemd160::Hash),
        6 => (siphash24::Engine, siphash24::Hash, siphash24::State),
        10 => (hmac::Engine<sha1::Engine>, hmac::Hash<20>),
        11 => (hmac::Engine<sha256::Engine>, hmac::Hash<32>),
        12 => (hmac::Engine<sha384::Engine>, hmac::Hash<48>),
        13 => (hmac::Engine<sha512::Engine>, hmac::Hash<64>),
        14 => (hmac::Engine<sha512_256::Engine>, hmac::Hash<32>),
        15 => (hmac::Engine<ripemd160::Engine>, hmac::Hash<20>),
        16 => (hmac::Engine<siphash24::Engine>, hmac::Hash<8>),
        17 => (hmac::Engine<sha256t::Engine<Tag1>>, hmac::Hash<32>),
        20..=31 => (sha256t::Engine<Tag1>, sha256t::Hash<Tag1>),
    }
}

fn dispatch(c: &mut Call) -> i32 {
    match c.op {
        OP_HASHTAG => {
            let data = c.data();
            let m = armed(|| sha256::Midstate::hash_tag(data));
            c.put(&m.to_byte_array());
            return OK;
        }
        OP_FTEQ => {
            let (a, b) = (c.data(), c.aux());
            c.ret[0] = armed(|| chf::cmp::fixed_time_eq(a, b)) as u64;
            return OK;
        }
        OP_TIMEDEQ => {
            // The clock is read right before and right after the comparison.
            let (a, b) = std::hint::black_box((c.data(), c.aux()));
            let f: fn(&[u8], &[u8]) -> bool = std::hint::black_box(chf::cmp::fixed_time_eq);
            mark();
            let r = f(a, b);
            mark();
            c.ret[0] = std::hint::black_box(r) as u64;
            return OK;
        }
        OP_AUTO => {
            c.ret[0] = auto::bits(c.kind);
            return OK;
        }
        30..=59 => return records::dispatch(c),
        _ => {}
    }
    match c.kind {
        0 => engine_op::<KSha1>(c),
        1 => engine_op::<KSha256>(c),
        2 => engine_op::<KSha384>(c),
        3 => engine_op::<KSha512>(c),
        4 => engine_op::<KSha512t>(c),
        5 => engine_op::<KRmd>(c),
        6 => engine_op::<KSip>(c),
        10 => engine_op::<KHmac<KSha1, 20>>(c),
        11 => engine_op::<KHmac<KSha256, 32>>(c),
        12 => engine_op::<KHmac<KSha384, 48>>(c),
        13 => engine_op::<KHmac<KSha512, 64>>(c),
        14 => engine_op::<KHmac<KSha512t, 32>>(c),
        15 => engine_op::<KHmac<KRmd, 20>>(c),
        16 => engine_op::<KHmac<KSip, 8>>(c),
        17 => engine_op::<KHmac<KTag<Tag1>, 32>>(c),
        18 => engine_op::<KHmac<KOwn, 32>>(c),
        20 => engine_op::<KTag<Tag0>>(c),
        21 => engine_op::<KTag<Tag1>>(c),
        22 => engine_op::<KTag<Tag2>>(c),
        23 => engine_op::<KTag<Tag3>>(c),
        24 => engine_op::<KTag<Tag4>>(c),
        25 => engine_op::<KTag<Tag5>>(c),
        26 => engine_op::<KTag<Tag6>>(c),
        27 => engine_op::<KTag<Tag7>>(c),
        28 => engine_op::<KTag<Tag8>>(c),
        29 => engine_op::<KTag<Tag9>>(c),
        30 => engine_op::<KTag<Tag10>>(c),
        31 => engine_op::<KTag<Tag11>>(c),
        _ => UNSUPPORTED,
    }
}

#[no_mangle]
pub unsafe extern "C" fn node_call(c: *mut Call) -> i32 {
    let c = &mut *c;
    c.out_len = 0;
    c.ret = [0; 6];
    // A callback of an outer call may be what calls here.
    let outer = (DELIVERED.with(|d| d.replace(0)), alloc::reset());
    let r = catch_unwind(AssertUnwindSafe(|| dispatch(c)));
    c.allocs = alloc::attempts();
    if c.op == OP_FEED && matches!(c.a[0], path::COPY | path::BCOPY | path::BUFCOPY) {
        c.ret[0] = DELIVERED.with(|d| d.get());
    }
    let s = match r {
        Ok(s) => s,
        Err(_) => {
            alloc::disarm();
            let m = PANIC_MSG.with(|m| m.borrow().clone());
            if c.op != OP_FEED {
                c.out_len = 0;
                let n = m.len().min(c.out_cap);
                c.put(&m.as_bytes()[..n]);
            }
            c.ret[5] = m.contains("source panicked") as u64;
            PANIC
        }
    };
    DELIVERED.with(|d| d.set(outer.0));
    alloc::restore(outer.1);
    s
}

/// `mask`: CPU features this machine lacks. `yield_fn`: see [`YIELD`].
#[no_mangle]
pub unsafe extern "C" fn node_init(mask: usize, yield_fn: usize) {
    use chf::sim_hooks::hooks;
    hooks::CPU_MASKED.store(mask, SeqCst);
    std::hint::black_box(std::is_x86_feature_detected!("sha"));
    YIELD.store(yield_fn, SeqCst);
    std::panic::set_hook(Box::new(|info| {
        alloc::disarm();
        PANIC_MSG.with(|m| {
            if let Ok(mut m) = m.try_borrow_mut() {
                m.clear();
                let _ = write!(m, "{}", Short(info));
            }
        });
    }));
}

struct Short<'a, 'b>(&'a std::panic::PanicHookInfo<'b>);
impl fmt::Display for Short<'_, '_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if let Some(l) = self.0.location() {
            write!(f, "{}: ", l.file().rsplit('/').next().unwrap_or(""))?;
        }
        if let Some(s) = self.0.payload().downcast_ref::<&str>() {
            f.write_str(s)
        } else if let Some(s) = self.0.payload().downcast_ref::<String>() {
            f.write_str(s)
        } else {
            f.write_str("?")
        }
    }
}

/// Knobs and counters. key 0: switch points on/off (value = callback address), 1: allocation mode
/// (0 count, 1 fail), 2: read ILLEGAL, 3: read SPECIAL, 4: read POINTS.
#[no_mangle]
pub unsafe extern "C" fn node_knob(key: usize, value: usize) -> usize {
    use chf::sim_hooks::hooks;
    match key {
        0 => {
            hooks::CALLBACK.store(value, SeqCst);
            0
        }
        1 => {
            alloc::FAIL.store(value, SeqCst);
            0
        }
        2 => hooks::ILLEGAL.load(SeqCst),
        3 => hooks::SPECIAL.load(SeqCst),
        4 => hooks::POINTS.load(SeqCst),
        5 => {
            MARK.store(value, SeqCst);
            0
        }
        _ => 0,
    }
}

/// What this machine's copy of the standard library believes about its CPU.
#[no_mangle]
pub extern "C" fn node_cpu() -> usize {
    std::is_x86_feature_detected!("sha") as usize
        | (std::is_x86_feature_detected!("ssse3") as usize) << 1
        | (std::is_x86_feature_detected!("sse4.1") as usize) << 2
        | (std::is_x86_feature_detected!("avx") as usize) << 3
        | (std::is_x86_feature_detected!("avx2") as usize) << 4
}

/// Bit 0: std, bit 1: small-hash, bit 2: debug assertions.
#[no_mangle]
pub extern "C" fn node_config() -> usize {
    cfg!(feature = "std") as usize
        | (cfg!(feature = "small") as usize) << 1
        | (cfg!(debug_assertions) as usize) << 2
}
