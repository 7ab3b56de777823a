//! Streams longer than 2^32 bytes and single slices longer than 2^32 bytes.
//!
//! The first 2^32 bytes are a fixed periodic pattern whose chaining values were computed once with
//! the reference implementation (`chfsim precompute`, committed as chains.txt and cross-checked
//! against an unrelated implementation); what follows is chosen by the seed.

use std::ffi::{c_void, CString};
use std::sync::OnceLock;

use crate::exec::{Ctx, FL_COUNT, V};
use crate::node::*;
use crate::refimpl::*;
use crate::rng::{self, Rng};
use crate::shared::{add, inc, S};

pub const PERIOD: usize = 1 << 20;
const FILE: usize = 16 << 20;
const SEED: u64 = 0x6d61_7261_7468_6f6e;

pub fn pattern() -> Vec<u8> { rng::bytes(SEED, 0, PERIOD) }
pub fn key() -> Vec<u8> { rng::bytes(0x6b6579, 0, 20) }
pub const ALL: [u64; 17] = [5, 0, 3, 2, 4, 1, 6, 10, 11, 12, 13, 14, 15, 16, 17, 18, 22];
pub const KINDS: [u32; 17] = [0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 13, 14, 15, 16, 17, 18, 22];

/// The model of `kind` after 2^`bits` bytes of the pattern.
fn model(kind: u32, bits: u32) -> Option<Model> {
    for l in include_str!("chains.txt").lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() == 3 && w[0] == kind.to_string() && w[1] == bits.to_string() {
            let c: Vec<u8> = (0..w[2].len() / 2)
                .map(|i| u8::from_str_radix(&w[2][2 * i..2 * i + 2], 16).unwrap())
                .collect();
            let mut m = Model::new(kind, &key(), 0, 0);
            m.inner = RefHash::from_chain(m.inner.core, &c, m.inner.total + (1u64 << bits));
            return Some(m);
        }
    }
    None
}

pub fn precompute() {
    let p = pattern();
    let hs: Vec<_> = KINDS
        .iter()
        .map(|k| (*k, 32))
        .chain([(1, 29)])
        .chain(KINDS.iter().map(|k| (*k, 26)))
        .map(|(k, bits)| {
            let p = p.clone();
            std::thread::spawn(move || {
                let mut m = Model::new(k, &key(), 0, 0);
                for _ in 0..(1u64 << bits) / PERIOD as u64 {
                    m.update(&p);
                }
                (k, bits, m.inner.chain(), m.digest())
            })
        })
        .collect();
    for h in hs {
        let (k, bits, c, d) = h.join().unwrap();
        println!("{} {} {}", k, bits, crate::exec::hex(&c));
        eprintln!("digest {} {} {}", k, bits, crate::exec::hex(&d));
    }
}

/// The pattern repeated over a little more than 4 GiB of address space.
fn region() -> (*const u8, usize) {
    static R: OnceLock<(usize, usize)> = OnceLock::new();
    let r = R.get_or_init(|| unsafe {
        let name = CString::new("pattern").unwrap();
        let fd = memfd_create(name.as_ptr(), 0);
        assert!(fd >= 0 && ftruncate(fd, FILE as i64) == 0, "harness: memfd");
        let p = pattern();
        let n = (1usize << 32) + 2 * FILE;
        let base = mmap(std::ptr::null_mut(), n, 0, 0x22 | 0x4000, -1, 0) as *mut u8;
        assert!(base as isize != -1, "harness: mmap");
        let mut at = 0;
        while at < n {
            let prot = if at == 0 { 3 } else { 1 };
            let m = mmap(base.add(at) as *mut c_void, FILE, prot, 0x11, fd, 0); // SHARED | FIXED
            assert!(m as isize != -1, "harness: mmap");
            if at == 0 {
                for k in 0..FILE / PERIOD {
                    std::ptr::copy_nonoverlapping(p.as_ptr(), base.add(k * PERIOD), PERIOD);
                }
            }
            at += FILE;
        }
        close(fd);
        (base as usize, n)
    });
    (r.0 as *const u8, r.1)
}

fn create(c: &mut Ctx, kind: u32, n: usize, variant: u64) -> V<u64> {
    let k = if (HMAC..TAGGED).contains(&kind) { key() } else { vec![] };
    let r = c.raw(
        n,
        OP_NEW,
        Args { kind, a: [variant, 0, 0, 0, 0, 0], data: Some((k.as_ptr(), k.len())), ..Default::default() },
    )?;
    Ok(r.ret[0])
}

fn put(c: &mut Ctx, kind: u32, n: usize, h: u64, pa: u64, at: *const u8, len: usize) -> V {
    let mut off = 0;
    loop {
        let go = |c: &mut Ctx, pa: u64| {
            c.raw(
                n,
                OP_FEED,
                Args {
                    kind,
                    h,
                    a: [pa, 0, 0, 0, 0, 0],
                    data: Some((unsafe { at.add(off) }, len - off)),
                    ..Default::default()
                },
            )
        };
        let mut r = go(c, pa)?;
        if r.status == UNSUPPORTED {
            r = go(c, path::INPUT)?;
        }
        inc(S::Evals);
        let got = r.ret[0] as usize;
        if r.status != OK || got > len - off || (got == 0 && len != off) {
            return Err(format!(
                "{} on {}: delivering {} bytes acknowledged {} (status {})",
                kind_name(kind),
                IMAGES[n].name,
                len - off,
                got,
                r.status
            ));
        }
        off += got;
        if off == len {
            return Ok(());
        }
    }
}

fn count(c: &mut Ctx, kind: u32, n: usize, h: u64) -> V<u64> {
    Ok(c.raw(n, OP_NBYTES, Args { kind, h, ..Default::default() })?.ret[0])
}

fn check_count(c: &mut Ctx, kind: u32, n: usize, h: u64, n0: u64, fed: u64) -> V {
    if c.flags() & FL_COUNT == 0 {
        return Ok(());
    }
    let x = count(c, kind, n, h)?;
    inc(S::Evals);
    if x != n0 + fed {
        return Err(format!(
            "{} engine on {} reports {} bytes hashed; it began at {} and absorbed {}",
            kind_name(kind),
            IMAGES[n].name,
            x,
            n0,
            fed
        ));
    }
    Ok(())
}

fn tail_and_finish(c: &mut Ctx, kind: u32, n: usize, h: u64, mut m: Model, seed: u64, n0: u64, fed: u64) -> V {
    let mut g = Rng::new(seed ^ 99);
    let mut fed = fed;
    for _ in 0..g.below(4) {
        let d = rng::bytes(g.next(), g.below(4), g.below(400) as usize);
        put(c, kind, n, h, path::INPUT, d.as_ptr(), d.len())?;
        m.update(&d);
        fed += d.len() as u64;
        check_count(c, kind, n, h, n0, fed)?;
    }
    // A clone of a long computation is a long computation.
    let r = c.raw(n, OP_CLONE, Args { kind, h, ..Default::default() })?;
    let h2 = r.ret[0];
    check_count(c, kind, n, h2, n0, fed)?;
    for (k, x) in [h, h2].into_iter().enumerate() {
        let r = c.raw(n, OP_FINISH, Args { kind, h: x, a: [seed + k as u64, 0, 0, 0, 0, 0], ..Default::default() })?;
        c.verdict(kind, n, &format!("digest after {} message bytes", fed), &r.out, &m.digest())?;
    }
    add(S::Bytes, fed);
    inc(S::O_huge);
    c.mark(&[20, kind as u64, n as u64, seed]);
    Ok(())
}

fn kind_at(x: u64) -> u32 { *KINDS.iter().find(|k| **k as u64 == x).unwrap_or(&KINDS[x as usize % KINDS.len()]) }

/// kind node seed maxpiece: a stream of more than 2^32 bytes in pieces.
pub fn marathon(c: &mut Ctx, a: &[u64]) -> V {
    let get = |i: usize| a.get(i).copied().unwrap_or(0);
    let (kind, n) = (kind_at(get(0)), get(1) as usize % NIMG);
    let m = model(kind, 32).ok_or("harness: no chain")?;
    let (base, _) = region();
    let mut g = Rng::new(get(2));
    let h = create(c, kind, n, g.next())?;
    let n0 = count(c, kind, n, h)?;
    let end = 1u64 << 32;
    let mut pos = 0u64;
    let max = get(3).clamp(4096, 1 << 30);
    while pos < end {
        // Big pieces in the middle, small ones around the boundary.
        let left = end - pos;
        let len = if left < 1000 {
            g.below(150).min(left)
        } else if left < max {
            left - g.range(1, 900)
        } else {
            g.range(max / 2, max)
        };
        let pa = g.pick(&[path::INPUT, path::INPUT, path::WRITE, path::BWRITE]);
        put(c, kind, n, h, pa, unsafe { base.add((pos % PERIOD as u64) as usize) }, len as usize)?;
        pos += len;
        check_count(c, kind, n, h, n0, pos)?;
    }
    tail_and_finish(c, kind, n, h, m, get(2), n0, pos)
}

/// kind node seed how bits: one slice of more than 2^32 (or 2^26) bytes. how: 0 input, 1 write, 2 bitcoin write,
/// 3 one-shot, 4 chunked, 5 copied from a slice.
pub fn giant(c: &mut Ctx, a: &[u64]) -> V {
    let get = |i: usize| a.get(i).copied().unwrap_or(0);
    let (kind, n) = (kind_at(get(0)), get(1) as usize % NIMG);
    let bits = if get(4) == 26 { 26 } else { 32 };
    let mut m = model(kind, bits).ok_or("harness: no chain")?;
    let (base, _) = region();
    let mut g = Rng::new(get(2));
    let extra = g.pick(&[0, 1, 7, 63, 64, 65, 200, 5000, 70_000]) as usize;
    let len = (1usize << bits) + extra;
    m.update(&pattern()[..extra]);
    let how = get(3);
    if how == 3 || how == 4 {
        if (HMAC..TAGGED).contains(&kind) {
            return Ok(()); // no key
        }
        let op = if how == 3 { OP_ONESHOT } else { OP_CHUNKS };
        let v = if kind == 6 && how == 3 { 5 + g.below(4) } else { 0 };
        let r = c.raw(n, op, Args { kind, a: [v, 0, 0, 0, 0, 0], data: Some((base, len)), ..Default::default() })?;
        c.verdict(kind, n, &format!("digest of a single slice of {} bytes", len), &r.out, &m.digest())?;
        add(S::Bytes, len as u64);
        inc(S::O_huge);
        c.mark(&[21, kind as u64, n as u64, get(2)]);
        return Ok(());
    }
    let h = create(c, kind, n, g.next())?;
    let n0 = count(c, kind, n, h)?;
    let pa = [path::INPUT, path::WRITE, path::BWRITE, path::INPUT, path::INPUT, path::BY_REF_CHAIN][how as usize % 6];
    put(c, kind, n, h, pa, base, len)?;
    check_count(c, kind, n, h, n0, len as u64)?;
    tail_and_finish(c, kind, n, h, m, get(2), n0, len as u64)
}

/// node seed bits: `const_hash` of 2^bits bytes and a little more.
pub fn bigconst(c: &mut Ctx, a: &[u64]) -> V {
    let get = |i: usize| a.get(i).copied().unwrap_or(0);
    let n = get(0) as usize % NIMG;
    let bits = if get(2) == 32 { 32 } else { 29 };
    let mut m = model(1, bits).ok_or("harness: no chain")?;
    let (base, _) = region();
    let mut g = Rng::new(get(1));
    let extra = g.pick(&[0, 1, 55, 56, 63, 64, 65, 5000]) as usize;
    let len = (1usize << bits) + extra;
    m.update(&pattern()[..extra]);
    let r = c.raw(n, OP_ONESHOT, Args { kind: 1, a: [4, 0, 0, 0, 0, 0], data: Some((base, len)), ..Default::default() })?;
    c.verdict(1, n, &format!("const_hash of {} bytes", len), &r.out, &m.digest())?;
    add(S::Bytes, len as u64);
    c.mark(&[22, n as u64, get(1)]);
    Ok(())
}
