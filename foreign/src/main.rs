//! A machine of another byte order or word size: interpreted by Miri, which also plays its
//! operating system. The script is its argument; it answers on standard output.

use std::str::FromStr;

use chf::{cmp::fixed_time_eq, hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24};
use chf::HashEngine;

pub trait MidCodec: Sized {
    fn enc(&self, out: &mut Vec<u8>) -> bool;
    fn dec(b: &[u8]) -> Option<Self>;
}
impl<const N: usize> MidCodec for [u8; N] {
    fn enc(&self, out: &mut Vec<u8>) -> bool {
        out.extend_from_slice(self);
        true
    }
    fn dec(b: &[u8]) -> Option<Self> { b.try_into().ok() }
}
impl MidCodec for sha256::Midstate {
    fn enc(&self, out: &mut Vec<u8>) -> bool {
        out.extend_from_slice(&self.to_byte_array());
        true
    }
    fn dec(b: &[u8]) -> Option<Self> { Some(Self::from_byte_array(b.try_into().ok()?)) }
}
impl MidCodec for siphash24::State {
    fn enc(&self, _: &mut Vec<u8>) -> bool { false }
    fn dec(_: &[u8]) -> Option<Self> { None }
}
impl<E: HashEngine> MidCodec for hmac::Midstate<E>
where
    E::Midstate: MidCodec,
{
    fn enc(&self, out: &mut Vec<u8>) -> bool { self.inner.enc(out) && self.outer.enc(out) }
    fn dec(b: &[u8]) -> Option<Self> {
        let (i, o) = b.split_at(b.len() / 2);
        Some(hmac::Midstate { inner: E::Midstate::dec(i)?, outer: E::Midstate::dec(o)? })
    }
}

trait Eng {
    fn put(&mut self, d: &[u8]);
    fn count(&self) -> usize;
    fn mid(&self) -> Vec<u8>;
    fn hop(&self) -> Box<dyn Eng>;
    fn dup(&self) -> Box<dyn Eng>;
    fn fin(self: Box<Self>) -> Vec<u8>;
}
impl<E: HashEngine + 'static> Eng for E
where
    E::Midstate: MidCodec,
{
    fn put(&mut self, d: &[u8]) { self.input(d) }
    fn count(&self) -> usize { self.n_bytes_hashed() }
    fn mid(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.midstate().enc(&mut v);
        v
    }
    fn hop(&self) -> Box<dyn Eng> { Box::new(E::from_midstate(self.midstate(), self.n_bytes_hashed())) }
    fn dup(&self) -> Box<dyn Eng> { Box::new(self.clone()) }
    fn fin(self: Box<Self>) -> Vec<u8> { (*self).finalize().as_ref().to_vec() }
}

macro_rules! tags {
    ($($name:ident = $bytes:expr;)*) => {$(
        #[derive(Copy, Clone)]
        pub struct $name;
        impl sha256t::Tag for $name {
            fn engine() -> sha256t::Engine<Self> {
                const MID: sha256::Midstate = sha256::Midstate::hash_tag($bytes);
                sha256t::Engine::<Self>::from_midstate(MID, 64)
            }
        }
    )*};
}
tags! {
    Tag0 = b"";
    Tag1 = b"BIP0340/challenge";
    Tag6 = &[0xff; 119];
}

fn fresh<E: HashEngine + 'static>() -> Box<dyn Eng>
where
    E::Midstate: MidCodec,
{
    Box::new(E::new())
}
fn keyed<E: HashEngine + 'static>(key: &[u8]) -> Box<dyn Eng>
where
    E::Midstate: MidCodec,
{
    Box::new(hmac::Engine::<E>::new(key))
}
fn resumed<E: HashEngine + 'static>(m: &[u8], n: usize) -> Box<dyn Eng>
where
    E::Midstate: MidCodec,
{
    Box::new(E::from_midstate(E::Midstate::dec(m).expect("script: midstate"), n))
}

macro_rules! kinds {
    ($k:expr, $f:ident($($a:expr),*), $g:ident($($b:expr),*), $($wrap:tt)*) => {
        match $k {
            0 => $f::<sha1::Engine>($($a),*),
            1 => $f::<sha256::Engine>($($a),*),
            2 => $f::<sha384::Engine>($($a),*),
            3 => $f::<sha512::Engine>($($a),*),
            4 => $f::<sha512_256::Engine>($($a),*),
            5 => $f::<ripemd160::Engine>($($a),*),
            6 => $f::<siphash24::Engine>($($a),*),
            20 => $f::<sha256t::Engine<Tag0>>($($a),*),
            21 => $f::<sha256t::Engine<Tag1>>($($a),*),
            26 => $f::<sha256t::Engine<Tag6>>($($a),*),
            10 => kinds!(@ $g, sha1::Engine, ($($b),*), $($wrap)*),
            11 => kinds!(@ $g, sha256::Engine, ($($b),*), $($wrap)*),
            12 => kinds!(@ $g, sha384::Engine, ($($b),*), $($wrap)*),
            13 => kinds!(@ $g, sha512::Engine, ($($b),*), $($wrap)*),
            14 => kinds!(@ $g, sha512_256::Engine, ($($b),*), $($wrap)*),
            15 => kinds!(@ $g, ripemd160::Engine, ($($b),*), $($wrap)*),
            16 => kinds!(@ $g, siphash24::Engine, ($($b),*), $($wrap)*),
            17 => kinds!(@ $g, sha256t::Engine<Tag1>, ($($b),*), $($wrap)*),
            k => panic!("script: kind {}", k),
        }
    };
    (@ $g:ident, $E:ty, ($($b:expr),*), plain) => { $g::<$E>($($b),*) };
    (@ $g:ident, $E:ty, ($($b:expr),*), hmac) => { $g::<hmac::Engine<$E>>($($b),*) };
}

fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut v = Vec::with_capacity(2 * b.len());
    for x in b {
        v.push(D[(x >> 4) as usize]);
        v.push(D[(x & 15) as usize]);
    }
    String::from_utf8(v).expect("hex")
}
fn digit(c: u8) -> u8 {
    if c > b'9' {
        c - b'a' + 10
    } else {
        c - b'0'
    }
}
fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len() / 2);
    let mut i = 0;
    while i + 1 < b.len() {
        v.push(digit(b[i]) << 4 | digit(b[i + 1]));
        i += 2;
    }
    v
}
fn bytes(len: usize, seed: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 8);
    let mut x = seed;
    while v.len() < len {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.extend_from_slice(&(x ^ (x >> 29)).to_le_bytes());
    }
    v.truncate(len);
    v
}

/// Text, parsed text, order, equality of two values of a type.
macro_rules! values {
    ($T:ty, $a:expr, $b:expr) => {{
        let (x, y) = (<$T>::from_slice($a).expect("script: length"), <$T>::from_slice($b).expect("script: length"));
        let text = format!("{} {:x}", x, y);
        let back = <$T>::from_str(&format!("{}", y)).map(|z| z == y);
        format!("{} {} {:?} {:?}", text, hex(x.as_ref()), x.cmp(&y), back.ok())
    }};
}

fn op(w: &[&str], e: &mut [Option<Box<dyn Eng>>; 4]) -> Option<String> {
    let n = |i: usize| w[i].parse::<usize>().expect("script: number");
    let u = |i: usize| w[i].parse::<u64>().expect("script: number");
    match w[0] {
        "new" => {
            let key = unhex(w[3]);
            let k = n(2);
            let x = if k == 6 {
                Box::new(siphash24::Engine::with_keys(u(4), u(5))) as Box<dyn Eng>
            } else {
                kinds!(k, fresh(), keyed(&key), plain)
            };
            e[n(1)] = Some(x);
            None
        }
        "resume" => {
            let m = unhex(w[3]);
            let x = kinds!(n(2), resumed(&m, n(4)), resumed(&m, n(4)), hmac);
            e[n(1)] = Some(x);
            None
        }
        "in" => {
            e[n(1)].as_mut()?.put(&bytes(n(2), u(3)));
            None
        }
        "count" => Some(e[n(1)].as_ref()?.count().to_string()),
        "mid" => Some(hex(&e[n(1)].as_ref()?.mid())),
        "hop" => {
            let x = e[n(1)].as_ref()?.hop();
            e[n(1)] = Some(x);
            None
        }
        "dup" => {
            let x = e[n(1)].as_ref()?.dup();
            e[n(2)] = Some(x);
            None
        }
        "fin" => Some(hex(&e[n(1)].take()?.fin())),
        "one" => {
            let d = bytes(n(2), u(3));
            Some(match n(1) {
                0 => hex(sha1::Hash::hash(&d).as_ref()),
                1 => hex(sha256::Hash::hash(&d).as_ref()),
                2 => hex(sha384::Hash::hash(&d).as_ref()),
                3 => hex(sha512::Hash::hash(&d).as_ref()),
                4 => hex(sha512_256::Hash::hash(&d).as_ref()),
                5 => hex(ripemd160::Hash::hash(&d).as_ref()),
                _ => hex(sha256t::Hash::<Tag1>::hash(&d).as_ref()),
            })
        }
        "const" => Some(hex(sha256::Hash::const_hash(&bytes(n(1), u(2))).as_ref())),
        "tag" => Some(hex(&sha256::Midstate::hash_tag(&bytes(n(1), u(2))).to_byte_array())),
        "chunks" => {
            let d = bytes(n(2), u(3));
            let c = d.chunks(n(4));
            Some(match n(1) {
                0 => hex(&sha1::Engine::hash_byte_chunks(c)),
                1 => hex(&sha256::Engine::hash_byte_chunks(c)),
                3 => hex(&sha512::Engine::hash_byte_chunks(c)),
                _ => hex(&ripemd160::Engine::hash_byte_chunks(c)),
            })
        }
        "sip" => {
            let d = bytes(n(3), u(4));
            let x = siphash24::Hash::hash_with_keys(u(1), u(2), &d);
            let y = siphash24::Hash::hash_to_u64_with_keys(u(1), u(2), &d);
            let z = siphash24::Hash::from_u64(y);
            Some(format!("{} {} {} {}", hex(x.as_ref()), x.as_u64(), y, hex(z.as_ref())))
        }
        "values" => {
            let (a, b) = (unhex(w[2]), unhex(w[3]));
            Some(match n(1) {
                0 => values!(sha1::Hash, &a, &b),
                1 => values!(sha256::Hash, &a, &b),
                2 => values!(sha384::Hash, &a, &b),
                3 => values!(sha512::Hash, &a, &b),
                4 => values!(sha512_256::Hash, &a, &b),
                5 => values!(ripemd160::Hash, &a, &b),
                6 => values!(siphash24::Hash, &a, &b),
                11 => values!(hmac::Hash<32>, &a, &b),
                _ => values!(sha256t::Hash<Tag1>, &a, &b),
            })
        }
        "fteq" => Some(fixed_time_eq(&unhex(w[1]), &unhex(w[2])).to_string()),
        x => panic!("script: {}", x),
    }
}

fn thread(lines: &[(usize, &str)]) -> String {
    let mut e = [None, None, None, None];
    let mut out = String::new();
    for (i, l) in lines {
        let w: Vec<&str> = l.split(' ').collect();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op(&w, &mut e)));
        match r {
            Ok(Some(s)) => out += &format!("{} {}\n", i, s),
            Ok(None) => {}
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned();
                let m = m.or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                out += &format!("{} panicked: {}\n", i, m.unwrap_or_default().replace('\n', " "));
                break;
            }
        }
    }
    out
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let s = std::env::args().skip(1).collect::<Vec<_>>().join("\n");
    // Runs of threads of lines, numbered from the top.
    let mut runs: Vec<Vec<Vec<(usize, &str)>>> = Vec::new();
    for (i, l) in s.lines().enumerate() {
        if l.is_empty() || l.starts_with('#') {
        } else if l.starts_with("run") {
            runs.push(Vec::new());
        } else if l == "thread" {
            runs.last_mut().expect("script").push(Vec::new());
        } else {
            runs.last_mut().expect("script").last_mut().expect("script").push((i, l));
        }
    }
    for (i, r) in runs.iter().enumerate() {
        let out = if r.len() == 1 {
            thread(&r[0])
        } else {
            std::thread::scope(|s| {
                let h: Vec<_> = r.iter().map(|t| s.spawn(move || thread(t))).collect();
                h.into_iter().map(|h| h.join().unwrap_or_else(|_| "? lost a thread\n".into())).collect()
            })
        };
        println!("{}end {}", out, i);
    }
}
