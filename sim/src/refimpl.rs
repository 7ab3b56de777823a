//! The reference model: textbook implementations of the hash functions, written from the
//! standards (FIPS 180-4, the RIPEMD-160 paper, the SipHash paper, RFC 2104, BIP 340) and sharing
//! nothing with the library under test. Slow, streaming, with an explicit chaining value and total
//! length so that a computation can be positioned anywhere in a huge stream.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Core {
    Sha1,
    Sha256,
    Sha384,
    Sha512,
    Sha512t256,
    Rmd160,
    Sip,
}

pub const CORES: [Core; 7] =
    [Core::Sha1, Core::Sha256, Core::Sha384, Core::Sha512, Core::Sha512t256, Core::Rmd160, Core::Sip];

/// Primes, for deriving the SHA-2 constants instead of typing them in.
fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = Vec::new();
    let mut c = 2;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}

/// floor(frac(p^(1/k)) * 2^64), by binary search on big integers.
fn root_frac(p: u64, k: u32) -> u64 {
    // Find the largest x with x^k <= p * 2^(64k); x has at most 64 + 10 bits.
    let mut lo: u128 = 0;
    let mut hi: u128 = 1 << 75;
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        let mut pow = big_from(mid);
        for _ in 1..k {
            pow = big_mul(&pow, &big_from(mid));
        }
        let mut rhs = vec![0u32; (2 * k) as usize];
        rhs.extend(big_from(p as u128));
        if big_le(&pow, &rhs) {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo as u64
}
fn big_from(mut x: u128) -> Vec<u32> {
    let mut v = Vec::new();
    while x != 0 {
        v.push(x as u32);
        x >>= 32;
    }
    v
}
fn big_mul(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        let mut carry = 0u64;
        for (j, y) in b.iter().enumerate() {
            let t = *x as u64 * *y as u64 + r[i + j] as u64 + carry;
            r[i + j] = t as u32;
            carry = t >> 32;
        }
        r[i + b.len()] = carry as u32;
    }
    r
}
fn big_le(a: &[u32], b: &[u32]) -> bool {
    let n = a.len().max(b.len());
    for i in (0..n).rev() {
        let (x, y) = (a.get(i).copied().unwrap_or(0), b.get(i).copied().unwrap_or(0));
        if x != y {
            return x < y;
        }
    }
    true
}

struct Tables {
    k512: [u64; 80],
    iv512: [u64; 8],
    iv384: [u64; 8],
    iv512t: [u64; 8],
    iv256: [u32; 8],
    k256: [u32; 64],
}

fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let p = primes(80);
        let mut t = Tables {
            k512: [0; 80],
            iv512: [0; 8],
            iv384: [0; 8],
            iv512t: [0; 8],
            iv256: [0; 8],
            k256: [0; 64],
        };
        for i in 0..80 {
            t.k512[i] = root_frac(p[i], 3);
        }
        for i in 0..64 {
            t.k256[i] = (t.k512[i] >> 32) as u32;
        }
        for i in 0..8 {
            t.iv512[i] = root_frac(p[i], 2);
            t.iv384[i] = root_frac(p[i + 8], 2);
            t.iv256[i] = (t.iv512[i] >> 32) as u32;
        }
        // SHA-512/t IV generation, FIPS 180-4 section 5.3.6.
        let mut iv = [0; 8];
        for i in 0..8 {
            iv[i] = t.iv512[i] ^ 0xa5a5a5a5a5a5a5a5;
        }
        let mut block = [0u8; 128];
        let name = b"SHA-512/256";
        block[..name.len()].copy_from_slice(name);
        block[name.len()] = 0x80;
        block[127] = (name.len() * 8) as u8;
        sha512_block(&mut iv, &block, &t.k512);
        t.iv512t = iv;
        t
    })
}

fn sha512_block(h: &mut [u64; 8], b: &[u8], k: &[u64; 80]) {
    let mut w = [0u64; 80];
    for i in 0..16 {
        w[i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    for i in 16..80 {
        let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
        let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..80 {
        let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}

fn sha256_block(h: &mut [u32; 8], b: &[u8], k: &[u32; 64]) {
    let mut w = [0u32; 64];
    for i in 0..16 {
        w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
    }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}

fn sha1_block(h: &mut [u32; 5], b: &[u8]) {
    let mut w = [0u32; 80];
    for i in 0..16 {
        w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
    }
    for i in 16..80 {
        w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
    }
    let mut v = *h;
    for i in 0..80 {
        let (f, k) = match i / 20 {
            0 => ((v[1] & v[2]) | (!v[1] & v[3]), 0x5a827999u32),
            1 => (v[1] ^ v[2] ^ v[3], 0x6ed9eba1),
            2 => ((v[1] & v[2]) ^ (v[1] & v[3]) ^ (v[2] & v[3]), 0x8f1bbcdc),
            _ => (v[1] ^ v[2] ^ v[3], 0xca62c1d6),
        };
        let t = v[0]
            .rotate_left(5)
            .wrapping_add(f)
            .wrapping_add(v[4])
            .wrapping_add(k)
            .wrapping_add(w[i]);
        v = [t, v[0], v[1].rotate_left(30), v[2], v[3]];
    }
    for i in 0..5 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}

fn rmd160_block(h: &mut [u32; 5], b: &[u8]) {
    const RHO: [usize; 16] = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8];
    // Shift amounts by round and message word, as in the paper's table.
    const SHIFT: [[u32; 16]; 5] = [
        [11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],
        [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
        [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9],
        [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
        [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5],
    ];
    const KL: [u32; 5] = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e];
    const KR: [u32; 5] = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0];
    fn f(j: usize, x: u32, y: u32, z: u32) -> u32 {
        match j {
            0 => x ^ y ^ z,
            1 => (x & y) | (!x & z),
            2 => (x | !y) ^ z,
            3 => (x & z) | (y & !z),
            _ => x ^ (y | !z),
        }
    }
    let mut x = [0u32; 16];
    for i in 0..16 {
        x[i] = u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
    }
    // Word orders: left: id, rho, rho^2, ...; right: pi, rho pi, ... with pi(i) = 9i + 5 mod 16.
    let mut left: [usize; 16] = std::array::from_fn(|i| i);
    let mut right: [usize; 16] = std::array::from_fn(|i| (9 * i + 5) % 16);
    let (mut l, mut r) = (*h, *h);
    for round in 0..5 {
        for j in 0..16 {
            let s = |v: [u32; 5], fj: usize, k: u32, word: usize| -> [u32; 5] {
                let t = v[0]
                    .wrapping_add(f(fj, v[1], v[2], v[3]))
                    .wrapping_add(x[word])
                    .wrapping_add(k)
                    .rotate_left(SHIFT[round][word])
                    .wrapping_add(v[4]);
                [v[4], t, v[1], v[2].rotate_left(10), v[3]]
            };
            l = s(l, round, KL[round], left[j]);
            r = s(r, 4 - round, KR[round], right[j]);
        }
        left = std::array::from_fn(|i| RHO[left[i]]);
        right = std::array::from_fn(|i| RHO[right[i]]);
    }
    let t = h[1].wrapping_add(l[2]).wrapping_add(r[3]);
    h[1] = h[2].wrapping_add(l[3]).wrapping_add(r[4]);
    h[2] = h[3].wrapping_add(l[4]).wrapping_add(r[0]);
    h[3] = h[4].wrapping_add(l[0]).wrapping_add(r[1]);
    h[4] = h[0].wrapping_add(l[1]).wrapping_add(r[2]);
    h[0] = t;
}

fn sip_round(v: &mut [u64; 4]) {
    v[0] = v[0].wrapping_add(v[1]);
    v[2] = v[2].wrapping_add(v[3]);
    v[1] = v[1].rotate_left(13) ^ v[0];
    v[3] = v[3].rotate_left(16) ^ v[2];
    v[0] = v[0].rotate_left(32);
    v[2] = v[2].wrapping_add(v[1]);
    v[0] = v[0].wrapping_add(v[3]);
    v[1] = v[1].rotate_left(17) ^ v[2];
    v[3] = v[3].rotate_left(21) ^ v[0];
    v[2] = v[2].rotate_left(32);
}

#[derive(Clone, Debug)]
enum State {
    W32([u32; 8]),
    W64([u64; 8]),
    W5([u32; 5]),
    Sip([u64; 4]),
}

#[derive(Clone, Debug)]
pub struct RefHash {
    pub core: Core,
    state: State,
    buf: Vec<u8>,
    pub total: u64,
}

impl Core {
    /// Block size as HMAC sees it.
    pub fn block(self) -> usize {
        match self {
            Core::Sha1 | Core::Sha256 | Core::Rmd160 => 64,
            Core::Sha384 | Core::Sha512 | Core::Sha512t256 => 128,
            Core::Sip => 32,
        }
    }
    /// Bytes after which the state can be exported.
    pub fn unit(self) -> usize {
        if self == Core::Sip {
            8
        } else {
            self.block()
        }
    }
    pub fn out_len(self) -> usize {
        match self {
            Core::Sha1 | Core::Rmd160 => 20,
            Core::Sha256 | Core::Sha512t256 => 32,
            Core::Sha384 => 48,
            Core::Sha512 => 64,
            Core::Sip => 8,
        }
    }
    pub fn chain_len(self) -> usize {
        match self {
            Core::Sha1 | Core::Rmd160 => 20,
            Core::Sha256 | Core::Sip => 32,
            _ => 64,
        }
    }
}

impl RefHash {
    pub fn new(core: Core) -> RefHash { RefHash::keyed(core, 0, 0) }

    pub fn keyed(core: Core, k0: u64, k1: u64) -> RefHash {
        let t = tables();
        let state = match core {
            Core::Sha1 | Core::Rmd160 =>
                State::W5([0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]),
            Core::Sha256 => State::W32(t.iv256),
            Core::Sha384 => State::W64(t.iv384),
            Core::Sha512 => State::W64(t.iv512),
            Core::Sha512t256 => State::W64(t.iv512t),
            Core::Sip => State::Sip([
                k0 ^ u64::from_be_bytes(*b"somepseu"),
                k1 ^ u64::from_be_bytes(*b"dorandom"),
                k0 ^ u64::from_be_bytes(*b"lygenera"),
                k1 ^ u64::from_be_bytes(*b"tedbytes"),
            ]),
        };
        RefHash { core, state, buf: Vec::with_capacity(128), total: 0 }
    }

    /// A computation that has absorbed `total` bytes (whole blocks) and has this chaining value.
    pub fn from_chain(core: Core, chain: &[u8], total: u64) -> RefHash {
        let mut r = RefHash::new(core);
        r.total = total;
        match &mut r.state {
            State::W32(h) =>
                for i in 0..8 {
                    h[i] = u32::from_be_bytes(chain[4 * i..4 * i + 4].try_into().unwrap());
                },
            State::W64(h) =>
                for i in 0..8 {
                    h[i] = u64::from_be_bytes(chain[8 * i..8 * i + 8].try_into().unwrap());
                },
            State::W5(h) =>
                for i in 0..5 {
                    let b: [u8; 4] = chain[4 * i..4 * i + 4].try_into().unwrap();
                    h[i] = if core == Core::Rmd160 {
                        u32::from_le_bytes(b)
                    } else {
                        u32::from_be_bytes(b)
                    };
                },
            State::Sip(v) =>
                for i in 0..4 {
                    v[i] = u64::from_le_bytes(chain[8 * i..8 * i + 8].try_into().unwrap());
                },
        }
        r
    }

    /// The chaining value in the byte order in which the hash function writes words.
    pub fn chain(&self) -> Vec<u8> {
        match &self.state {
            State::W32(h) => h.iter().flat_map(|x| x.to_be_bytes()).collect(),
            State::W64(h) => h.iter().flat_map(|x| x.to_be_bytes()).collect(),
            State::W5(h) if self.core == Core::Rmd160 =>
                h.iter().flat_map(|x| x.to_le_bytes()).collect(),
            State::W5(h) => h.iter().flat_map(|x| x.to_be_bytes()).collect(),
            State::Sip(v) => v.iter().flat_map(|x| x.to_le_bytes()).collect(),
        }
    }

    fn compress(&mut self, b: &[u8]) {
        let t = tables();
        match &mut self.state {
            State::W32(h) => sha256_block(h, b, &t.k256),
            State::W64(h) => sha512_block(h, b, &t.k512),
            State::W5(h) if self.core == Core::Sha1 => sha1_block(h, b),
            State::W5(h) => rmd160_block(h, b),
            State::Sip(v) => {
                let m = u64::from_le_bytes(b.try_into().unwrap());
                v[3] ^= m;
                sip_round(v);
                sip_round(v);
                v[0] ^= m;
            }
        }
    }

    pub fn update(&mut self, mut d: &[u8]) {
        let u = self.core.unit();
        self.total += d.len() as u64;
        while !d.is_empty() {
            if self.buf.is_empty() && d.len() >= u {
                self.compress(&d[..u]);
                d = &d[u..];
                continue;
            }
            let n = (u - self.buf.len()).min(d.len());
            self.buf.extend_from_slice(&d[..n]);
            d = &d[n..];
            if self.buf.len() == u {
                let b = std::mem::take(&mut self.buf);
                self.compress(&b);
            }
        }
    }

    pub fn digest(&self) -> Vec<u8> {
        let mut c = self.clone();
        if self.core == Core::Sip {
            let mut last = [0u8; 8];
            last[..c.buf.len()].copy_from_slice(&c.buf);
            last[7] = self.total as u8;
            c.compress(&last);
            if let State::Sip(v) = &mut c.state {
                v[2] ^= 0xff;
                for _ in 0..4 {
                    sip_round(v);
                }
                return (v[0] ^ v[1] ^ v[2] ^ v[3]).to_le_bytes().to_vec();
            }
        }
        let block = self.core.block();
        let lenfield = block / 8;
        let bits = self.total as u128 * 8;
        let mut pad = vec![0x80u8];
        while (self.total as usize + pad.len() + lenfield) % block != 0 {
            pad.push(0);
        }
        match self.core {
            Core::Rmd160 => pad.extend((bits as u64).to_le_bytes()),
            _ if lenfield == 8 => pad.extend((bits as u64).to_be_bytes()),
            _ => pad.extend(bits.to_be_bytes()),
        }
        c.update(&pad);
        let mut out = c.chain();
        out.truncate(self.core.out_len());
        out
    }

    pub fn hash(core: Core, d: &[u8]) -> Vec<u8> {
        let mut r = RefHash::new(core);
        r.update(d);
        r.digest()
    }
}

/// Kinds of session, numbered as in the node library.
pub const HMAC: u32 = 10;
pub const TAGGED: u32 = 20;
/// HMAC over the tagged hash with tag 1.
pub const HMAC_TAGGED: u32 = 17;
/// HMAC over an engine that the user wrote: SHA-256 applied twice.
pub const HMAC_OWN: u32 = 18;
pub const KINDS: [u32; 28] = [
    0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
];
/// A tag with a block of salt, and one with less than a block.
pub const SALTED: u32 = 30;
pub const SALTED_SHORT: u32 = 31;

pub fn core_of(kind: u32) -> Core {
    if kind >= TAGGED || kind == HMAC_TAGGED || kind == HMAC_OWN {
        Core::Sha256
    } else {
        CORES[(kind % 10) as usize]
    }
}

pub fn kind_name(kind: u32) -> String {
    const N: [&str; 9] = [
        "sha1",
        "sha256",
        "sha384",
        "sha512",
        "sha512_256",
        "ripemd160",
        "siphash24",
        "sha256t<tag1>",
        "user's engine (double sha256)",
    ];
    if kind >= TAGGED {
        format!("sha256t<tag{}>", kind - TAGGED)
    } else if kind >= HMAC {
        format!("hmac-{}", N[(kind - HMAC) as usize])
    } else {
        N[kind as usize].to_string()
    }
}

pub fn tag_bytes(kind: u32) -> Vec<u8> {
    match kind - TAGGED {
        0 => vec![],
        1 => b"BIP0340/challenge".to_vec(),
        2 | 8 | 10 | 11 => b"TapTweak".to_vec(),
        3 => vec![0x61; 55],
        4 => vec![0x62; 56],
        5 => vec![0x00; 64],
        6 => vec![0xff; 119],
        7 => vec![0x63; 200],
        9 => b"TapBranch".to_vec(),
        _ => unreachable!(),
    }
}

/// What the engine under the HMAC makes of the digest of its core.
fn under_hmac(kind: u32, d: Vec<u8>) -> Vec<u8> {
    if kind == HMAC_OWN {
        RefHash::hash(Core::Sha256, &d)
    } else {
        d
    }
}

/// Bytes that the core has absorbed in a fresh engine of this kind: the tag and the key block.
pub fn absorbed(kind: u32) -> u64 {
    match kind {
        HMAC_TAGGED | SALTED => 128,
        SALTED_SHORT => 74,
        _ if kind >= TAGGED => 64,
        _ if kind >= HMAC => core_of(kind).block() as u64,
        _ => 0,
    }
}

/// The model of one session.
#[derive(Clone, Debug)]
pub struct Model {
    pub kind: u32,
    pub inner: RefHash,
    pub outer: Option<RefHash>,
}

impl Model {
    pub fn new(kind: u32, key: &[u8], k0: u64, k1: u64) -> Model {
        let core = core_of(kind);
        if kind >= TAGGED {
            let mut m = Model::tagged(kind, &tag_bytes(kind));
            match kind {
                SALTED => m.update(&[0x5a; 64]),
                SALTED_SHORT => m.update(b"some salt!"),
                _ => {}
            }
            return m;
        }
        if kind >= HMAC {
            let fresh = match kind {
                HMAC_TAGGED => Model::new(TAGGED + 1, &[], 0, 0).inner,
                _ => RefHash::new(core),
            };
            let mut k = key.to_vec();
            if k.len() > core.block() {
                let mut h = fresh.clone();
                h.update(key);
                k = under_hmac(kind, h.digest());
            }
            k.resize(core.block(), 0);
            let (mut inner, mut outer) = (fresh.clone(), fresh);
            inner.update(&k.iter().map(|b| b ^ 0x36).collect::<Vec<_>>());
            outer.update(&k.iter().map(|b| b ^ 0x5c).collect::<Vec<_>>());
            return Model { kind, inner, outer: Some(outer) };
        }
        Model { kind, inner: RefHash::keyed(core, k0, k1), outer: None }
    }

    pub fn tagged(kind: u32, tag: &[u8]) -> Model {
        let t = RefHash::hash(Core::Sha256, tag);
        let mut inner = RefHash::new(Core::Sha256);
        inner.update(&t);
        inner.update(&t);
        Model { kind, inner, outer: None }
    }

    pub fn update(&mut self, d: &[u8]) { self.inner.update(d) }

    pub fn digest(&self) -> Vec<u8> {
        match &self.outer {
            None => self.inner.digest(),
            Some(o) => {
                let mut o = o.clone();
                o.update(&under_hmac(self.kind, self.inner.digest()));
                under_hmac(self.kind, o.digest())
            }
        }
    }

    /// At a boundary where the state can be exported?
    pub fn aligned(&self) -> bool { self.inner.total % self.inner.core.unit() as u64 == 0 }

    pub fn fill(&self) -> usize { (self.inner.total % self.inner.core.unit() as u64) as usize }

    pub fn midstate(&self) -> Vec<u8> {
        let mut m = self.inner.chain();
        if let Some(o) = &self.outer {
            m.extend(o.chain());
        }
        m
    }
}

pub fn hmac(core_kind: u32, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut m = Model::new(HMAC + core_kind % 10, key, 0, 0);
    m.update(msg);
    m.digest()
}
