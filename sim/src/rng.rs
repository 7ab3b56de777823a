//! The simulator's only source of randomness.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(mix(seed ^ 0x5851f42d4c957f2d)) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// Uniform in `0..n`; zero for `n == 0`.
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            (((self.next() >> 32) * n.min(1 << 31)) >> 32).min(n - 1)
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize] }
    /// Picks an index by weight.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, n) in w.iter().enumerate() {
            if x < *n {
                return i;
            }
            x -= n;
        }
        w.len() - 1
    }
}

/// Message contents by class; byte `pos` of a message depends on nothing else.
pub fn fill(seed: u64, class: u64, pos: u64, buf: &mut [u8]) {
    match class {
        1 => buf.fill(0),
        2 => buf.fill(0xff),
        3 => buf.fill(0x80),
        5 => {
            for (i, b) in buf.iter_mut().enumerate() {
                *b = (pos + i as u64) as u8;
            }
        }
        _ => {
            let mut i = 0;
            while i < buf.len() {
                let p = pos + i as u64;
                let w = mix(seed ^ mix(p / 8)).to_le_bytes();
                for k in (p % 8) as usize..8 {
                    if i == buf.len() {
                        break;
                    }
                    let x = w[k];
                    buf[i] = match class {
                        4 => {
                            // Lines of ASCII text.
                            if x < 8 {
                                b'\n'
                            } else {
                                b' ' + x % 94
                            }
                        }
                        6 => {
                            if x < 250 {
                                0
                            } else {
                                x
                            }
                        }
                        _ => x,
                    };
                    i += 1;
                }
            }
        }
    }
}

pub fn bytes(seed: u64, class: u64, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    fill(seed, class, 0, &mut v);
    v
}

pub fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub const FNV0: u64 = 0xcbf29ce484222325;
