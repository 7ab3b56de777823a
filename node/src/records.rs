//! Digests as durable or transmitted records: text, serde (JSON and a binary format), slices.

use std::fmt::{self, Write as _};

use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24};
use serde::{de, ser, Deserialize, Serialize};

use crate::alloc::{armed, unarmed};
use crate::script::ScriptReader;
use crate::{Call, Tag1, Tag2, ERR, OK, UNSUPPORTED};

pub const R_FMT: u32 = 30;
pub const R_PARSE: u32 = 31;
pub const R_SLICE: u32 = 32;
pub const R_CONVERT: u32 = 33;
pub const R_JSON_SER: u32 = 34;
pub const R_JSON_DE: u32 = 35;
pub const R_BIN_SER: u32 = 36;
pub const R_BIN_DE: u32 = 37;
pub const R_EQ: u32 = 38;
pub const R_CATALOG: u32 = 39;
pub const R_SCHEMA: u32 = 40;

pub trait Rec:
    Sized
    + Clone
    + Eq
    + Ord
    + std::hash::Hash
    + fmt::Display
    + fmt::Debug
    + fmt::LowerHex
    + fmt::UpperHex
    + std::str::FromStr
    + Serialize
    + for<'a> Deserialize<'a>
    + AsRef<[u8]>
{
    fn from_sl(b: &[u8]) -> Result<Self, chf::FromSliceError>;
    /// Passes the value through every byte-array conversion the type has; `None` if one of them
    /// changed it.
    fn convert(b: &[u8]) -> Option<Vec<u8>>;
    fn bytes(&self) -> Vec<u8>;
    /// Text can be read in two ways where the type has both.
    fn read(s: &str, how: u64) -> Option<Self> {
        let _ = how;
        s.parse().ok()
    }
}

macro_rules! rec {
    ($t:ty, $n:expr) => { rec!($t, $n, |_h: &$t, _a: &[u8; $n]| true); };
    ($t:ty, $n:expr, array) => {
        rec!($t, $n, |h: &$t, a: &[u8; $n]| AsRef::<[u8; $n]>::as_ref(h) == a && <$t>::LEN == $n);
    };
    ($t:ty, $n:expr, $more:expr) => {
        impl Rec for $t {
            fn from_sl(b: &[u8]) -> Result<Self, chf::FromSliceError> { <$t>::from_slice(b) }
            fn bytes(&self) -> Vec<u8> { self.as_bytes().to_vec() }
            fn convert(b: &[u8]) -> Option<Vec<u8>> {
                let mut arr: [u8; $n] = b.try_into().ok()?;
                let h = armed(|| <$t>::from_byte_array(arr));
                let mut same = h.as_byte_array() == &arr;
                same &= h.as_bytes() == b;
                same &= AsRef::<[u8]>::as_ref(&h) == b;
                same &= &h[..] == b;
                for i in 0..$n {
                    same &= h[i] == b[i];
                    same &= &h[i..] == &b[i..];
                    same &= &h[..i] == &b[..i];
                    let j = i + usize::from(b[i]) % ($n - i);
                    same &= &h[i..j] == &b[i..j];
                }
                same &= <$t>::from_bytes_ref(&arr).as_byte_array() == &arr;
                same &= <$t>::from_bytes_mut(&mut arr).to_byte_array() == arr;
                let mut other = arr;
                other.iter_mut().for_each(|x| *x = !*x);
                let mut place = arr;
                *<$t>::from_bytes_mut(&mut place) = <$t>::from_byte_array(other);
                same &= place == other;
                same &= h.to_byte_array() == arr;
                same &= $more(&h, &arr);
                same &= <$t>::all_zeros().to_byte_array() == [0u8; $n];
                #[cfg(feature = "std")]
                {
                    same &= h.to_bytes() == b;
                }
                same.then(|| h.to_byte_array().to_vec())
            }
        }
    };
}
rec!(sha1::Hash, 20, array);
rec!(sha256::Hash, 32, array);
rec!(sha384::Hash, 48, array);
rec!(sha512::Hash, 64, array);
rec!(sha512_256::Hash, 32, array);
rec!(ripemd160::Hash, 20, array);
rec!(siphash24::Hash, 8, array);
rec!(hmac::Hash<8>, 8);
rec!(hmac::Hash<20>, 20);
rec!(hmac::Hash<32>, 32);
rec!(hmac::Hash<48>, 48);
rec!(hmac::Hash<64>, 64);
rec!(sha256t::Hash<Tag1>, 32, array);
rec!(sha256t::Hash<Tag2>, 32, array);
rec!(hmac::Hash<33>, 33);
rec!(hmac::Hash<1>, 1);

/// A user's own digest type, with the serde implementations that the crate's macro makes.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Newtype(sha256::Hash);
impl Newtype {
    fn from_slice(b: &[u8]) -> Result<Self, chf::FromSliceError> { sha256::Hash::from_slice(b).map(Newtype) }
}
chf::serde_impl!(Newtype, 32);
impl std::str::FromStr for Newtype {
    type Err = <sha256::Hash as std::str::FromStr>::Err;
    fn from_str(s: &str) -> Result<Self, Self::Err> { s.parse().map(Newtype) }
}
macro_rules! delegate {
    ($($t:ident),*) => {$(
        impl fmt::$t for Newtype {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::$t::fmt(&self.0, f) }
        }
    )*};
}
delegate!(Display, Debug, LowerHex, UpperHex);
impl<I> std::ops::Index<I> for Newtype
where
    sha256::Hash: std::ops::Index<I>,
{
    type Output = <sha256::Hash as std::ops::Index<I>>::Output;
    fn index(&self, i: I) -> &Self::Output { &self.0[i] }
}
impl AsRef<[u8]> for Newtype {
    fn as_ref(&self) -> &[u8] { self.0.as_ref() }
}
impl Rec for Newtype {
    fn from_sl(b: &[u8]) -> Result<Self, chf::FromSliceError> { Newtype::from_slice(b) }
    fn bytes(&self) -> Vec<u8> { self.0.as_bytes().to_vec() }
    fn convert(b: &[u8]) -> Option<Vec<u8>> { Newtype::from_slice(b).ok().map(|h| h.bytes()) }
}

impl Rec for sha256::Midstate {
    fn from_sl(b: &[u8]) -> Result<Self, chf::FromSliceError> { sha256::Midstate::from_slice(b) }
    fn bytes(&self) -> Vec<u8> { self.to_byte_array().to_vec() }
    fn read(s: &str, how: u64) -> Option<Self> {
        if how % 2 == 1 {
            return <sha256::Midstate as chf::hex::FromHex>::from_hex(s).ok();
        }
        s.parse().ok()
    }
    fn convert(b: &[u8]) -> Option<Vec<u8>> {
        let arr: [u8; 32] = b.try_into().ok()?;
        let h = sha256::Midstate::from_byte_array(arr);
        let mut same = h.to_byte_array() == arr;
        same &= h.0 == arr;
        same &= AsRef::<[u8]>::as_ref(&h) == b;
        same &= &h[..] == b;
        for i in 0..32 {
            same &= h[i] == b[i];
            same &= &h[i..] == &b[i..];
            same &= &h[..i] == &b[..i];
        }
        same.then(|| h.to_byte_array().to_vec())
    }
}

/// A sink that takes `room` bytes and then fails; with `chop`, `std::io` writes are short and
/// interrupted now and then.
struct Sink {
    got: Vec<u8>,
    room: usize,
    chop: usize,
    calls: usize,
}
impl Sink {
    fn new(room: u64, chop: u64) -> Sink {
        Sink { got: Vec::with_capacity(1024), room: room as usize, chop: chop as usize, calls: 0 }
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        unarmed(|| {
            crate::yield_now();
            let n = s.len().min(self.room - self.got.len());
            self.got.extend_from_slice(&s.as_bytes()[..n]);
            if n < s.len() {
                Err(fmt::Error)
            } else {
                Ok(())
            }
        })
    }
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.chop != 0 && self.calls % 3 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.room - self.got.len());
        if n == 0 && !b.is_empty() {
            // Full disk.
            return Err(std::io::ErrorKind::StorageFull.into());
        }
        if self.chop != 0 {
            n = n.min(self.chop);
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn fmt_to<T: Rec, W: fmt::Write>(h: &T, style: u64, n: usize, w: &mut W) -> fmt::Result {
    let wide = 2 * n + 20;
    match style {
        6 => write!(w, "{:#X}", h),
        7 => write!(w, "{:#?}", h),
        8 => write!(w, "{:>1$}", h, wide),
        9 => write!(w, "{:<1$x}", h, wide),
        10 => write!(w, "{:-^1$X}", h, wide),
        11 => write!(w, "{:01$x}", h, wide),
        12 => write!(w, "{:1$?}", h, wide),
        13 => write!(w, "{:.1$}", h, n / 2 * 2), // odd ones go wrong in hex-conservative 0.2.0
        14 => write!(w, "{:1$.2$x}", h, wide, 2 * n + 7),
        0 => write!(w, "{}", h),
        1 => write!(w, "{:x}", h),
        2 => write!(w, "{:X}", h),
        3 => write!(w, "{:?}", h),
        4 => write!(w, "{:#}", h),
        _ => write!(w, "{:#x}", h),
    }
}

fn op<T: Rec>(c: &mut Call) -> i32 {
    match c.op {
        // a[0]: style, a[1]: room in the sink
        R_FMT => {
            let h = match T::from_sl(c.data()) {
                Ok(h) => h,
                Err(_) => return UNSUPPORTED,
            };
            let mut s = Sink::new(c.a[1], 0);
            let r = armed(|| fmt_to(&h, c.a[0], c.len, &mut s));
            c.put(&s.got);
            if r.is_ok() {
                OK
            } else {
                ERR
            }
        }
        R_PARSE => {
            let s = match std::str::from_utf8(c.data()) {
                Ok(s) => s,
                Err(_) => return UNSUPPORTED,
            };
            match armed(|| T::read(s, c.a[0])) {
                Some(h) => {
                    c.put(&h.bytes());
                    OK
                }
                None => ERR,
            }
        }
        R_SLICE => {
            let d = c.data();
            match armed(|| T::from_sl(d)) {
                Ok(h) => {
                    c.put(&h.bytes());
                    OK
                }
                Err(e) => {
                    c.ret[0] = e.expected_length() as u64;
                    c.ret[1] = e.invalid_length() as u64;
                    // The report itself has to work.
                    let mut s = Sink::new(400, 0);
                    let _ = armed(|| write!(s, "{} {:?}", e, e));
                    ERR
                }
            }
        }
        R_CONVERT => match T::convert(c.data()) {
            Some(v) => {
                c.put(&v);
                OK
            }
            None => ERR,
        },
        // a[0]: 0 to_string, 1 to_vec, 2 to_writer; a[1] room, a[2] chop; a[3]: what holds it
        R_JSON_SER => {
            let h = match T::from_sl(c.data()) {
                Ok(h) => h,
                Err(_) => return UNSUPPORTED,
            };
            match c.a[3] {
                1 => json_ser(c, &Some(h)),
                2 => json_ser(c, &vec![h]),
                3 => json_ser(c, &std::collections::BTreeMap::from([(h, true)])),
                4 => json_ser(c, &(h, 7)),
                _ => json_ser(c, &h),
            }
        }
        // a[0]: 0 from_str, 1 from_slice, 2 from_reader (script); a[3]: what holds it
        R_JSON_DE => {
            let r: Result<Option<T>, i32> = match c.a[3] {
                1 => json_de::<Option<T>>(c),
                2 => json_de::<Vec<T>>(c).map(|mut v| if v.len() == 1 { v.pop() } else { None }),
                3 => json_de::<std::collections::BTreeMap<T, bool>>(c)
                    .map(|m| if m.len() == 1 && m.values().all(|x| *x) { m.into_iter().next().map(|x| x.0) } else { None }),
                4 => json_de::<(T, u8)>(c).map(|x| (x.1 == 7).then_some(x.0)),
                _ => json_de::<T>(c).map(Some),
            };
            match r {
                Ok(Some(h)) => {
                    c.put(&h.bytes());
                    OK
                }
                Ok(None) => ERR,
                Err(e) => e,
            }
        }
        // a[0]: human readable?, a[1]: room
        R_BIN_SER => {
            let h = match T::from_sl(c.data()) {
                Ok(h) => h,
                Err(_) => return UNSUPPORTED,
            };
            let mut s = Sink::new(c.a[1], 0);
            let r = h.serialize(Raw { out: &mut s, human: c.a[0] == 1 });
            c.put(&s.got);
            match r {
                Ok(()) => OK,
                Err(_) => ERR,
            }
        }
        // a[0]: human readable?, a[1]: how the bytes are presented
        R_BIN_DE => match T::deserialize(RawDe { b: c.data(), human: c.a[0] == 1, how: c.a[1] }) {
            Ok(h) => {
                c.put(&h.bytes());
                OK
            }
            Err(_) => ERR,
        },
        R_EQ => match (T::from_sl(c.data()), T::from_sl(c.aux())) {
            (Ok(a), Ok(b)) => {
                c.ret[0] = armed(|| a == b) as u64;
                c.ret[1] = armed(|| a != b) as u64;
                c.ret[2] = armed(|| b.clone() == a) as u64;
                OK
            }
            _ => UNSUPPORTED,
        },
        R_CATALOG => catalog::<T>(c),
        _ => UNSUPPORTED,
    }
}

fn json_ser<T: Serialize>(c: &mut Call, h: &T) -> i32 {
    match c.a[0] {
        0 => match serde_json::to_string(h) {
            Ok(s) => {
                c.put(s.as_bytes());
                OK
            }
            Err(_) => ERR,
        },
        1 => match serde_json::to_vec(h) {
            Ok(s) => {
                c.put(&s);
                OK
            }
            Err(_) => ERR,
        },
        _ => {
            let mut s = Sink::new(c.a[1], c.a[2]);
            let r = serde_json::to_writer(&mut s, h);
            c.put(&s.got);
            if r.is_ok() {
                OK
            } else {
                ERR
            }
        }
    }
}

fn json_de<T: for<'a> Deserialize<'a>>(c: &Call) -> Result<T, i32> {
    let d = c.data();
    match c.a[0] {
        0 => match std::str::from_utf8(d) {
            Ok(s) => serde_json::from_str(s),
            Err(_) => return Err(UNSUPPORTED),
        },
        1 => serde_json::from_slice(d),
        _ => serde_json::from_reader(ScriptReader::new(d, c.script())),
    }
    .map_err(|_| ERR)
}

type Fixed = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;

/// Catalogues keyed by digests. data: records of one operation byte and one value; aux: the
/// catalogue's contents to start from. Output: one byte per operation, then the contents.
fn catalog<T: Rec>(c: &mut Call) -> i32 {
    use std::cmp::Ordering::*;
    use std::collections::{BTreeSet, HashSet};
    use std::hash::BuildHasher;
    let n = c.a[0] as usize;
    let mut tree: BTreeSet<T> = BTreeSet::new();
    let mut table: HashSet<T, Fixed> = HashSet::default();
    let mut list: Vec<T> = Vec::new();
    for v in c.aux().chunks(n) {
        let Ok(h) = T::from_sl(v) else { return UNSUPPORTED };
        list.push(h);
    }
    list.sort_unstable();
    list.dedup();
    tree.extend(list.iter().rev().cloned());
    table.extend(list.iter().cloned());
    let mut prev: Option<T> = None;
    for r in c.data().chunks(n + 1) {
        let Ok(h) = T::from_sl(&r[1..]) else { return UNSUPPORTED };
        let found = list.binary_search(&h);
        let bits = match r[0] {
            0 => {
                if let Err(i) = found {
                    list.insert(i, h.clone());
                }
                u8::from(tree.insert(h.clone())) | u8::from(table.insert(h.clone())) << 1 | u8::from(found.is_err()) << 2
            }
            1 => {
                if let Ok(i) = found {
                    list.remove(i);
                }
                u8::from(tree.remove(&h)) | u8::from(table.remove(&h)) << 1 | u8::from(found.is_ok()) << 2
            }
            2 => u8::from(tree.contains(&h)) | u8::from(table.contains(&h)) << 1 | u8::from(found.is_ok()) << 2,
            3 => {
                // Members below it.
                let k = tree.range(..h.clone()).count();
                c.put(&[k as u8]);
                let l = list.iter().filter(|x| **x < h).count();
                c.put(&[l as u8]);
                list.iter().filter(|x| **x >= h).count() as u8
            }
            // Against the value of the previous operation.
            _ => match &prev {
                None => 0,
                Some(p) => {
                    let o = |x| match x {
                        Less => 1u8,
                        Equal => 2,
                        Greater => 3,
                    };
                    c.put(&[
                        o(h.cmp(p)),
                        h.partial_cmp(p).map_or(0, o),
                        u8::from(h < *p) | u8::from(h <= *p) << 1 | u8::from(h > *p) << 2 | u8::from(h >= *p) << 3
                            | u8::from(h == *p) << 4 | u8::from(h != *p) << 5,
                        u8::from(std::cmp::max(&h, p) == p) | u8::from(std::cmp::min(&h, p) == p) << 1,
                    ]);
                    let f = Fixed::default();
                    u8::from(f.hash_one(&h) == f.hash_one(p))
                }
            },
        };
        c.put(&[bits]);
        prev = Some(h);
    }
    // All three have to agree; the first list is what is stored.
    let t: Vec<T> = tree.into_iter().collect();
    let mut h: Vec<T> = table.into_iter().collect();
    h.sort();
    c.ret[0] = u64::from(t == list && h == list);
    c.ret[1] = c.out_len as u64;
    for v in &list {
        c.put(&v.bytes());
    }
    OK
}

/// The schemas a generator gives for a list of fields, one after the other. a[0]: settings, a[1]: how
/// a field's schema is asked for; script: type of the field, and in the second byte how it is held
/// (itself, optional, list). Output: {"f": [schema of each field], "defs": {...}}
#[cfg(feature = "schema")]
fn schema(c: &mut Call) -> i32 {
    use schemars::gen::{SchemaGenerator, SchemaSettings};
    use schemars::JsonSchema;
    fn one<T: JsonSchema>(g: &mut SchemaGenerator, how: u64) -> serde_json::Value {
        match how {
            1 => serde_json::to_value(g.clone().into_root_schema_for::<T>()),
            2 => serde_json::to_value(g.root_schema_for::<T>()),
            _ => serde_json::to_value(g.subschema_for::<T>()),
        }
        .expect("harness: schema")
    }
    fn held<T: JsonSchema>(g: &mut SchemaGenerator, how: u64, hold: u64) -> serde_json::Value {
        match hold % 3 {
            0 => one::<T>(g, how),
            1 => one::<Option<T>>(g, how),
            _ => one::<Vec<T>>(g, how),
        }
    }
    let set = match c.a[0] % 4 {
        0 => SchemaSettings::draft07(),
        1 => SchemaSettings::openapi3(),
        2 => SchemaSettings::draft2019_09(),
        _ => SchemaSettings::draft07().with(|s| s.inline_subschemas = true),
    };
    let mut g = SchemaGenerator::new(set);
    let how = c.a[1] % 3;
    let mut f = Vec::new();
    for x in c.script() {
        let (ty, hold) = (x & 255, x >> 8 & 255);
        let s = match ty {
            0 => held::<sha1::Hash>(&mut g, how, hold),
            1 => held::<sha256::Hash>(&mut g, how, hold),
            2 => held::<sha384::Hash>(&mut g, how, hold),
            3 => held::<sha512::Hash>(&mut g, how, hold),
            4 => held::<sha512_256::Hash>(&mut g, how, hold),
            5 => held::<ripemd160::Hash>(&mut g, how, hold),
            6 => held::<siphash24::Hash>(&mut g, how, hold),
            8 => held::<hmac::Hash<8>>(&mut g, how, hold),
            9 => held::<hmac::Hash<20>>(&mut g, how, hold),
            10 => held::<hmac::Hash<32>>(&mut g, how, hold),
            11 => held::<hmac::Hash<48>>(&mut g, how, hold),
            12 => held::<hmac::Hash<64>>(&mut g, how, hold),
            13 => held::<sha256t::Hash<Tag1>>(&mut g, how, hold),
            14 => held::<sha256t::Hash<Tag2>>(&mut g, how, hold),
            15 => held::<hmac::Hash<33>>(&mut g, how, hold),
            17 => held::<hmac::Hash<1>>(&mut g, how, hold),
            _ => return UNSUPPORTED,
        };
        f.push(s);
    }
    let defs = serde_json::to_value(g.definitions()).expect("harness: definitions");
    let text = serde_json::json!({ "f": f, "defs": defs }).to_string();
    c.put(text.as_bytes());
    OK
}

pub fn dispatch(c: &mut Call) -> i32 {
    #[cfg(feature = "schema")]
    if c.op == R_SCHEMA {
        return schema(c);
    }
    match c.kind {
        0 => op::<sha1::Hash>(c),
        1 => op::<sha256::Hash>(c),
        2 => op::<sha384::Hash>(c),
        3 => op::<sha512::Hash>(c),
        4 => op::<sha512_256::Hash>(c),
        5 => op::<ripemd160::Hash>(c),
        6 => op::<siphash24::Hash>(c),
        7 => op::<sha256::Midstate>(c),
        8 => op::<hmac::Hash<8>>(c),
        9 => op::<hmac::Hash<20>>(c),
        10 => op::<hmac::Hash<32>>(c),
        11 => op::<hmac::Hash<48>>(c),
        12 => op::<hmac::Hash<64>>(c),
        13 => op::<sha256t::Hash<Tag1>>(c),
        14 => op::<sha256t::Hash<Tag2>>(c),
        15 => op::<hmac::Hash<33>>(c),
        16 => op::<Newtype>(c),
        17 => op::<hmac::Hash<1>>(c),
        _ => UNSUPPORTED,
    }
}

// ---------------------------------------------------------------------------------------------
// A minimal serde format: a value is its raw bytes, written into a sink that can fail.

#[derive(Debug)]
struct RawErr;
impl fmt::Display for RawErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("raw") }
}
impl std::error::Error for RawErr {}
impl ser::Error for RawErr {
    fn custom<T: fmt::Display>(_: T) -> Self { RawErr }
}
impl de::Error for RawErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        let _ = m.to_string(); // formatting an error must not panic either
        RawErr
    }
}

struct Raw<'a> {
    out: &'a mut Sink,
    human: bool,
}
type Imp = ser::Impossible<(), RawErr>;
macro_rules! refuse {
    ($($f:ident($($a:ident: $t:ty),*);)*) => {$(
        fn $f(self, $($a: $t),*) -> Result<(), RawErr> { $(let _ = $a;)* Err(RawErr) }
    )*};
}
impl ser::Serializer for Raw<'_> {
    type Ok = ();
    type Error = RawErr;
    type SerializeSeq = Imp;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    fn is_human_readable(&self) -> bool { self.human }
    fn serialize_str(self, v: &str) -> Result<(), RawErr> { self.out.write_str(v).map_err(|_| RawErr) }
    fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<(), RawErr> {
        write!(self.out, "{}", v).map_err(|_| RawErr)
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), RawErr> {
        let n = v.len().min(self.out.room - self.out.got.len());
        self.out.got.extend_from_slice(&v[..n]);
        if n < v.len() {
            Err(RawErr)
        } else {
            Ok(())
        }
    }
    refuse! {
        serialize_bool(v: bool); serialize_i8(v: i8); serialize_i16(v: i16); serialize_i32(v: i32);
        serialize_i64(v: i64); serialize_u8(v: u8); serialize_u16(v: u16); serialize_u32(v: u32);
        serialize_u64(v: u64); serialize_f32(v: f32); serialize_f64(v: f64); serialize_char(v: char);
        serialize_none(); serialize_unit(); serialize_unit_struct(n: &'static str);
        serialize_unit_variant(n: &'static str, i: u32, v: &'static str);
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), RawErr> { Err(RawErr) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), RawErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self, _: &'static str, _: u32, _: &'static str, _: &T,
    ) -> Result<(), RawErr> {
        Err(RawErr)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, RawErr> { Err(RawErr) }
    fn serialize_tuple(self, _: usize) -> Result<Imp, RawErr> { Err(RawErr) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, RawErr> { Err(RawErr) }
    fn serialize_tuple_variant(
        self, _: &'static str, _: u32, _: &'static str, _: usize,
    ) -> Result<Imp, RawErr> {
        Err(RawErr)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, RawErr> { Err(RawErr) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, RawErr> { Err(RawErr) }
    fn serialize_struct_variant(
        self, _: &'static str, _: u32, _: &'static str, _: usize,
    ) -> Result<Imp, RawErr> {
        Err(RawErr)
    }
}

struct Seq<'a> {
    b: &'a [u8],
    hint: Option<usize>,
}
impl<'de> de::SeqAccess<'de> for Seq<'_> {
    type Error = RawErr;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, RawErr> {
        let Some((x, rest)) = self.b.split_first() else { return Ok(None) };
        self.b = rest;
        s.deserialize(de::IntoDeserializer::<RawErr>::into_deserializer(*x)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { self.hint }
}

struct RawDe<'a> {
    b: &'a [u8],
    human: bool,
    how: u64,
}
impl<'a> RawDe<'a> {
    fn bytes<V: de::Visitor<'a>>(self, v: V) -> Result<V::Value, RawErr> {
        match self.how % 6 {
            0 => v.visit_bytes(self.b),
            1 => v.visit_borrowed_bytes(self.b),
            2 => v.visit_byte_buf(self.b.to_vec()),
            // A format without a byte string: one element per byte, or text.
            3 => v.visit_seq(Seq { b: self.b, hint: Some(self.b.len()) }),
            4 => v.visit_seq(Seq { b: self.b, hint: None }),
            _ => match std::str::from_utf8(self.b) {
                Ok(s) => v.visit_str(s),
                Err(_) => v.visit_bytes(self.b),
            },
        }
    }
    fn text<V: de::Visitor<'a>>(self, v: V) -> Result<V::Value, RawErr> {
        match std::str::from_utf8(self.b) {
            Ok(s) => match self.how % 5 {
                0 => v.visit_str(s),
                1 => v.visit_borrowed_str(s),
                2 => v.visit_string(s.to_string()),
                3 => v.visit_seq(Seq { b: self.b, hint: None }),
                _ => v.visit_bytes(self.b), // e.g. a format that keeps strings as bytes
            },
            Err(_) => v.visit_bytes(self.b),
        }
    }
    fn any<V: de::Visitor<'a>>(self, v: V) -> Result<V::Value, RawErr> {
        if self.human {
            self.text(v)
        } else {
            self.bytes(v)
        }
    }
}
impl<'de> de::Deserializer<'de> for RawDe<'de> {
    type Error = RawErr;
    fn is_human_readable(&self) -> bool { self.human }
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, RawErr> { self.any(v) }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

