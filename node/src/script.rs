//! A byte source that fails where the simulator's script says so.

use crate::{alloc::unarmed, yield_now, DELIVERED};

pub const S_DATA: u64 = 1;
pub const S_INTERRUPTED: u64 = 2;
pub const S_WOULDBLOCK: u64 = 3;
pub const S_ERROR: u64 = 4;
pub const S_PANIC: u64 = 5;
pub const S_EOF: u64 = 6;

pub enum Fault {
    Interrupted,
    WouldBlock,
    Error,
}

pub struct ScriptReader<'a> {
    data: &'a [u8],
    script: &'a [u64],
    at: usize,
}

impl<'a> ScriptReader<'a> {
    pub fn new(data: &'a [u8], script: &'a [u64]) -> Self { ScriptReader { data, script, at: 0 } }

    fn next(&mut self, buf: &mut [u8]) -> Result<usize, Fault> {
        yield_now();
        let mut n = buf.len();
        if self.at < self.script.len() {
            let e = self.script[self.at];
            self.at += 1;
            match e >> 56 {
                S_DATA => n = ((e & 0xffff_ffff) as usize).max(1).min(n),
                S_INTERRUPTED => return Err(Fault::Interrupted),
                S_WOULDBLOCK => return Err(Fault::WouldBlock),
                S_ERROR => return Err(Fault::Error),
                S_PANIC => panic!("source panicked"),
                S_EOF => n = 0,
                _ => {}
            }
        }
        n = n.min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        DELIVERED.with(|d| d.set(d.get() + n as u64));
        Ok(n)
    }
}

impl std::io::Read for ScriptReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        use std::io::ErrorKind;
        unarmed(|| self.next(buf)).map_err(|f| match f {
            Fault::Interrupted => ErrorKind::Interrupted.into(),
            Fault::WouldBlock => ErrorKind::WouldBlock.into(),
            Fault::Error => ErrorKind::ConnectionReset.into(),
        })
    }
}

impl bitcoin_io::Read for ScriptReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, bitcoin_io::Error> {
        self.next(buf).map_err(bfault)
    }
}

fn bfault(f: Fault) -> bitcoin_io::Error {
    use bitcoin_io::ErrorKind;
    match f {
        Fault::Interrupted => ErrorKind::Interrupted.into(),
        Fault::WouldBlock => ErrorKind::WouldBlock.into(),
        Fault::Error => ErrorKind::ConnectionReset.into(),
    }
}
