//! An in-memory file for the I/O properties: shared, seekable, optionally reading and writing only a few bytes per call,
//! optionally failing.

use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex, MutexGuard};

pub struct State {
    pub data: Vec<u8>,
    pub pos: u64,
    /// at most this many bytes per read or write call (0: no limit)
    pub max: usize,
    /// writes beyond this many written bytes fail
    pub room: Option<u64>,
    pub written: u64,
    pub flushes: u64,
    pub failed: bool,
}

#[derive(Clone)]
pub struct MemFile(Arc<Mutex<State>>);

impl MemFile {
    pub fn new(data: Vec<u8>, max: usize) -> Self {
        MemFile(Arc::new(Mutex::new(State { data, pos: 0, max, room: None, written: 0, flushes: 0, failed: false })))
    }
    pub fn failing(room: u64) -> Self {
        let f = Self::new(vec![], 0);
        f.st().room = Some(room);
        f
    }
    pub fn st(&self) -> MutexGuard<'_, State> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn data(&self) -> Vec<u8> {
        self.st().data.clone()
    }
}

impl Read for MemFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.st();
        let at = (s.pos as usize).min(s.data.len());
        let mut n = buf.len().min(s.data.len() - at);
        if s.max > 0 {
            n = n.min(s.max);
        }
        buf[..n].copy_from_slice(&s.data[at..at + n]);
        s.pos += n as u64;
        Ok(n)
    }
}

impl Write for MemFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.st();
        let mut n = buf.len();
        if s.max > 0 {
            n = n.min(s.max);
        }
        if let Some(room) = s.room {
            n = n.min(room.saturating_sub(s.written) as usize);
            if n == 0 && !buf.is_empty() {
                s.failed = true;
                return Err(io::Error::new(io::ErrorKind::Other, "no space left"));
            }
        }
        let at = s.pos as usize;
        if s.data.len() < at + n {
            s.data.resize(at + n, 0);
        }
        s.data[at..at + n].copy_from_slice(&buf[..n]);
        s.pos += n as u64;
        s.written += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.st().flushes += 1;
        Ok(())
    }
}

impl Seek for MemFile {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let mut s = self.st();
        let new = match to {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::Current(d) => s.pos as i64 + d,
            SeekFrom::End(d) => s.data.len() as i64 + d,
        };
        if new < 0 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek before the start"));
        }
        s.pos = new as u64;
        Ok(s.pos)
    }
}
