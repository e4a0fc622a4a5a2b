//! Shared simulated I/O device core (used by the blocking-independent async devices).
use crate::*;
use std::io;
use std::marker::PhantomPinned;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

#[derive(Debug)]
pub struct TaggedError(pub Token, pub u8);
impl std::fmt::Display for TaggedError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "tagged {} {:?}", self.1, self.0)
    }
}
impl std::error::Error for TaggedError {}

pub fn show_err(e: &io::Error) -> String {
    format!("{:?}/{:?}/{}", e.kind(), e.raw_os_error(), e)
}
pub fn show<T: std::fmt::Debug>(r: &io::Result<T>) -> String {
    match r {
        Ok(v) => format!("Ok({v:?})"),
        Err(e) => format!("Err({})", show_err(e)),
    }
}
pub fn show_poll<T: std::fmt::Debug>(r: &Poll<io::Result<T>>) -> String {
    match r {
        Poll::Pending => "Pending".into(),
        Poll::Ready(r) => format!("Ready {}", show(r)),
    }
}

pub const AKINDS: &[&str] =
    &["pending", "short", "io-error", "early-eof", "panic", "wake-old", "self-wake", "interrupted"];

/// State of one simulated asynchronous device.
pub struct ACore {
    pub v: usize,
    pub data: Vec<u8>,
    pub pos: usize,
    pub written: Vec<u8>,
    pub addr: AddrProbe,
    pub flag: bool,
    stored: Vec<Waker>,
    _token: Token,
    _pin: PhantomPinned,
}

impl ACore {
    pub fn new(v: usize) -> ACore {
        swarm(AKINDS);
        let n = [0, 1, 5, 12, 40][choose(5)];
        ACore {
            v,
            data: (0..n).map(|i| (i * 11 + v * 31 + 1) as u8).collect(),
            pos: 0,
            written: vec![],
            addr: AddrProbe::new("device"),
            flag: flip(),
            stored: vec![],
            _token: Token::new("device"),
            _pin: PhantomPinned,
        }
    }
    pub fn proj(self: Pin<&mut Self>) -> &mut Self {
        unsafe { self.get_unchecked_mut() }
    }
    /// Decides the outcome of one poll which could transfer up to `max` bytes.
    pub fn outcome(&mut self, what: &str, cx: Option<&mut Context<'_>>, max: usize) -> Poll<io::Result<usize>> {
        tick();
        self.addr.pinned();
        let wid = cx.as_ref().map(|c| waker::id_of(c));
        ev!("dev{}.{what} waker={wid:?} max={max}", self.v);
        if fault("wake-old") {
            for w in self.stored.drain(..) {
                w.wake();
            }
        }
        maybe_panic("device poll");
        if fault("pending") {
            if let Some(cx) = cx {
                if fault("self-wake") {
                    cx.waker().wake_by_ref();
                } else {
                    self.stored.push(cx.waker().clone());
                }
            }
            return Poll::Pending;
        }
        if let Some(e) = self.err() {
            return Poll::Ready(Err(e));
        }
        let mut n = max;
        if n > 1 && fault("short") {
            n = range(1, n - 1);
        }
        Poll::Ready(Ok(n))
    }
    pub fn err(&self) -> Option<io::Error> {
        if fault("interrupted") {
            return Some(io::ErrorKind::Interrupted.into());
        }
        if fault("io-error") {
            return Some(match choose(3) {
                0 => io::Error::from_raw_os_error(5),
                1 => io::Error::new(io::ErrorKind::Other, TaggedError(Token::new("error"), self.v as u8)),
                _ => io::Error::new(io::ErrorKind::WouldBlock, "odd"),
            });
        }
        None
    }
    pub fn avail(&self) -> usize {
        self.data.len().saturating_sub(self.pos)
    }
    /// read: returns the bytes to deliver
    pub fn read(&mut self, what: &str, cx: Option<&mut Context<'_>>, want: usize) -> Poll<io::Result<Vec<u8>>> {
        if fault("early-eof") {
            let p = self.pos.min(self.data.len());
            self.data.truncate(p);
        }
        let m = want.min(self.avail());
        self.outcome(what, cx, m).map(|r| {
            r.map(|n| {
                let b = self.data[self.pos..self.pos + n].to_vec();
                self.pos += n;
                b
            })
        })
    }
    pub fn write(&mut self, what: &str, cx: Option<&mut Context<'_>>, b: &[u8]) -> Poll<io::Result<usize>> {
        ev!("  data {b:?}");
        self.outcome(what, cx, b.len()).map(|r| {
            r.map(|n| {
                self.written.extend_from_slice(&b[..n]);
                n
            })
        })
    }
    pub fn unit(&mut self, what: &str, cx: Option<&mut Context<'_>>) -> Poll<io::Result<()>> {
        self.outcome(what, cx, 0).map(|r| r.map(|_| ()))
    }
    pub fn do_seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        let n = match p {
            io::SeekFrom::Start(n) => n as i64,
            io::SeekFrom::End(n) => self.data.len() as i64 + n,
            io::SeekFrom::Current(n) => self.pos as i64 + n,
        };
        if n < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as usize;
        Ok(n as u64)
    }
    pub fn wake_all(&mut self) {
        for w in self.stored.drain(..) {
            w.wake();
        }
    }
}
impl Drop for ACore {
    fn drop(&mut self) {
        self.addr.dropped();
        ev!("dev{} dropped pos={} written={:?} wakers={}", self.v, self.pos, self.written, self.stored.len());
    }
}

pub fn any_seek() -> io::SeekFrom {
    match choose(3) {
        0 => io::SeekFrom::Start(choose(30) as u64),
        1 => io::SeekFrom::End(choose(20) as i64 - 15),
        _ => io::SeekFrom::Current(choose(12) as i64 - 6),
    }
}
