//! C01: blocking std::io through generated enums on a simulated, faulty device.
#![allow(clippy::all)]
use simcore::*;
use std::io::{self, BufRead, IoSlice, IoSliceMut, Read, Seek, SeekFrom, Write};

const KINDS: &[&str] = &[
    "short-read", "short-write", "interrupted", "would-block", "io-error", "early-eof", "disk-full", "write-zero",
    "panic", "invalid-utf8",
];

#[derive(Debug)]
struct TaggedError(Token, u8);
impl std::fmt::Display for TaggedError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "tagged {} {:?}", self.1, self.0)
    }
}
impl std::error::Error for TaggedError {}

fn show_err(e: &io::Error) -> String {
    format!("{:?}/{:?}/{}", e.kind(), e.raw_os_error(), e)
}
fn show<T: std::fmt::Debug>(r: &io::Result<T>) -> String {
    match r {
        Ok(v) => format!("Ok({v:?})"),
        Err(e) => format!("Err({})", show_err(e)),
    }
}

/// The simulated device.
struct Core {
    v: usize,
    data: Vec<u8>,
    pos: usize,
    buffered: usize,
    written: Vec<u8>,
    durable: Vec<u8>,
    cap: usize,
    _token: Token,
}
impl Core {
    fn new(v: usize) -> Core {
        swarm(KINDS);
        let n = [0, 1, 3, 8, 20, 70][choose(6)];
        let text = chance(1, 2);
        let mut data: Vec<u8> = (0..n)
            .map(|i| if text { b"abc\nxyz d\n\n!"[(i * 5 + v) % 12] } else { (i * 7 + v * 31) as u8 })
            .collect();
        if fault("invalid-utf8") && n > 0 {
            data[n / 2] = 0xff;
        }
        let cap = [4, 10, 64, 200][choose(4)];
        Core { v, data, pos: 0, buffered: 0, written: vec![], durable: vec![], cap, _token: Token::new("device") }
    }
    fn err(&self) -> Option<io::Error> {
        if fault("interrupted") {
            return Some(io::ErrorKind::Interrupted.into());
        }
        if fault("would-block") {
            return Some(io::ErrorKind::WouldBlock.into());
        }
        if fault("io-error") {
            return Some(match choose(3) {
                0 => io::Error::from_raw_os_error(5),
                1 => io::Error::new(io::ErrorKind::Other, TaggedError(Token::new("error"), self.v as u8)),
                _ => io::Error::new(io::ErrorKind::TimedOut, "slow"),
            });
        }
        None
    }
    fn avail(&self) -> usize {
        self.data.len().saturating_sub(self.pos)
    }
    fn read_some(&mut self, want: usize) -> io::Result<Vec<u8>> {
        tick();
        maybe_panic("device read");
        if let Some(e) = self.err() {
            return Err(e);
        }
        let mut n = want.min(self.avail());
        if n > 0 && fault("early-eof") {
            self.data.truncate(self.pos);
            n = 0;
        }
        if n > 1 && fault("short-read") {
            n = range(1, n - 1);
        }
        let r = self.data[self.pos..self.pos + n].to_vec();
        self.pos += n;
        Ok(r)
    }
    fn write_some(&mut self, buf: &[u8]) -> io::Result<usize> {
        tick();
        maybe_panic("device write");
        if let Some(e) = self.err() {
            return Err(e);
        }
        let room = self.cap.saturating_sub(self.written.len());
        if room == 0 && !buf.is_empty() {
            count_fault("disk-full");
            return Err(io::Error::from_raw_os_error(28));
        }
        let mut n = buf.len().min(room);
        if fault("write-zero") {
            n = 0;
        }
        if n > 1 && fault("short-write") {
            n = range(1, n - 1);
        }
        self.written.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn do_flush(&mut self) -> io::Result<()> {
        tick();
        maybe_panic("device flush");
        if let Some(e) = self.err() {
            return Err(e);
        }
        self.durable = self.written.clone();
        Ok(())
    }
    fn do_seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        tick();
        maybe_panic("device seek");
        if let Some(e) = self.err() {
            return Err(e);
        }
        let n = match p {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => self.data.len() as i64 + n,
            SeekFrom::Current(n) => self.pos as i64 + n,
        };
        if n < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as usize;
        Ok(n as u64)
    }
}
impl Drop for Core {
    fn drop(&mut self) {
        // crash: only what was flushed survives
        ev!("dev{} closed pos={} written={:?} durable={:?}", self.v, self.pos, self.written, self.durable);
    }
}

macro_rules! device {
    ($Min:ident, $Full:ident) => {
        /// implements only the required methods
        struct $Min<const V: usize>(Core);
        /// overrides every method
        struct $Full<const V: usize>(Core);
        impl<const V: usize> $Min<V> {
            fn mk() -> Self { ev!("min device {V}"); $Min(Core::new(V)) }
        }
        impl<const V: usize> $Full<V> {
            fn mk() -> Self { ev!("full device {V}"); $Full(Core::new(V)) }
        }
    };
}
device!(Min, Full);

// decoys: inherent methods with the trait methods' names must never be called
#[allow(dead_code)]
impl<const V: usize> Full<V> {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { violate("inherent-method-called", "inherent read".into()); Ok(0) }
    fn write(&mut self, _: &[u8]) -> io::Result<usize> { violate("inherent-method-called", "inherent write".into()); Ok(0) }
    fn flush(&mut self) -> io::Result<()> { violate("inherent-method-called", "inherent flush".into()); Ok(()) }
    fn seek(&mut self, _: SeekFrom) -> io::Result<u64> { violate("inherent-method-called", "inherent seek".into()); Ok(0) }
    fn read_to_end(&mut self, _: &mut Vec<u8>) -> io::Result<usize> { violate("inherent-method-called", "inherent read_to_end".into()); Ok(0) }
    fn consume(&mut self, _: usize) { violate("inherent-method-called", "inherent consume".into()); }
}

fn copy_out(dst: &mut [u8], src: &[u8]) { dst[..src.len()].copy_from_slice(src); }

impl<const V: usize> Read for Min<V> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        ev!("dev{V}.read({})", b.len());
        let r = self.0.read_some(b.len())?;
        copy_out(b, &r);
        Ok(r.len())
    }
}
impl<const V: usize> Read for Full<V> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        ev!("dev{V}.read({})", b.len());
        let r = self.0.read_some(b.len())?;
        copy_out(b, &r);
        Ok(r.len())
    }
    fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        ev!("dev{V}.read_vectored({:?})", bufs.iter().map(|b| b.len()).collect::<Vec<_>>());
        let want = bufs.iter().map(|b| b.len()).sum();
        let r = self.0.read_some(want)?;
        let mut off = 0;
        for b in bufs {
            let n = b.len().min(r.len() - off);
            b[..n].copy_from_slice(&r[off..off + n]);
            off += n;
        }
        Ok(r.len())
    }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
        ev!("dev{V}.read_to_end(len {})", buf.len());
        let mut n = 0;
        loop {
            let r = self.0.read_some(5)?;
            if r.is_empty() { return Ok(n); }
            n += r.len();
            buf.extend_from_slice(&r);
        }
    }
    fn read_to_string(&mut self, buf: &mut String) -> io::Result<usize> {
        ev!("dev{V}.read_to_string(len {})", buf.len());
        let r = self.0.read_some(usize::MAX)?;
        let s = String::from_utf8(r).map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "device: not utf8"))?;
        buf.push_str(&s);
        Ok(s.len())
    }
    fn read_exact(&mut self, b: &mut [u8]) -> io::Result<()> {
        ev!("dev{V}.read_exact({})", b.len());
        let r = self.0.read_some(b.len())?;
        copy_out(b, &r);
        if r.len() < b.len() { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "device: partial")); }
        Ok(())
    }
}
macro_rules! bufread {
    ($T:ident, { $($extra:tt)* }) => {
        impl<const V: usize> BufRead for $T<V> {
            fn fill_buf(&mut self) -> io::Result<&[u8]> {
                ev!("dev{V}.fill_buf");
                tick();
                maybe_panic("device fill_buf");
                if let Some(e) = self.0.err() { return Err(e); }
                let n = self.0.avail().min(if fault("short-read") { 1 } else { 16 });
                self.0.buffered = n;
                let p = self.0.pos;
                Ok(&self.0.data[p.min(self.0.data.len())..][..n])
            }
            fn consume(&mut self, amt: usize) {
                ev!("dev{V}.consume({amt})");
                maybe_panic("device consume");
                let n = amt.min(self.0.avail());
                self.0.pos += n;
            }
            $($extra)*
        }
    };
}
bufread!(Min, {});
bufread!(Full, {
    fn read_until(&mut self, byte: u8, buf: &mut Vec<u8>) -> io::Result<usize> {
        ev!("dev{V}.read_until({byte}, len {})", buf.len());
        let mut n = 0;
        loop {
            let r = self.0.read_some(1)?;
            if r.is_empty() { return Ok(n); }
            buf.push(r[0]);
            n += 1;
            if r[0] == byte { return Ok(n); }
        }
    }
    fn read_line(&mut self, buf: &mut String) -> io::Result<usize> {
        ev!("dev{V}.read_line(len {})", buf.len());
        let r = self.0.read_some(7)?;
        let s = String::from_utf8_lossy(&r).into_owned();
        buf.push_str(&s);
        Ok(r.len())
    }
});
impl<const V: usize> Write for Min<V> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        ev!("dev{V}.write({b:?})");
        self.0.write_some(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        ev!("dev{V}.flush");
        self.0.do_flush()
    }
}
impl<const V: usize> Write for Full<V> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        ev!("dev{V}.write({b:?})");
        self.0.write_some(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        ev!("dev{V}.flush");
        self.0.do_flush()
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        ev!("dev{V}.write_vectored({:?})", bufs.iter().map(|b| b.to_vec()).collect::<Vec<_>>());
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        self.0.write_some(&all)
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        ev!("dev{V}.write_all({b:?})");
        let n = self.0.write_some(b)?;
        if n < b.len() { return Err(io::Error::new(io::ErrorKind::WriteZero, "device: torn")); }
        Ok(())
    }
    fn write_fmt(&mut self, a: std::fmt::Arguments<'_>) -> io::Result<()> {
        let s = a.to_string();
        ev!("dev{V}.write_fmt({s:?})");
        let n = self.0.write_some(s.as_bytes())?;
        if n < s.len() { return Err(io::Error::new(io::ErrorKind::WriteZero, "device: torn fmt")); }
        Ok(())
    }
}
macro_rules! seek {
    ($T:ident, { $($extra:tt)* }) => {
        impl<const V: usize> Seek for $T<V> {
            fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
                ev!("dev{V}.seek({p:?})");
                self.0.do_seek(p)
            }
            $($extra)*
        }
    };
}
seek!(Min, {});
seek!(Full, {});

// ------------------------------------------------------------ shapes

enum_shapes!(read_min, [Read], Min);
enum_shapes!(read_full, [io::Read], Full);
enum_shapes!(bufread_min, [BufRead], Min);
enum_shapes!(bufread_full, [io::BufRead, io::Read], Full);
enum_shapes!(write_min, [io::Write], Min);
enum_shapes!(write_full, [Write], Full);
enum_shapes!(seek_full, [io::Seek], Full);
enum_shapes!(all_min, [Seek, Write, BufRead, Read], Min);
enum_shapes!(all_full, [Read, Write, Seek, BufRead], Full);

/// shapes over references, boxes and lifetimes
#[allow(dead_code)]
mod ptr {
    #[auto_enums::enum_derive(Read, BufRead, Write, Seek)]
    pub enum L<'a, 'b: 'a, T: 'a, U> where U: ?Sized + 'b { Mut(&'a mut T), Boxed(Box<T>), Own(T), Dyn(&'b mut U) }
}

// ------------------------------------------------------------ drivers

fn ops_len() -> usize { range(1, 9) }

fn prefix() -> Vec<u8> { vec![9; choose(3)] }

fn read_op<T: Read>(t: &mut T) {
    match choose(9) {
        0 => {
            let mut b = vec![0xEE; choose(9)];
            let r = Read::read(t, &mut b);
            ev!("read -> {} {b:?}", show(&r));
        }
        1 => {
            let k = choose(4);
            let mut bs: Vec<Vec<u8>> = (0..k).map(|_| vec![0xEE; choose(5)]).collect();
            let r = {
                let mut sl: Vec<IoSliceMut<'_>> = bs.iter_mut().map(|b| IoSliceMut::new(b)).collect();
                t.read_vectored(&mut sl)
            };
            ev!("read_vectored -> {} {bs:?}", show(&r));
        }
        2 => {
            let mut b = prefix();
            let r = t.read_to_end(&mut b);
            ev!("read_to_end -> {} {b:?}", show(&r));
        }
        3 => {
            let mut s = String::from(["", "k"][choose(2)]);
            let r = t.read_to_string(&mut s);
            ev!("read_to_string -> {} {s:?}", show(&r));
        }
        4 => {
            let mut b = vec![0xEE; choose(12)];
            let r = t.read_exact(&mut b);
            ev!("read_exact -> {} {b:?}", show(&r));
        }
        5 => {
            let n = choose(10) as u64;
            let mut b = vec![];
            let r = t.by_ref().take(n).read_to_end(&mut b);
            ev!("take({n}).read_to_end -> {} {b:?}", show(&r));
        }
        6 => {
            let r: Vec<_> = t.by_ref().bytes().take(3).map(|r| show(&r)).collect();
            ev!("bytes -> {r:?}");
        }
        7 => {
            let mut out = vec![];
            let r = io::copy(t, &mut out);
            ev!("copy -> {} {out:?}", show(&r));
        }
        _ => {
            let mut b = vec![0xEE; 6];
            let r = t.by_ref().chain(&b"tail"[..]).read_exact(&mut b);
            ev!("chain.read_exact -> {} {b:?}", show(&r));
        }
    }
}
fn bufread_op<T: BufRead>(t: &mut T) {
    match choose(7) {
        0 => {
            let r = t.fill_buf().map(|b| b.to_vec());
            ev!("fill_buf -> {}", show(&r));
            let n = r.map(|b| b.len()).unwrap_or(0);
            if n > 0 {
                let k = choose(n + 1);
                t.consume(k);
                ev!("consume({k}) done");
            }
        }
        1 => {
            let b = [b'\n', b'x', 0xff][choose(3)];
            let mut v = prefix();
            let r = t.read_until(b, &mut v);
            ev!("read_until({b}) -> {} {v:?}", show(&r));
        }
        2 => {
            let mut s = String::from(["", "k"][choose(2)]);
            let r = t.read_line(&mut s);
            ev!("read_line -> {} {s:?}", show(&r));
        }
        3 => {
            let r: Vec<_> = t.by_ref().lines().take(2).map(|r| show(&r)).collect();
            ev!("lines -> {r:?}");
        }
        4 => {
            let r: Vec<_> = t.by_ref().split(b'b').take(2).map(|r| show(&r)).collect();
            ev!("split -> {r:?}");
        }
        5 => {
            t.consume(0);
        }
        _ => read_op(t),
    }
}
fn write_op<T: Write>(t: &mut T) {
    let tag = (choose(20) + 65) as u8;
    match choose(8) {
        0 => {
            let r = Write::write(t, &vec![tag; choose(9)]);
            ev!("write -> {}", show(&r));
        }
        1 => {
            let bs: Vec<Vec<u8>> = (0..choose(4)).map(|i| vec![tag + i as u8; choose(4)]).collect();
            let sl: Vec<IoSlice<'_>> = bs.iter().map(|b| IoSlice::new(b)).collect();
            let r = t.write_vectored(&sl);
            ev!("write_vectored -> {}", show(&r));
        }
        2 => {
            let r = t.write_all(&vec![tag; choose(9)]);
            ev!("write_all -> {}", show(&r));
        }
        3 => {
            let n = choose(5);
            let r = write!(t, "<{:>w$}|{:?}>", tag, "x\n", w = n);
            ev!("write_fmt -> {}", show(&r));
        }
        4 => {
            let r = t.write_fmt(format_args!("plain"));
            ev!("write_fmt plain -> {}", show(&r));
        }
        5 => {
            let mut w = io::LineWriter::new(t.by_ref());
            let r = w.write_all(b"ab\ncd").and_then(|_| w.flush());
            ev!("linewriter -> {}", show(&r));
        }
        6 => {
            let r = io::copy(&mut &b"copied bytes"[..], t);
            ev!("copy into -> {}", show(&r));
        }
        _ => {
            let r = Write::flush(t);
            ev!("flush -> {}", show(&r));
        }
    }
}
fn seek_op<T: Seek>(t: &mut T) {
    match choose(4) {
        0 => {
            let p = match choose(3) {
                0 => SeekFrom::Start(choose(30) as u64),
                1 => SeekFrom::End(choose(20) as i64 - 15),
                _ => SeekFrom::Current(choose(12) as i64 - 6),
            };
            let r = Seek::seek(t, p);
            ev!("seek -> {}", show(&r));
        }
        1 => ev!("rewind -> {}", show(&t.rewind())),
        2 => ev!("stream_position -> {}", show(&t.stream_position())),
        _ => ev!("seek_relative -> {}", show(&t.seek_relative(choose(5) as i64 - 2))),
    }
}
fn history<T>(mut t: T, op: impl Fn(&mut T)) {
    for i in 0..ops_len() {
        catch(&format!("op {i}"), || op(&mut t));
    }
    ev!("drop device");
    drop(t);
}
fn drive_read<T: Read>(t: T) { history(t, |t| read_op(t)) }
fn drive_bufread<T: BufRead>(t: T) { history(t, |t| bufread_op(t)) }
fn drive_write<T: Write>(t: T) { history(t, |t| write_op(t)) }
fn drive_seek<T: Seek>(t: T) { history(t, |t| seek_op(t)) }
fn drive_all<T: Read + Write + Seek + BufRead>(t: T) {
    history(t, |t| match choose(4) {
        0 => read_op(t),
        1 => bufread_op(t),
        2 => write_op(t),
        _ => seek_op(t),
    })
}

fn s_read_min() { drive_shapes!(read_min, Min, drive_read) }
fn s_read_full() { drive_shapes!(read_full, Full, drive_read) }
fn s_bufread_min() { drive_shapes!(bufread_min, Min, drive_bufread) }
fn s_bufread_full() { drive_shapes!(bufread_full, Full, drive_bufread) }
fn s_write_min() { drive_shapes!(write_min, Min, drive_write) }
fn s_write_full() { drive_shapes!(write_full, Full, drive_write) }
fn s_seek_full() { drive_shapes!(seek_full, Full, drive_seek) }
fn s_all_min() { drive_shapes!(all_min, Min, drive_all) }
fn s_all_full() { drive_shapes!(all_full, Full, drive_all) }

trait Rwsb: Read + Write + Seek + BufRead {}
impl<T: Read + Write + Seek + BufRead> Rwsb for T {}

fn s_ptr() {
    let mut a = Full::<0>::mk();
    let mut b = Min::<1>::mk();
    let b: &mut dyn Rwsb = &mut b;
    type L<'a, 'b> = ptr::L<'a, 'b, Full<0>, dyn Rwsb + 'b>;
    match choose(4) {
        0 => if is_ref() { drive_all(&mut a) } else { drive_all(L::Mut(&mut a)) },
        1 => if is_ref() { drive_all(Box::new(a)) } else { drive_all(L::Boxed(Box::new(a))) },
        2 => if is_ref() { drive_all(a) } else { drive_all(L::Own(a)) },
        _ => if is_ref() { drive_all(&mut *b) } else { drive_all(L::Dyn(&mut *b)) },
    }
}

// anonymous enums
#[auto_enums::auto_enum(Read, Write, Seek, BufRead)]
fn anon(v: usize) -> impl Read + Write + Seek + BufRead {
    match v {
        0 => Full::<0>::mk(),
        1 => Min::<1>::mk(),
        _ => {
            if v == 2 {
                return Full::<2>::mk();
            }
            Min::<3>::mk()
        }
    }
}
fn s_anon() {
    let v = choose(4);
    if is_ref() {
        match v {
            0 => drive_all(Full::<0>::mk()),
            1 => drive_all(Min::<1>::mk()),
            2 => drive_all(Full::<2>::mk()),
            _ => drive_all(Min::<3>::mk()),
        }
    } else {
        drive_all(anon(v))
    }
}

fn main() {
    main_with(&[
        Scenario { name: "read_min", run: s_read_min, weight: 1 },
        Scenario { name: "read_full", run: s_read_full, weight: 1 },
        Scenario { name: "bufread_min", run: s_bufread_min, weight: 1 },
        Scenario { name: "bufread_full", run: s_bufread_full, weight: 1 },
        Scenario { name: "write_min", run: s_write_min, weight: 1 },
        Scenario { name: "write_full", run: s_write_full, weight: 1 },
        Scenario { name: "seek_full", run: s_seek_full, weight: 1 },
        Scenario { name: "all_min", run: s_all_min, weight: 2 },
        Scenario { name: "all_full", run: s_all_full, weight: 2 },
        Scenario { name: "pointers", run: s_ptr, weight: 1 },
        Scenario { name: "anonymous", run: s_anon, weight: 1 },
    ]);
}
