//! C20: no hidden work. Devices that need no memory are used through generated enums while every
//! allocation fails; devices that cope with failing allocations meet them at seeded places; and a
//! device calls further enums from inside its own methods (on this and on another thread), which a
//! hidden lock, cell or guard would not survive.
#![allow(clippy::all)]
#![feature(fn_traits, unboxed_closures)]
use simcore::alloc::fallible;
use simcore::*;
use std::cell::Cell;
use std::fmt::{self, Debug, Display};
use std::future::Future;
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};
use std::pin::Pin;
use std::task::{Context, Poll};

const KINDS: &[&str] = &["panic", "io-error", "pending"];

// ------------------------------------------------------------------ devices

/// Everything in place: no pointer, no heap. Logs into the simulator.
pub struct Pod<const V: usize> {
    tok: Token,
    left: u32,
    calls: u32,
    out: [u8; 24],
    n: usize,
    /// what a call does on the way: nothing, or use other enums
    nested: u8,
    grow: Vec<u8>,
}
impl<const V: usize> Pod<V> {
    fn mk() -> Self {
        swarm(KINDS);
        set_rate("alloc-fail", [0, 20, 80, 256][choose(4)]);
        let nested = if NESTED.with(|n| n.get()) { 1 + choose(3) as u8 } else { 0 };
        Pod { tok: Token::new("pod"), left: choose(6) as u32, calls: 0, out: [0; 24], n: 0, nested, grow: Vec::new() }
    }
    fn enter(&mut self, what: &'static str) -> io::Result<()> {
        tick();
        self.tok.check();
        self.calls += 1;
        ev!("pod{V}.{what} #{} left {}", self.calls, self.left);
        maybe_panic(what);
        self.deeper();
        if fault("io-error") { return Err(io::ErrorKind::TimedOut.into()) }
        Ok(())
    }
    fn deeper(&self) { inside(self.nested, what_inside) }
    fn step(&mut self) -> Option<u32> {
        if self.left == 0 { return None }
        self.left -= 1;
        Some(self.left * 10 + V as u32)
    }
}
thread_local! { static NESTED: Cell<bool> = const { Cell::new(false) }; }

impl<const V: usize> Read for Pod<V> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.enter("read")?;
        match (b.first_mut(), self.step()) { (Some(x), Some(v)) => { *x = b'a' + v as u8 % 26; Ok(1) } _ => Ok(0) }
    }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
        self.enter("read_to_end")?;
        let mut n = 0;
        while let Some(v) = self.step() {
            // grows by itself, and may not be able to
            buf.try_reserve_exact(7).map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
            buf.extend_from_slice(&[b'a' + v as u8 % 26; 7]);
            n += 7;
        }
        Ok(n)
    }
    fn read_to_string(&mut self, buf: &mut String) -> io::Result<usize> {
        self.enter("read_to_string")?;
        let mut n = 0;
        while let Some(_) = self.step() {
            buf.try_reserve_exact(5).map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
            buf.push_str("hello");
            n += 5;
        }
        Ok(n)
    }
}
impl<const V: usize> BufRead for Pod<V> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> { self.enter("fill_buf")?; Ok(&b"abcdef"[..self.left as usize % 6]) }
    fn consume(&mut self, n: usize) { let _ = self.enter("consume"); self.left = self.left.saturating_sub(n as u32) }
}
impl<const V: usize> Write for Pod<V> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.enter("write")?;
        let k = b.len().min(24 - self.n).min(3);
        self.out[self.n..self.n + k].copy_from_slice(&b[..k]);
        self.n += k;
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> { self.enter("flush") }
}
impl<const V: usize> Seek for Pod<V> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.enter("seek")?; if let SeekFrom::Start(n) = p { self.left = n as u32 % 7 } Ok(self.left as u64) }
}
impl<const V: usize> Iterator for Pod<V> {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { let _ = self.enter("next"); self.step() }
    fn size_hint(&self) -> (usize, Option<usize>) { ev!("pod{V}.size_hint"); (self.left as usize, Some(self.left as usize)) }
}
impl<const V: usize> DoubleEndedIterator for Pod<V> { fn next_back(&mut self) -> Option<u32> { let _ = self.enter("next_back"); self.step() } }
impl<const V: usize> ExactSizeIterator for Pod<V> {}
impl<const V: usize> Future for Pod<V> {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        let _ = self.enter("poll");
        if self.left > 0 && fault("pending") { self.left -= 1; cx.waker().wake_by_ref(); return Poll::Pending }
        Poll::Ready(self.left)
    }
}
impl<const V: usize> futures::Stream for Pod<V> {
    type Item = u32;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        let _ = self.enter("poll_next");
        if fault("pending") { cx.waker().wake_by_ref(); return Poll::Pending }
        Poll::Ready(self.step())
    }
}
impl<const V: usize> futures::Sink<u32> for Pod<V> {
    type Error = u32;
    fn poll_ready(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), u32>> { Poll::Ready(self.enter("poll_ready").map_err(|_| 1)) }
    fn start_send(mut self: Pin<&mut Self>, i: u32) -> Result<(), u32> {
        let _ = self.enter("start_send");
        self.grow.try_reserve_exact(1).map_err(|_| 2u32)?;
        self.grow.push(i as u8);
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), u32>> { Poll::Ready(self.enter("poll_flush").map_err(|_| 3)) }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), u32>> { Poll::Ready(self.enter("poll_close").map_err(|_| 4)) }
}
macro_rules! shown { ($($T:ident)*) => {$( impl<const V: usize> fmt::$T for Pod<V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { tick(); ev!("pod{V}.{}", stringify!($T)); maybe_panic("fmt"); self.deeper(); f.pad("text")?; write!(f, "{}", self.left) }
} )*}; }
shown!(Display Debug LowerHex UpperHex Binary Octal LowerExp UpperExp Pointer);
impl<const V: usize> fmt::Write for Pod<V> { fn write_str(&mut self, s: &str) -> fmt::Result { self.enter("write_str").map_err(|_| fmt::Error)?; self.n += s.len(); Ok(()) } }
impl<const V: usize> std::error::Error for Pod<V> {}
impl<const V: usize> FnOnce<(u32,)> for Pod<V> { type Output = u32; extern "rust-call" fn call_once(self, a: (u32,)) -> u32 { Fn::call(&self, a) } }
impl<const V: usize> FnMut<(u32,)> for Pod<V> { extern "rust-call" fn call_mut(&mut self, a: (u32,)) -> u32 { let _ = self.enter("call_mut"); Fn::call(&*self, a) } }
impl<const V: usize> Fn<(u32,)> for Pod<V> { extern "rust-call" fn call(&self, (a,): (u32,)) -> u32 { tick(); ev!("pod{V}.call {a}"); maybe_panic("call"); self.deeper(); a + V as u32 } }
impl<const V: usize> std::ops::Deref for Pod<V> { type Target = u32; fn deref(&self) -> &u32 { ev!("pod{V}.deref"); self.deeper(); &self.left } }
impl<const V: usize> std::ops::DerefMut for Pod<V> { fn deref_mut(&mut self) -> &mut u32 { let _ = self.enter("deref_mut"); &mut self.left } }
impl<const V: usize> AsRef<u32> for Pod<V> { fn as_ref(&self) -> &u32 { ev!("pod{V}.as_ref"); self.deeper(); &self.left } }
impl<const V: usize> AsMut<u32> for Pod<V> { fn as_mut(&mut self) -> &mut u32 { let _ = self.enter("as_mut"); &mut self.left } }
impl<const V: usize> std::ops::Index<usize> for Pod<V> { type Output = u8; fn index(&self, i: usize) -> &u8 { ev!("pod{V}.index {i}"); self.deeper(); &self.out[i] } }
impl<const V: usize> std::ops::IndexMut<usize> for Pod<V> { fn index_mut(&mut self, i: usize) -> &mut u8 { let _ = self.enter("index_mut"); &mut self.out[i] } }
impl<const V: usize> std::ops::RangeBounds<u32> for Pod<V> {
    fn start_bound(&self) -> std::ops::Bound<&u32> { self.deeper(); std::ops::Bound::Included(&self.calls) }
    fn end_bound(&self) -> std::ops::Bound<&u32> { self.deeper(); std::ops::Bound::Excluded(&self.left) }
}
impl<const V: usize> Extend<u32> for Pod<V> {
    fn extend<T: IntoIterator<Item = u32>>(&mut self, t: T) {
        let _ = self.enter("extend");
        for x in t { if self.grow.try_reserve_exact(1).is_ok() { self.grow.push(x as u8) } else { ev!("no room for {x}") } }
    }
}
impl<const V: usize> serde::Serialize for Pod<V> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { ev!("pod{V}.serialize"); self.deeper(); s.serialize_u32(self.left) }
}

// ------------------------------------------------------------------ enums

enum_shapes!(io_, [BufRead, Write, Seek], Pod);
enum_shapes!(iter_, [DoubleEndedIterator, ExactSizeIterator], Pod);
enum_shapes!(fut_, [Future, futures03::Stream], Pod);
generic_shapes!(sink_, [futures03::Sink], Pod);
enum_shapes!(fmt_, [Display, fmt::Debug, fmt::LowerHex, fmt::UpperHex, fmt::Binary, fmt::Octal, fmt::LowerExp, fmt::UpperExp, fmt::Pointer, fmt::Write, serde::Serialize], Pod);
enum_shapes!(error_, [Error], Pod);
generic_shapes!(call_, [Fn], Pod);
enum_shapes!(deref_, [DerefMut], Pod);
generic_shapes!(conv_, [AsRef, AsMut, Index, IndexMut, RangeBounds, Extend], Pod);

/// operations within which no allocation succeeds (or, as the run has it, not all)
fn op<R: Debug>(what: &str, f: impl FnOnce() -> R) {
    catch(what, || {
        let r = fallible(f);
        ev!("{what} -> {r:?}");
    });
}
struct Fixed([u8; 64], usize);
impl fmt::Write for Fixed {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let b = s.as_bytes();
        if self.1 + b.len() > 64 { return Err(fmt::Error) }
        self.0[self.1..self.1 + b.len()].copy_from_slice(b);
        self.1 += b.len();
        Ok(())
    }
}
/// a string that copes with failing allocations
struct Growing(String);
impl fmt::Write for Growing {
    fn write_str(&mut self, s: &str) -> fmt::Result { self.0.try_reserve_exact(s.len()).map_err(|_| fmt::Error)?; self.0.push_str(s); Ok(()) }
}

fn d_io<T: BufRead + Write + Seek>(mut t: T) {
    for _ in 0..1 + choose(6) {
        match choose(10) {
            0 => op("read", || { let mut b = [0; 4]; t.read(&mut b).map(|n| (n, b)).map_err(|e| e.kind()) }),
            1 => op("read_exact", || { let mut b = [0; 2]; t.read_exact(&mut b).map(|_| b).map_err(|e| e.kind()) }),
            2 => { let mut v = Vec::new(); op("read_to_end", || t.read_to_end(&mut v).map_err(|e| e.kind())); ev!("{v:?} {}", v.capacity()) }
            3 => { let mut v = String::new(); op("read_to_string", || t.read_to_string(&mut v).map_err(|e| e.kind())); ev!("{v:?} {}", v.capacity()) }
            4 => op("fill_buf", || t.fill_buf().map(|b| b.len()).map_err(|e| e.kind())),
            5 => op("consume", || t.consume(1)),
            6 => op("write_all", || t.write_all(b"12345").map_err(|e| e.kind())),
            7 => op("write_fmt", || write!(t, "{:>4}", 7).map_err(|e| e.kind())),
            8 => op("vectored", || { let mut b = [0; 2]; t.read_vectored(&mut [io::IoSliceMut::new(&mut b)]).map(|n| (n, b)).map_err(|e| e.kind()) }),
            _ => op("seek", || { let p = choose(9) as u64; t.seek(SeekFrom::Start(p)).and_then(|_| t.stream_position()).and_then(|n| t.flush().map(|_| n)).map_err(|e| e.kind()) }),
        }
    }
    op("drop", || drop(t));
}
fn d_iter<T: DoubleEndedIterator<Item = u32> + ExactSizeIterator>(mut t: T) {
    for _ in 0..1 + choose(5) {
        match choose(9) {
            0 => op("next", || t.next()),
            1 => op("next_back", || t.next_back()),
            2 => op("nth", || t.nth(1)),
            3 => op("len", || t.len()),
            4 => op("try_fold", || t.try_fold(0u32, |a, x| if x > 30 { Err(a) } else { Ok(a + x) })),
            5 => op("rfind", || t.rfind(|x| x % 2 == 0)),
            6 => op("any", || t.any(|x| x > 20)),
            7 => op("collected", || { let mut v = [0; 3]; let mut n = 0; for x in t.by_ref().take(3) { v[n] = x; n += 1 } (v, n) }),
            _ => op("position", || t.position(|x| x == 11)),
        }
    }
    match choose(4) { 0 => op("sum", || t.sum::<u32>()), 1 => op("count", || t.count()), 2 => op("rfold", || t.rev().fold(1, |a, x| a * 3 % 97 + x)), _ => op("last", || t.max()) }
}
fn d_fut<T: Future<Output = u32> + futures::Stream<Item = u32>>(t: T) {
    let mut t = Box::pin(t);
    for i in 0..1 + choose(6) {
        if flip() { op("poll", || waker::poll_with(i, |cx| t.as_mut().poll(cx))) } else { op("poll_next", || waker::poll_with(i, |cx| (t.size_hint().0, t.as_mut().poll_next(cx)))) }
    }
    op("drop", || drop(t));
}
fn d_sink<T: futures::Sink<u32, Error = u32>>(t: T) {
    let mut t = Box::pin(t);
    for i in 0..1 + choose(6) {
        match choose(4) {
            0 => op("ready", || waker::poll_with(i, |cx| t.as_mut().poll_ready(cx))),
            1 => op("send", || t.as_mut().start_send(i as u32)),
            2 => op("flush", || waker::poll_with(i, |cx| t.as_mut().poll_flush(cx))),
            _ => op("close", || waker::poll_with(i, |cx| t.as_mut().poll_close(cx))),
        }
    }
    op("drop", || drop(t));
}
fn d_fmt<T: Display + Debug + fmt::LowerHex + fmt::UpperHex + fmt::Binary + fmt::Octal + fmt::LowerExp + fmt::UpperExp + fmt::Pointer + fmt::Write + serde::Serialize>(mut t: T) {
    use fmt::Write as _;
    for _ in 0..1 + choose(5) {
        let mut f = Fixed([0; 64], 0);
        let mut g = Growing(String::new());
        match choose(6) {
            0 => op("fixed", || (write!(f, "{t:>7}|{t:?}|{t:x}|{t:X}"), f.1)),
            1 => op("fixed", || (write!(f, "{t:b}|{t:o}|{t:e}|{t:E}|{t:p}"), f.1)),
            2 => { op("growing", || write!(g, "{t:>9}|{t:?}|{t:^12b}")); ev!("{:?}", g.0) }
            3 => op("write_str", || t.write_str("abc")),
            4 => op("write_fmt", || write!(t, "{}-{}", 1, 2)),
            _ => op("serialize", || serde::Serialize::serialize(&t, &mut fmt_ser::Null).is_ok()),
        }
    }
}
macro_rules! serde_fail { ($($f:ident $t:ty),*) => {$( fn $f(self, _: $t) -> Result<u32, std::fmt::Error> { Err(std::fmt::Error) } )*}; }
mod fmt_ser {
    /// takes a u32, nothing else
    pub struct Null;
    impl<'a> serde::Serializer for &'a mut Null {
        type Ok = u32;
        type Error = std::fmt::Error;
        type SerializeSeq = serde::ser::Impossible<u32, std::fmt::Error>;
        type SerializeTuple = serde::ser::Impossible<u32, std::fmt::Error>;
        type SerializeTupleStruct = serde::ser::Impossible<u32, std::fmt::Error>;
        type SerializeTupleVariant = serde::ser::Impossible<u32, std::fmt::Error>;
        type SerializeMap = serde::ser::Impossible<u32, std::fmt::Error>;
        type SerializeStruct = serde::ser::Impossible<u32, std::fmt::Error>;
        type SerializeStructVariant = serde::ser::Impossible<u32, std::fmt::Error>;
        fn serialize_u32(self, v: u32) -> Result<u32, std::fmt::Error> { simcore::ev!("serialized {v}"); Ok(v) }
        serde_fail! { serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str }
        fn serialize_none(self) -> Result<u32, std::fmt::Error> { Err(std::fmt::Error) }
        fn serialize_unit(self) -> Result<u32, std::fmt::Error> { Err(std::fmt::Error) }
        fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<u32, std::fmt::Error> { Err(std::fmt::Error) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<u32, std::fmt::Error> { Err(std::fmt::Error) }
        fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<u32, std::fmt::Error> { Err(std::fmt::Error) }
        fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<u32, std::fmt::Error> { Err(std::fmt::Error) }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, std::fmt::Error> { Err(std::fmt::Error) }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, std::fmt::Error> { Err(std::fmt::Error) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, std::fmt::Error> { Err(std::fmt::Error) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, std::fmt::Error> { Err(std::fmt::Error) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, std::fmt::Error> { Err(std::fmt::Error) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, std::fmt::Error> { Err(std::fmt::Error) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, std::fmt::Error> { Err(std::fmt::Error) }
    }
}
fn d_error<T: std::error::Error>(t: T) {
    op("source", || { let _ = t.source(); });
    let mut f = Fixed([0; 64], 0);
    use fmt::Write as _;
    op("shown", || (write!(f, "{t}|{t:?}"), f.1));
}
fn d_call<T: Fn(u32) -> u32>(mut t: T) {
    for i in 0..1 + choose(4) as u32 {
        if flip() { op("call", || t(i)) } else { op("call_mut", || FnMut::call_mut(&mut t, (i,))) }
    }
    op("call_once", || FnOnce::call_once(t, (7,)));
}
fn d_deref<T: std::ops::DerefMut<Target = u32>>(mut t: T) {
    for _ in 0..1 + choose(4) { if flip() { op("deref", || *t) } else { op("deref_mut", || { *t = 3 }) } }
}
fn d_conv<T: AsRef<u32> + AsMut<u32> + std::ops::IndexMut<usize, Output = u8> + std::ops::RangeBounds<u32> + Extend<u32>>(mut t: T) {
    for i in 0..1 + choose(5) {
        match choose(6) {
            0 => op("as_ref", || *t.as_ref()),
            1 => op("as_mut", || { *t.as_mut() += 1 }),
            2 => op("index", || t[i]),
            3 => op("index_mut", || { t[i] = 4; t[i] }),
            4 => op("contains", || t.contains(&2)),
            _ => op("extend", || t.extend([1, 2, 3])),
        }
    }
}

// ------------------------------------------------------------------ inside of a call

/// further enums, of the same and of other types, used while one is in use
fn what_inside() -> u32 {
    struct Quiet(u32);
    impl Read for Quiet { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if self.0 == 0 || b.is_empty() { return Ok(0) } self.0 -= 1; b[0] = 9; Ok(1) } }
    impl BufRead for Quiet { fn fill_buf(&mut self) -> io::Result<&[u8]> { Ok(b"q") } fn consume(&mut self, _: usize) {} }
    impl Write for Quiet { fn write(&mut self, b: &[u8]) -> io::Result<usize> { Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
    impl Seek for Quiet { fn seek(&mut self, _: SeekFrom) -> io::Result<u64> { Ok(1) } }
    impl Iterator for Quiet { type Item = u32; fn next(&mut self) -> Option<u32> { Some(self.0) } fn size_hint(&self) -> (usize, Option<usize>) { (usize::MAX, None) } }
    impl Display for Quiet { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("q") } }
    impl Debug for Quiet { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("q") } }
    impl Future for Quiet { type Output = u32; fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u32> { Poll::Ready(3) } }
    impl futures::Stream for Quiet { type Item = u32; fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<u32>> { Poll::Ready(None) } }
    impl FnOnce<(u32,)> for Quiet { type Output = u32; extern "rust-call" fn call_once(self, a: (u32,)) -> u32 { a.0 } }
    impl FnMut<(u32,)> for Quiet { extern "rust-call" fn call_mut(&mut self, a: (u32,)) -> u32 { a.0 } }
    impl Fn<(u32,)> for Quiet { extern "rust-call" fn call(&self, a: (u32,)) -> u32 { a.0 } }
    impl std::ops::Deref for Quiet { type Target = u32; fn deref(&self) -> &u32 { &self.0 } }
    impl std::ops::DerefMut for Quiet { fn deref_mut(&mut self) -> &mut u32 { &mut self.0 } }
    #[auto_enums::enum_derive(Write, Seek, BufRead)] enum Io<A, B> { A(A), #[allow(dead_code)] B(B) }
    #[auto_enums::enum_derive(Iterator)] enum It<A, B> { A(A), #[allow(dead_code)] B(B) }
    #[auto_enums::enum_derive(Display, Debug)] enum Sh<A, B> { A(A), #[allow(dead_code)] B(B) }
    #[auto_enums::enum_derive(Future, futures03::Stream)] enum Fu<A, B> { A(A), #[allow(dead_code)] B(B) }
    #[auto_enums::enum_derive(Fn)] enum Fa<A, B> { A(A), #[allow(dead_code)] B(B) }
    #[auto_enums::enum_derive(DerefMut)] enum De<A, B> { A(A), #[allow(dead_code)] B(B) }
    let mut io: Io<Quiet, Quiet> = Io::B(Quiet(2));
    let mut b = [0; 3];
    let mut s = io.read(&mut b).unwrap() as u32 + io.fill_buf().unwrap().len() as u32;
    s += io.write(b"xy").unwrap() as u32;
    s += io.seek(SeekFrom::Start(0)).unwrap() as u32;
    io.flush().unwrap();
    let io: Io<Quiet, Quiet> = Io::A(Quiet(0));
    s += io.bytes().count() as u32;
    let mut it: It<Quiet, Quiet> = It::A(Quiet(5));
    s += it.next().unwrap() + it.nth(2).unwrap();
    s += It::<Quiet, Quiet>::B(Quiet(1)).take(3).sum::<u32>();
    use fmt::Write as _;
    let mut f = Fixed([0; 64], 0);
    let _ = write!(f, "{}{:?}", Sh::<Quiet, Quiet>::A(Quiet(0)), Sh::<Quiet, Quiet>::B(Quiet(0)));
    s += f.1 as u32;
    let w = std::task::Waker::noop();
    let mut fu: Fu<Quiet, Quiet> = Fu::B(Quiet(0));
    if let Poll::Ready(v) = Pin::new(&mut fu).poll(&mut Context::from_waker(w)) { s += v }
    let mut fu: Fu<Quiet, Quiet> = Fu::A(Quiet(0));
    let _ = futures::Stream::poll_next(Pin::new(&mut fu), &mut Context::from_waker(w));
    let mut fa: Fa<Quiet, Quiet> = Fa::A(Quiet(0));
    s += Fn::call(&fa, (1,)) + FnMut::call_mut(&mut fa, (2,)) + FnOnce::call_once(fa, (3,)) + Fn::call(&Fa::<Quiet, Quiet>::B(Quiet(0)), (4,));
    let mut de: De<Quiet, Quiet> = De::B(Quiet(7));
    *de += 1;
    s + *de + *De::<Quiet, Quiet>::A(Quiet(1))
}
fn inside(how: u8, f: fn() -> u32) {
    let r = match how {
        0 => return,
        1 => f(),
        // another thread uses enums and is waited for
        _ if !std::thread::panicking() && chance(1, 4) => {
            let _g = harness();
            std::thread::spawn(f).join().unwrap()
        }
        _ => f(),
    };
    ev!("inside: {r}");
}

macro_rules! scenarios {
    ($($f:ident $n:ident $sh:ident $kind:ident $d:ident;)*) => {
        $(
            fn $f() { NESTED.with(|n| n.set(false)); $kind!($sh, Pod, $d) }
            fn $n() { NESTED.with(|n| n.set(true)); $kind!($sh, Pod, $d) }
        )*
        fn main() {
            main_with(&[$(
                Scenario { name: concat!(stringify!($sh), " without memory"), run: $f, weight: 2 },
                Scenario { name: concat!(stringify!($sh), " within a call"), run: $n, weight: 1 },
            )*]);
        }
    };
}
scenarios! {
    s_io n_io io_ drive_shapes d_io;
    s_iter n_iter iter_ drive_shapes d_iter;
    s_fut n_fut fut_ drive_shapes d_fut;
    s_sink n_sink sink_ drive_generic d_sink;
    s_fmt n_fmt fmt_ drive_shapes d_fmt;
    s_error n_error error_ drive_shapes d_error;
    s_call n_call call_ drive_generic d_call;
    s_deref n_deref deref_ drive_shapes d_deref;
    s_conv n_conv conv_ drive_generic d_conv;
}
