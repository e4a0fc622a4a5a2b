//! Runtime of the C17 programs: one device that has every supported trait, and one driver per trait.
#![allow(clippy::all)]
#![feature(fn_traits, unboxed_closures, coroutine_trait, trusted_len)]
pub use simcore;
pub use simcore::{catch, choose, ev, flip, is_ref, main_with, Scenario};
use simcore::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::error::Error;
use std::fmt::{self, Display};
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::io::{self, BufRead, IoSlice, IoSliceMut, Read, Seek, SeekFrom, Write};
use std::iter::{FusedIterator, TrustedLen};
use std::ops::*;
use std::pin::Pin;
use std::task::{Context, Poll};
use rayon::iter::plumbing::*;

pub const KINDS: &[&str] = &["panic", "fails", "pending", "short", "end"];

/// The traits by names nobody shadows.
pub mod names {
    pub use std::{clone::Clone, cmp::{Eq, Ord, PartialEq, PartialOrd}, convert::{AsMut, AsRef}, hash::Hash, iter::*, marker::Copy, ops::*};
}
/// Generated code reached something of the user's module instead of what it meant.
pub fn captured(what: &str) {
    violate("captured", format!("generated code calls the user's {what}"));
}

struct State {
    val: u32,
    data: [u8; 6],
    range: (Bound<u32>, Bound<u32>),
    cause: io::Error,
}
thread_local! {
    static WORLD: RefCell<Vec<Box<State>>> = const { RefCell::new(Vec::new()) };
}
pub fn start() {
    WORLD.with(|w| w.borrow_mut().clear());
    swarm(KINDS);
}

/// A handle: which variant's type it is, and which device it stands for.
pub struct Omni<'o, const V: usize>(u32, std::marker::PhantomData<&'o u32>);
impl<'o, const V: usize> Omni<'o, V> {
    pub fn new() -> Self {
        WORLD.with(|w| {
            let mut w = w.borrow_mut();
            let b = |n: usize| match n { 0 => Bound::Unbounded, 1 => Bound::Included(2), _ => Bound::Excluded(5) };
            w.push(Box::new(State { val: choose(4) as u32, data: *b"sample", range: (b(choose(3)), b(choose(3))), cause: io::Error::other("cause") }));
            ev!("new omni{V} {}", w.len() - 1);
            Omni(w.len() as u32 - 1, std::marker::PhantomData)
        })
    }
    fn st(&self) -> &'static mut State {
        // one handle is used at a time; the boxes live as long as the run
        let p: *mut State = WORLD.with(|w| &mut *w.borrow_mut()[self.0 as usize] as *mut State);
        unsafe { &mut *p }
    }
    fn hit(&self, what: &str) {
        tick();
        ev!("omni{V}#{} {what}", self.0);
        maybe_panic("omni");
    }
    fn val(&self) -> u32 { choose(5) as u32 * 10 + V as u32 }
    fn iov(&self, max: usize) -> io::Result<usize> {
        if fault("fails") { return Err(io::Error::new([io::ErrorKind::Interrupted, io::ErrorKind::WouldBlock, io::ErrorKind::Other][choose(3)], "fault")); }
        if fault("end") || max == 0 { return Ok(0); }
        Ok(if fault("short") { 1 } else { max.min(6) })
    }
    fn fill(&self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.iov(b.len())?;
        for (i, x) in b[..n].iter_mut().enumerate() { *x = b'a' + (V + i) as u8; }
        Ok(n)
    }
    fn pend(&self, cx: &mut Context<'_>) -> bool {
        ev!("  waker {:?}", waker::id_of(cx));
        if fault("pending") { cx.waker().wake_by_ref(); true } else { false }
    }
    fn pollv<R>(&self, cx: &mut Context<'_>, f: impl FnOnce() -> R) -> Poll<R> {
        if self.pend(cx) { Poll::Pending } else { Poll::Ready(f()) }
    }
    fn res(&self) -> Result<u32, u32> { if fault("fails") { Err(self.val() + 5) } else { Ok(self.val()) } }
    fn opt(&self) -> Option<u32> { if fault("end") { None } else { Some(self.val()) } }
    fn items(&self) -> Vec<u32> { (0..choose(5) as u32).map(|i| i * 10 + V as u32).collect() }
}

// ------------------------------------------------------------------ the traits

impl<'o, const V: usize> Clone for Omni<'o, V> { fn clone(&self) -> Self { self.hit("clone"); Omni(self.0, std::marker::PhantomData) } }
impl<'o, const V: usize> Copy for Omni<'o, V> {}
impl<'o, const V: usize> PartialEq for Omni<'o, V> { fn eq(&self, o: &Self) -> bool { self.hit("eq"); ev!("  with {}", o.0); flip() } }
impl<'o, const V: usize> Eq for Omni<'o, V> {}
fn ord() -> Ordering { [Ordering::Less, Ordering::Equal, Ordering::Greater][choose(3)] }
impl<'o, const V: usize> PartialOrd for Omni<'o, V> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { self.hit("partial_cmp"); ev!("  with {}", o.0); if fault("fails") { None } else { Some(ord()) } }
}
impl<'o, const V: usize> Ord for Omni<'o, V> { fn cmp(&self, o: &Self) -> Ordering { self.hit("cmp"); ev!("  with {}", o.0); ord() } }
impl<'o, const V: usize> Hash for Omni<'o, V> { fn hash<H: Hasher>(&self, h: &mut H) { self.hit("hash"); h.write_u32(self.val()) } }

macro_rules! fmts { ($($t:ident $d:ident)*) => {$(
    impl<'o, const V: usize> fmt::$t for Omni<'o, V> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.hit(stringify!($t));
            if fault("fails") { return Err(fmt::Error); }
            ev!("  {:?} {:?} {} {}", f.width(), f.precision(), f.alternate(), f.sign_plus());
            f.pad(concat!(stringify!($t), "!"))
        }
    }
    pub fn $d<T: fmt::$t + ?Sized>(t: &mut T) {
        struct W<'a, T: ?Sized>(&'a T, usize);
        impl<T: fmt::$t + ?Sized> Display for W<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("<")?; fmt::$t::fmt(self.0, f)?; f.write_str(">") } }
        let w = W(t, 0);
        let mut s = String::new();
        catch(stringify!($d), || {
            let r = match choose(4) { 0 => write!(s, "{w}"), 1 => write!(s, "{w:#12}"), 2 => write!(s, "{w:+.2}"), _ => write!(s, "{w:->9.8}") };
            ev!(concat!(stringify!($d), " {:?}"), r);
        });
        ev!("  {s:?}");
    }
)*}}
use std::fmt::Write as _;
fmts! { Debug debug Display display Binary binary Octal octal UpperHex upper_hex LowerHex lower_hex UpperExp upper_exp LowerExp lower_exp Pointer pointer }

impl<'o, const V: usize> fmt::Write for Omni<'o, V> {
    fn write_str(&mut self, s: &str) -> fmt::Result { self.hit("write_str"); ev!("  {s:?}"); if fault("fails") { Err(fmt::Error) } else { Ok(()) } }
    fn write_char(&mut self, c: char) -> fmt::Result { self.hit("write_char"); ev!("  {c:?}"); if fault("fails") { Err(fmt::Error) } else { Ok(()) } }
    fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> fmt::Result { self.hit("fmt::write_fmt"); ev!("  {a}"); if fault("fails") { Err(fmt::Error) } else { Ok(()) } }
}
impl<'o, const V: usize> Iterator for Omni<'o, V> {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { self.hit("next"); self.opt() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hit("size_hint"); (choose(3), if flip() { None } else { Some(9) }) }
    fn count(self) -> usize { self.hit("count"); self.val() as usize }
    fn last(self) -> Option<u32> { self.hit("last"); self.opt() }
    fn nth(&mut self, n: usize) -> Option<u32> { self.hit("nth"); ev!("  {n}"); self.opt() }
    fn collect<B: FromIterator<u32>>(self) -> B { self.hit("collect"); self.items().into_iter().collect() }
    fn partition<B: Default + Extend<u32>, F: FnMut(&u32) -> bool>(self, f: F) -> (B, B) { self.hit("partition"); self.items().into_iter().partition(f) }
    fn fold<B, F: FnMut(B, u32) -> B>(self, mut b: B, mut f: F) -> B { self.hit("fold"); for i in self.items() { b = f(b, i); } b }
    fn all<F: FnMut(u32) -> bool>(&mut self, mut f: F) -> bool { self.hit("all"); f(self.val()) }
    fn any<F: FnMut(u32) -> bool>(&mut self, mut f: F) -> bool { self.hit("any"); f(self.val()) }
    fn find<P: FnMut(&u32) -> bool>(&mut self, mut p: P) -> Option<u32> { self.hit("find"); let v = self.val(); p(&v).then_some(v) }
    fn find_map<B, F: FnMut(u32) -> Option<B>>(&mut self, mut f: F) -> Option<B> { self.hit("find_map"); f(self.val()) }
    fn position<P: FnMut(u32) -> bool>(&mut self, mut p: P) -> Option<usize> { self.hit("position"); p(self.val()).then_some(3) }
}
impl<'o, const V: usize> DoubleEndedIterator for Omni<'o, V> {
    fn next_back(&mut self) -> Option<u32> { self.hit("next_back"); self.opt() }
    fn nth_back(&mut self, n: usize) -> Option<u32> { self.hit("nth_back"); ev!("  {n}"); self.opt() }
    fn rfold<B, F: FnMut(B, u32) -> B>(self, mut b: B, mut f: F) -> B { self.hit("rfold"); for i in self.items() { b = f(b, i); } b }
    fn rfind<P: FnMut(&u32) -> bool>(&mut self, mut p: P) -> Option<u32> { self.hit("rfind"); let v = self.val(); p(&v).then_some(v) }
}
impl<'o, const V: usize> ExactSizeIterator for Omni<'o, V> { fn len(&self) -> usize { self.hit("len"); self.val() as usize } }
impl<'o, const V: usize> FusedIterator for Omni<'o, V> {}
unsafe impl<'o, const V: usize> TrustedLen for Omni<'o, V> {}
impl<'o, const V: usize> Extend<u32> for Omni<'o, V> {
    fn extend<I: IntoIterator<Item = u32>>(&mut self, i: I) { self.hit("extend"); for x in i { ev!("  {x}"); } }
}
impl<'o, const V: usize> Deref for Omni<'o, V> { type Target = u32; fn deref(&self) -> &u32 { self.hit("deref"); &self.st().val } }
impl<'o, const V: usize> DerefMut for Omni<'o, V> { fn deref_mut(&mut self) -> &mut u32 { self.hit("deref_mut"); &mut self.st().val } }
impl<'o, const V: usize> Index<usize> for Omni<'o, V> { type Output = u32; fn index(&self, i: usize) -> &u32 { self.hit("index"); ev!("  {i}"); &self.st().val } }
impl<'o, const V: usize> IndexMut<usize> for Omni<'o, V> { fn index_mut(&mut self, i: usize) -> &mut u32 { self.hit("index_mut"); ev!("  {i}"); &mut self.st().val } }
impl<'o, const V: usize> RangeBounds<u32> for Omni<'o, V> {
    fn start_bound(&self) -> Bound<&u32> { self.hit("start_bound"); self.st().range.0.as_ref() }
    fn end_bound(&self) -> Bound<&u32> { self.hit("end_bound"); self.st().range.1.as_ref() }
}
impl<'o, const V: usize> AsRef<u32> for Omni<'o, V> { fn as_ref(&self) -> &u32 { self.hit("as_ref"); &self.st().val } }
impl<'o, const V: usize> AsMut<u32> for Omni<'o, V> { fn as_mut(&mut self) -> &mut u32 { self.hit("as_mut"); &mut self.st().val } }
impl<'o, const V: usize> FnOnce<(u32,)> for Omni<'o, V> { type Output = u32; extern "rust-call" fn call_once(self, a: (u32,)) -> u32 { self.hit("call_once"); ev!("  {a:?}"); self.val() } }
impl<'o, const V: usize> FnMut<(u32,)> for Omni<'o, V> { extern "rust-call" fn call_mut(&mut self, a: (u32,)) -> u32 { self.hit("call_mut"); ev!("  {a:?}"); self.val() } }
impl<'o, const V: usize> Fn<(u32,)> for Omni<'o, V> { extern "rust-call" fn call(&self, a: (u32,)) -> u32 { self.hit("call"); ev!("  {a:?}"); self.val() } }
impl<'o, const V: usize> Coroutine<u32> for Omni<'o, V> {
    type Yield = u32;
    type Return = u32;
    fn resume(self: Pin<&mut Self>, a: u32) -> CoroutineState<u32, u32> { self.hit("resume"); ev!("  {a}"); if fault("end") { CoroutineState::Complete(self.val()) } else { CoroutineState::Yielded(self.val()) } }
}
impl<'o, const V: usize> Future for Omni<'o, V> { type Output = u32; fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> { self.hit("future poll"); self.pollv(cx, || self.val()) } }
impl<'o, const V: usize> Error for Omni<'o, V> { fn source(&self) -> Option<&(dyn Error + 'static)> { self.hit("source"); Some(&self.st().cause) } }
impl<'o, const V: usize> Read for Omni<'o, V> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.hit("read"); self.fill(b) }
    fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> { self.hit("read_vectored"); self.fill(&mut b[0]) }
    fn read_to_end(&mut self, b: &mut Vec<u8>) -> io::Result<usize> { self.hit("read_to_end"); let n = self.iov(6)?; b.extend_from_slice(&self.st().data[..n]); Ok(n) }
    fn read_to_string(&mut self, b: &mut String) -> io::Result<usize> { self.hit("read_to_string"); let n = self.iov(6)?; b.push_str(&"string"[..n]); Ok(n) }
    fn read_exact(&mut self, b: &mut [u8]) -> io::Result<()> { self.hit("read_exact"); self.fill(b).map(drop) }
}
impl<'o, const V: usize> BufRead for Omni<'o, V> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> { self.hit("fill_buf"); let n = self.iov(6)?; Ok(&self.st().data[..n]) }
    fn consume(&mut self, n: usize) { self.hit("consume"); ev!("  {n}"); }
    fn read_until(&mut self, d: u8, b: &mut Vec<u8>) -> io::Result<usize> { self.hit("read_until"); ev!("  {d}"); let n = self.iov(6)?; b.extend_from_slice(&self.st().data[..n]); Ok(n) }
    fn read_line(&mut self, b: &mut String) -> io::Result<usize> { self.hit("read_line"); let n = self.iov(6)?; b.push_str(&"a line"[..n]); Ok(n) }
}
impl<'o, const V: usize> Write for Omni<'o, V> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.hit("write"); ev!("  {b:?}"); self.iov(b.len()) }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> { self.hit("write_vectored"); ev!("  {b:?}"); self.iov(b.len()) }
    fn flush(&mut self) -> io::Result<()> { self.hit("flush"); self.iov(1).map(drop) }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> { self.hit("write_all"); ev!("  {b:?}"); self.iov(1).map(drop) }
    fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> io::Result<()> { self.hit("io::write_fmt"); ev!("  {a}"); self.iov(1).map(drop) }
}
impl<'o, const V: usize> Seek for Omni<'o, V> { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.hit("seek"); ev!("  {p:?}"); self.iov(6).map(|n| n as u64) } }

impl<'o, const V: usize> futures::Stream for Omni<'o, V> {
    type Item = u32;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> { self.hit("stream poll_next"); self.pollv(cx, || self.opt()) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hit("stream size_hint"); (choose(3), None) }
}
impl<'o, const V: usize> futures::Sink<u32> for Omni<'o, V> {
    type Error = u32;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u32>> { self.hit("sink poll_ready"); self.pollv(cx, || self.res().map(drop)) }
    fn start_send(self: Pin<&mut Self>, i: u32) -> Result<(), u32> { self.hit("start_send"); ev!("  {i}"); self.res().map(drop) }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u32>> { self.hit("sink poll_flush"); self.pollv(cx, || self.res().map(drop)) }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u32>> { self.hit("sink poll_close"); self.pollv(cx, || self.res().map(drop)) }
}
impl<'o, const V: usize> futures::AsyncRead for Omni<'o, V> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> { self.hit("f poll_read"); self.pollv(cx, || self.fill(b)) }
    fn poll_read_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> { self.hit("f poll_read_vectored"); self.pollv(cx, || self.fill(&mut b[0])) }
}
impl<'o, const V: usize> futures::AsyncBufRead for Omni<'o, V> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> { self.hit("f poll_fill_buf"); self.pollv(cx, || self.iov(6).map(|n| &self.st().data[..n])) }
    fn consume(self: Pin<&mut Self>, n: usize) { self.hit("f consume"); ev!("  {n}"); }
}
impl<'o, const V: usize> futures::AsyncWrite for Omni<'o, V> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { self.hit("f poll_write"); ev!("  {b:?}"); self.pollv(cx, || self.iov(b.len())) }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[IoSlice<'_>]) -> Poll<io::Result<usize>> { self.hit("f poll_write_vectored"); ev!("  {b:?}"); self.pollv(cx, || self.iov(b.len())) }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.hit("f poll_flush"); self.pollv(cx, || self.iov(1).map(drop)) }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.hit("f poll_close"); self.pollv(cx, || self.iov(1).map(drop)) }
}
impl<'o, const V: usize> futures::AsyncSeek for Omni<'o, V> {
    fn poll_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, p: SeekFrom) -> Poll<io::Result<u64>> { self.hit("f poll_seek"); ev!("  {p:?}"); self.pollv(cx, || self.iov(6).map(|n| n as u64)) }
}
impl<'o, const V: usize> tokio::io::AsyncRead for Omni<'o, V> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.hit("t poll_read");
        self.pollv(cx, || { let n = self.iov(b.remaining())?; b.put_slice(&b"tokios"[..n]); Ok(()) })
    }
}
impl<'o, const V: usize> tokio::io::AsyncBufRead for Omni<'o, V> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> { self.hit("t poll_fill_buf"); self.pollv(cx, || self.iov(6).map(|n| &self.st().data[..n])) }
    fn consume(self: Pin<&mut Self>, n: usize) { self.hit("t consume"); ev!("  {n}"); }
}
impl<'o, const V: usize> tokio::io::AsyncWrite for Omni<'o, V> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { self.hit("t poll_write"); ev!("  {b:?}"); self.pollv(cx, || self.iov(b.len())) }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[IoSlice<'_>]) -> Poll<io::Result<usize>> { self.hit("t poll_write_vectored"); ev!("  {b:?}"); self.pollv(cx, || self.iov(b.len())) }
    fn is_write_vectored(&self) -> bool { self.hit("t is_write_vectored"); flip() }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.hit("t poll_flush"); self.pollv(cx, || self.iov(1).map(drop)) }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.hit("t poll_shutdown"); self.pollv(cx, || self.iov(1).map(drop)) }
}
impl<'o, const V: usize> tokio::io::AsyncSeek for Omni<'o, V> {
    fn start_seek(self: Pin<&mut Self>, p: SeekFrom) -> io::Result<()> { self.hit("t start_seek"); ev!("  {p:?}"); self.iov(1).map(drop) }
    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> { self.hit("t poll_complete"); self.pollv(cx, || self.iov(6).map(|n| n as u64)) }
}
impl<'o, const V: usize> http_body::Body for Omni<'o, V> {
    type Data = &'static [u8];
    type Error = u32;
    fn poll_frame(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<http_body::Frame<&'static [u8]>, u32>>> {
        self.hit("poll_frame");
        self.pollv(cx, || self.opt().map(|_| self.res().map(|_| http_body::Frame::data(&b"frame"[..]))))
    }
    fn is_end_stream(&self) -> bool { self.hit("is_end_stream"); flip() }
    fn size_hint(&self) -> http_body::SizeHint { self.hit("body size_hint"); http_body::SizeHint::with_exact(self.val() as u64) }
}
impl<'o, const V: usize> serde::Serialize for Omni<'o, V> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.hit("serialize");
        if fault("fails") { return Err(serde::ser::Error::custom("fault")); }
        if flip() { s.serialize_u32(self.val()) } else { s.serialize_newtype_struct("Inner", &self.val()) }
    }
}
fn feed<C: Consumer<u32>>(items: Vec<u32>, c: C) -> C::Result {
    let mut f = c.into_folder();
    for i in items { if f.full() { break; } f = f.consume(i); }
    f.complete()
}
impl<'o, const V: usize> rayon::iter::ParallelIterator for Omni<'o, V> {
    type Item = u32;
    fn drive_unindexed<C: UnindexedConsumer<u32>>(self, c: C) -> C::Result { self.hit("drive_unindexed"); feed(self.items(), c) }
    fn opt_len(&self) -> Option<usize> { self.hit("opt_len"); self.opt().map(|x| x as usize) }
}
struct Prod(Vec<u32>);
impl Producer for Prod {
    type Item = u32;
    type IntoIter = std::vec::IntoIter<u32>;
    fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
    fn split_at(mut self, n: usize) -> (Self, Self) { let r = self.0.split_off(n); (self, Prod(r)) }
}
impl<'o, const V: usize> rayon::iter::IndexedParallelIterator for Omni<'o, V> {
    fn len(&self) -> usize { self.hit("par len"); self.val() as usize }
    fn drive<C: Consumer<u32>>(self, c: C) -> C::Result { self.hit("drive"); feed(self.items(), c) }
    fn with_producer<CB: ProducerCallback<u32>>(self, cb: CB) -> CB::Output { self.hit("with_producer"); cb.callback(Prod(self.items())) }
}
impl<'o, const V: usize> rayon::iter::ParallelExtend<u32> for Omni<'o, V> {
    fn par_extend<I: rayon::iter::IntoParallelIterator<Item = u32>>(&mut self, i: I) {
        self.hit("par_extend");
        ev!("  {:?}", rayon::iter::ParallelIterator::opt_len(&i.into_par_iter()));
    }
}

// ------------------------------------------------------------------ one driver per trait

macro_rules! op {
    ($name:ident[$($b:tt)*]($t:ident) { $($arm:expr),+ $(,)? }) => {
        pub fn $name<T: $($b)*>($t: &mut T) {
            const N: usize = [$(stringify!($arm)),+].len();
            let n = choose(N);
            catch(stringify!($name), || { let mut i = 0; $(if i == n { let r = $arm; ev!(concat!(stringify!($name), " {} = {:?}"), n, r); return; } i += 1;)+ let _ = i; });
        }
    };
}
macro_rules! pinned {
    ($name:ident[$($b:tt)*]($t:ident, $cx:ident) { $($arm:expr),+ $(,)? }) => {
        pub fn $name<T: $($b)* + Unpin>(t: &mut T) {
            const N: usize = [$(stringify!($arm)),+].len();
            let n = choose(N);
            let w = 1 + choose(3);
            catch(stringify!($name), || waker::poll_with(w, |$cx| {
                let $t = Pin::new(&mut *t);
                let mut i = 0;
                $(if i == n { let r = $arm; ev!(concat!(stringify!($name), " {} = {:?}"), n, r); return; } i += 1;)+
                let _ = i;
            }));
        }
    };
}
pub fn clone<T: Clone>(a: &mut T, _b: &mut T) { if let Some(c) = catch("clone", || a.clone()) { *a = c; } }
pub fn copy<T: Copy>(a: &mut T, b: &mut T) { let c = *b; *a = c; ev!("copied"); }
pub fn eq<T: PartialEq>(a: &mut T, b: &mut T) { catch("eq", || ev!("eq {} {}", a == b, a != a)); }
pub fn full_eq<T: Eq>(a: &mut T, b: &mut T) { catch("eq", || ev!("eq {}", b == a)); }
pub fn partial_ord<T: PartialOrd>(a: &mut T, b: &mut T) { catch("cmp", || ev!("partial_cmp {:?} {}", a.partial_cmp(&b), b < a)); }
pub fn full_ord<T: Ord>(a: &mut T, b: &mut T) { catch("cmp", || ev!("cmp {:?}", a.cmp(&b))); }
struct Sum(Vec<Vec<u8>>);
impl Hasher for Sum { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.push(b.to_vec()) } }
pub fn hash<T: Hash>(a: &mut T, _b: &mut T) { catch("hash", || { let mut s = Sum(vec![]); a.hash(&mut s); ev!("hash {:?}", s.0) }); }

op! { fmt_write[fmt::Write](t) { fmt::Write::write_str(t, "text"), fmt::Write::write_char(t, 'c'), fmt::Write::write_fmt(t, format_args!("{}-{}", 1, 2)) } }
op! { iterator[Iterator<Item = u32>](t) { t.next(), t.size_hint(), t.nth(2) } }
pub fn iterator_sized<T: Iterator<Item = u32>>(t: &mut T) {
    let n = choose(5);
    catch("iterator", || {
        match n {
            0 => ev!("all {}", t.all(|x| x > 10)),
            1 => ev!("any {}", t.any(|x| x > 20)),
            2 => ev!("find {:?}", t.find(|x| *x > 20)),
            3 => ev!("find_map {:?}", t.find_map(|x| (x > 10).then_some(x + 1))),
            _ => ev!("position {:?}", t.position(|x| x > 10)),
        }
    });
}
op! { double_ended[DoubleEndedIterator<Item = u32>](t) { t.next_back(), t.nth_back(1) } }
pub fn double_ended_sized<T: DoubleEndedIterator<Item = u32>>(t: &mut T) { catch("rfind", || ev!("rfind {:?}", t.rfind(|x| *x > 10))); }
op! { exact_size[ExactSizeIterator<Item = u32>](t) { t.len() } }
op! { fused[FusedIterator<Item = u32>](t) { t.next() } }
op! { trusted[TrustedLen<Item = u32>](t) { t.next() } }
pub fn extend<T: Extend<u32>>(t: &mut T) { catch("extend", || t.extend([1, 2])); }
op! { deref[Deref<Target = u32>](t) { *T::deref(t) } }
op! { deref_mut[DerefMut<Target = u32>](t) { { *T::deref_mut(t) += 1; *T::deref(t) }, *T::deref(t) } }
op! { index[Index<usize, Output = u32>](t) { t[3] } }
op! { index_mut[IndexMut<usize, Output = u32>](t) { { t[2] += 1; t[2] }, t[1] } }
op! { range_bounds[RangeBounds<u32>](t) { t.start_bound().cloned(), t.end_bound().cloned() } }
op! { as_ref[AsRef<u32>](t) { *t.as_ref() } }
op! { as_mut[AsMut<u32>](t) { { *t.as_mut() += 2; *t.as_mut() } } }
op! { call[Fn(u32) -> u32](t) { t(4), { let f = &*t; f(5) } } }
op! { call_mut[FnMut(u32) -> u32](t) { t(7) } }
pinned! { coroutine[Coroutine<u32, Yield = u32, Return = u32>](t, _cx) { t.resume(1) } }
pinned! { future[Future<Output = u32>](t, cx) { t.poll(cx) } }
pub fn error<T: Error>(t: &mut T) {
    catch("error", || match choose(3) {
        // the enum reports the carried error as its source; used directly, that is the error itself
        0 => ev!("error {t} {t:?}"),
        1 => { let s = if is_ref_value::<T>() { t.source() } else { t.source().and_then(|s| s.source()) }; ev!("cause {:?}", s.map(|s| s.to_string())) }
        #[allow(deprecated)]
        _ => ev!("description {}", t.description()),
    });
}
fn is_ref_value<T>() -> bool { std::any::type_name::<T>().starts_with("c17rt::Omni<") }
op! { read[Read](t) {
    { let mut b = [0; 4]; let r = t.read(&mut b); (r.map_err(|e| e.to_string()), b) },
    { let mut b = [0; 4]; let r = t.read_vectored(&mut [IoSliceMut::new(&mut b)]); (r.map_err(|e| e.to_string()), b) },
    { let mut b = vec![]; let r = t.read_to_end(&mut b); (r.map_err(|e| e.to_string()), b) },
    { let mut b = String::new(); let r = t.read_to_string(&mut b); (r.map_err(|e| e.to_string()), b) },
    { let mut b = [0; 3]; let r = t.read_exact(&mut b); (r.map_err(|e| e.to_string()), b) },
} }
op! { buf_read[BufRead](t) {
    t.fill_buf().map(|x| x.to_vec()).map_err(|e| e.to_string()),
    t.consume(2),
    { let mut b = vec![]; let r = t.read_until(b'x', &mut b); (r.map_err(|e| e.to_string()), b) },
    { let mut b = String::new(); let r = t.read_line(&mut b); (r.map_err(|e| e.to_string()), b) },
} }
op! { write[Write](t) {
    t.write(b"abc"), t.write_vectored(&[IoSlice::new(b"v1"), IoSlice::new(b"v2")]), t.flush(), t.write_all(b"all"), Write::write_fmt(t, format_args!("f{}", 1)),
} }
op! { seek[Seek](t) { t.seek(SeekFrom::Start(3)), t.seek(SeekFrom::End(-1)) } }
pinned! { stream[futures::Stream<Item = u32>](t, cx) { t.poll_next(cx), t.size_hint() } }
pinned! { sink[futures::Sink<u32, Error = u32>](t, cx) { t.poll_ready(cx), t.start_send(9), t.poll_flush(cx), t.poll_close(cx) } }
pinned! { f_read[futures::AsyncRead](t, cx) {
    { let mut b = [0; 4]; let r = t.poll_read(cx, &mut b); (r, b) },
    { let mut b = [0; 4]; let r = t.poll_read_vectored(cx, &mut [IoSliceMut::new(&mut b)]); (r, b) },
} }
pinned! { f_buf_read[futures::AsyncBufRead](t, cx) { t.poll_fill_buf(cx).map_ok(|x| x.to_vec()), t.consume(2) } }
pinned! { f_write[futures::AsyncWrite](t, cx) {
    t.poll_write(cx, b"fw"), t.poll_write_vectored(cx, &[IoSlice::new(b"a"), IoSlice::new(b"bc")]), t.poll_flush(cx), t.poll_close(cx),
} }
pinned! { f_seek[futures::AsyncSeek](t, cx) { t.poll_seek(cx, SeekFrom::Current(-2)) } }
pinned! { t_read[tokio::io::AsyncRead](t, cx) { { let mut m = [0; 5]; let mut b = tokio::io::ReadBuf::new(&mut m); let r = t.poll_read(cx, &mut b); (r, b.filled().to_vec()) } } }
pinned! { t_buf_read[tokio::io::AsyncBufRead](t, cx) { t.poll_fill_buf(cx).map_ok(|x| x.to_vec()), t.consume(2) } }
pinned! { t_write[tokio::io::AsyncWrite](t, cx) {
    t.poll_write(cx, b"fw"), t.poll_write_vectored(cx, &[IoSlice::new(b"a"), IoSlice::new(b"bc")]), t.is_write_vectored(), t.poll_flush(cx), t.poll_shutdown(cx),
} }
pinned! { t_seek[tokio::io::AsyncSeek](t, cx) { t.start_seek(SeekFrom::Current(-2)), t.poll_complete(cx) } }
pinned! { body[http_body::Body<Data = &'static [u8], Error = u32>](t, cx) {
    t.poll_frame(cx).map_ok(|f| f.into_data().ok()), t.is_end_stream(), t.size_hint().exact(),
} }
pub fn serialize<T: serde::Serialize>(t: &mut T) {
    struct W<'a, T>(&'a T);
    impl<T: serde::Serialize> Display for W<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.serialize(f) } }
    catch("serialize", || { let mut s = String::new(); let r = write!(s, "{}", W(t)); ev!("serialize {r:?} {s:?}") });
}
pub fn par_iter<T: rayon::iter::ParallelIterator<Item = u32>>(t: &mut T) { catch("par_iter", || ev!("opt_len {:?}", t.opt_len())); }
pub fn indexed<T: rayon::iter::IndexedParallelIterator<Item = u32>>(t: &mut T) { catch("indexed", || ev!("len {:?}", rayon::iter::IndexedParallelIterator::len(t))); }
pub fn par_extend<T: rayon::iter::ParallelExtend<u32>>(t: &mut T) { catch("par_extend", || t.par_extend(vec![1, 2])); }

// by value
pub fn iterator_end<T: Iterator<Item = u32>>(t: T) {
    catch("iterator end", || match choose(7) {
        4 => ev!("collect {:?}", t.collect::<Vec<_>>()),
        5 => ev!("partition {:?}", t.partition::<Vec<_>, _>(|x| *x > 10)),
        0 => ev!("count {}", t.count()),
        1 => ev!("last {:?}", t.last()),
        2 => ev!("fold {:?}", t.fold(vec![], |mut v, x| { v.push(x); v })),
        3 => { let mut t = t; for _ in 0..3 { ev!("rest {:?}", t.next()) } }
        _ => { let mut t = t; ev!("by ref {:?} {:?}", t.by_ref().next(), t.by_ref().nth(1)) }
    });
}
pub fn double_ended_end<T: DoubleEndedIterator<Item = u32>>(t: T) { catch("rfold", || ev!("rfold {:?}", t.rfold(vec![], |mut v, x| { v.push(x); v }))); }
pub fn call_once<T: FnOnce(u32) -> u32>(t: T) { catch("call_once", || ev!("call_once {}", t(6))); }
pub fn par_end<T: rayon::iter::ParallelIterator<Item = u32>>(t: T) {
    catch("par end", || { let s = std::sync::Mutex::new(vec![]); t.for_each(|x| s.lock().unwrap().push(x)); ev!("par {:?}", s.into_inner().unwrap()) });
}
struct Cb;
impl ProducerCallback<u32> for Cb {
    type Output = Vec<u32>;
    fn callback<P: Producer<Item = u32>>(self, p: P) -> Vec<u32> { p.into_iter().collect() }
}
pub fn indexed_end<T: rayon::iter::IndexedParallelIterator<Item = u32>>(t: T) {
    catch("indexed end", || match choose(2) {
        0 => ev!("producer {:?}", t.with_producer(Cb)),
        _ => { let v: Vec<u32> = { struct C; 
            impl Consumer<u32> for C { type Folder = F; type Reducer = NoR; type Result = Vec<u32>; fn split_at(self, _: usize) -> (C, C, NoR) { (C, C, NoR) } fn into_folder(self) -> F { F(vec![]) } fn full(&self) -> bool { false } }
            struct F(Vec<u32>);
            impl Folder<u32> for F { type Result = Vec<u32>; fn consume(mut self, x: u32) -> F { self.0.push(x); self } fn complete(self) -> Vec<u32> { self.0 } fn full(&self) -> bool { false } }
            struct NoR;
            impl Reducer<Vec<u32>> for NoR { fn reduce(self, mut a: Vec<u32>, b: Vec<u32>) -> Vec<u32> { a.extend(b); a } }
            t.drive(C) }; ev!("drive {v:?}") }
    });
}
