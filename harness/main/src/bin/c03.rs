//! C03: polls of Future, Stream, Sink, Body and Coroutine are forwarded one-to-one.
#![feature(coroutine_trait)]
#![allow(clippy::all)]
use futures::{Sink, SinkExt, Stream, StreamExt};
use http_body::{Body, Frame, SizeHint};
use simcore::*;
use std::future::Future;
use std::marker::PhantomPinned;
use std::ops::{Coroutine, CoroutineState};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

const KINDS: &[&str] =
    &["pending", "error", "end", "panic", "wake-old", "self-wake", "poll-after-end", "odd-hint", "back-pressure"];

pub struct Core {
    v: usize,
    left: usize,
    made: usize,
    ended: bool,
    ready: usize,
    accepted: Vec<String>,
    stored: Vec<Waker>,
    addr: AddrProbe,
    _token: Token,
    _pin: PhantomPinned,
}
impl Core {
    fn new(v: usize) -> Core {
        swarm(KINDS);
        Core {
            v,
            left: choose(6),
            made: 0,
            ended: false,
            ready: 0,
            accepted: vec![],
            stored: vec![],
            addr: AddrProbe::new("source"),
            _token: Token::new("source"),
            _pin: PhantomPinned,
        }
    }
    /// true: pending
    fn poll(&mut self, what: &str, cx: Option<&mut Context<'_>>) -> bool {
        tick();
        self.addr.pinned();
        ev!("src{}.{what} waker={:?}", self.v, cx.as_ref().map(|c| waker::id_of(c)));
        if fault("wake-old") {
            for w in self.stored.drain(..) {
                w.wake();
            }
        }
        maybe_panic("source poll");
        if fault("pending") {
            if let Some(cx) = cx {
                if fault("self-wake") {
                    cx.waker().wake_by_ref();
                } else {
                    self.stored.push(cx.waker().clone());
                }
            }
            return true;
        }
        false
    }
    /// the next item: None when exhausted
    fn next(&mut self) -> Option<Result<Token, Token>> {
        if self.ended {
            // misuse by the caller: the source resurrects or stays ended
            return if fault("poll-after-end") { Some(Ok(Token::new("late item"))) } else { None };
        }
        if self.left == 0 || fault("end") {
            self.ended = true;
            return None;
        }
        self.left -= 1;
        self.made += 1;
        Some(if fault("error") { Err(Token::new("error")) } else { Ok(Token::new("item")) })
    }
    fn hint(&self) -> (usize, Option<usize>) {
        ev!("src{}.size_hint", self.v);
        maybe_panic("size_hint");
        if fault("odd-hint") {
            [(0, None), (usize::MAX, None), (self.left, Some(usize::MAX)), (1, Some(1))][choose(4)]
        } else {
            (self.left, Some(self.left))
        }
    }
}
impl Drop for Core {
    fn drop(&mut self) {
        self.addr.dropped();
        ev!("src{} dropped after {} accepted={:?}", self.v, self.made, self.accepted);
    }
}

macro_rules! device {
    ($($D:ident),*) => {$(
        pub struct $D<const V: usize>(Core);
        #[allow(dead_code)]
        impl<const V: usize> $D<V> {
            fn mk() -> Self { ev!("{} {V}", stringify!($D)); $D(Core::new(V)) }
            fn core(self: Pin<&mut Self>) -> &mut Core { &mut unsafe { self.get_unchecked_mut() }.0 }
            // decoys
            fn poll(&self) { violate("inherent-method-called", "poll".into()) }
            fn poll_next(&self) { violate("inherent-method-called", "poll_next".into()) }
            fn poll_ready(&self) { violate("inherent-method-called", "poll_ready".into()) }
            fn start_send(&self) { violate("inherent-method-called", "start_send".into()) }
            fn poll_flush(&self) { violate("inherent-method-called", "poll_flush".into()) }
            fn poll_close(&self) { violate("inherent-method-called", "poll_close".into()) }
            fn poll_frame(&self) { violate("inherent-method-called", "poll_frame".into()) }
            fn resume(&self) { violate("inherent-method-called", "resume".into()) }
            fn is_end_stream(&self) -> bool { violate("inherent-method-called", "is_end_stream".into()); true }
        }
    )*};
}
device!(Fut, Str, StrMin, Snk, Bod, BodMin, Cor);

impl<const V: usize> Future for Fut<V> {
    type Output = Result<Token, Token>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let c = self.core();
        if c.poll("poll", Some(cx)) {
            return Poll::Pending;
        }
        match c.next() {
            Some(r) => Poll::Ready(r),
            None => Poll::Ready(Err(Token::new("exhausted"))),
        }
    }
}
impl<const V: usize> Stream for Str<V> {
    type Item = Result<Token, Token>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let c = self.core();
        if c.poll("poll_next", Some(cx)) {
            return Poll::Pending;
        }
        Poll::Ready(c.next())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}
impl<const V: usize> Stream for StrMin<V> {
    type Item = Token;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Token>> {
        let c = self.core();
        if c.poll("poll_next", Some(cx)) {
            return Poll::Pending;
        }
        Poll::Ready(c.next().map(|r| r.unwrap_or_else(|e| e)))
    }
}
/// one sink that accepts two item types
macro_rules! sink {
    ($($T:ty),*) => {$(
        impl<const V: usize> Sink<$T> for Snk<V> {
            type Error = Token;
            fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Token>> {
                let c = self.core();
                if c.poll(concat!("poll_ready ", stringify!($T)), Some(cx)) || fault("back-pressure") {
                    return Poll::Pending;
                }
                if fault("error") { return Poll::Ready(Err(Token::new("not ready"))); }
                c.ready += 1;
                Poll::Ready(Ok(()))
            }
            fn start_send(self: Pin<&mut Self>, item: $T) -> Result<(), Token> {
                let c = self.core();
                tick();
                c.addr.pinned();
                ev!("src{V}.start_send {item:?}");
                maybe_panic("start_send");
                if fault("error") { return Err(Token::new("refused")); }
                c.accepted.push(format!("{item:?}"));
                Ok(())
            }
            fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Token>> {
                if self.core().poll("poll_flush", Some(cx)) { return Poll::Pending; }
                Poll::Ready(if fault("error") { Err(Token::new("flush failed")) } else { Ok(()) })
            }
            fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Token>> {
                if self.core().poll("poll_close", Some(cx)) { return Poll::Pending; }
                Poll::Ready(if fault("error") { Err(Token::new("close failed")) } else { Ok(()) })
            }
        }
    )*};
}
sink!(Token, u8);

pub struct Chunk(Token, usize);
impl bytes::Buf for Chunk {
    fn remaining(&self) -> usize { self.1 }
    fn chunk(&self) -> &[u8] { &[7; 8][..self.1] }
    fn advance(&mut self, n: usize) { self.1 -= n }
}
fn frame(c: &mut Core) -> Option<Result<Frame<Chunk>, Token>> {
    c.next().map(|r| {
        r.map(|t| {
            if flip() {
                Frame::data(Chunk(t, choose(8)))
            } else {
                let mut h = http_header_map();
                h.insert("x", format!("t{}", t.id).parse().unwrap());
                Frame::trailers(h)
            }
        })
    })
}
fn http_header_map() -> http::HeaderMap { http::HeaderMap::new() }
impl<const V: usize> Body for Bod<V> {
    type Data = Chunk;
    type Error = Token;
    fn poll_frame(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<Chunk>, Token>>> {
        let c = self.core();
        if c.poll("poll_frame", Some(cx)) { return Poll::Pending; }
        Poll::Ready(frame(c))
    }
    fn is_end_stream(&self) -> bool {
        ev!("src{V}.is_end_stream");
        maybe_panic("is_end_stream");
        self.0.left == 0
    }
    fn size_hint(&self) -> SizeHint {
        let (lo, hi) = self.0.hint();
        let mut h = SizeHint::new();
        h.set_lower(lo as u64);
        if let Some(hi) = hi { if hi >= lo { h.set_upper(hi as u64); } }
        h
    }
}
impl<const V: usize> Body for BodMin<V> {
    type Data = Chunk;
    type Error = Token;
    fn poll_frame(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<Chunk>, Token>>> {
        let c = self.core();
        if c.poll("poll_frame", Some(cx)) { return Poll::Pending; }
        Poll::Ready(frame(c))
    }
}
macro_rules! cor {
    ($($T:ty),*) => {$(
        impl<const V: usize> Coroutine<$T> for Cor<V> {
            type Yield = Token;
            type Return = Token;
            fn resume(self: Pin<&mut Self>, arg: $T) -> CoroutineState<Token, Token> {
                let c = self.core();
                ev!("  arg {arg:?}");
                c.poll("resume", None);
                match c.next() {
                    Some(Ok(t)) => CoroutineState::Yielded(t),
                    Some(Err(t)) => CoroutineState::Complete(t),
                    None => CoroutineState::Complete(Token::new("exhausted")),
                }
            }
        }
    )*};
}
cor!(Token, (), (u8, String));

enum_shapes!(fut, [Future], Fut);
enum_shapes!(strm, [futures03::Stream], Str);
enum_shapes!(strm_min, [futures03::Stream], StrMin);
enum_shapes!(snk, [futures03::Sink], Snk);
enum_shapes!(bod, [http_body1::Body], Bod);
enum_shapes!(bod_min, [http_body1::Body], BodMin);
enum_shapes!(cor, [Coroutine], Cor);

fn history<T>(t: T, op: impl Fn(Pin<&mut T>)) {
    let mut t = Box::pin(t);
    for i in 0..range(1, 10) {
        catch(&format!("op {i}"), || op(t.as_mut()));
    }
    ev!("drop value");
}
fn show<T: std::fmt::Debug>(p: &Poll<T>) -> String { format!("{p:?}") }

fn drive_fut<T: Future<Output = Result<Token, Token>>>(t: T) {
    if chance(1, 4) {
        // through the language: .await and select-like fusing
        let mut f = Box::pin(async move { ev!("awaiting"); let r = t.await; ev!("awaited {r:?}"); });
        for _ in 0..range(1, 6) {
            let w = choose(4);
            match catch("await", || waker::poll_with(w, |cx| f.as_mut().poll(cx))) { Some(Poll::Pending) => {}, _ => break }
        }
        return;
    }
    history(t, |t| {
        let w = choose(4);
        let r = waker::poll_with(w, |cx| Future::poll(t, cx));
        ev!("poll -> {}", show(&r));
    })
}
fn drive_str<T: Stream>(t: T) where T::Item: std::fmt::Debug {
    if chance(1, 4) {
        let mut s = Box::pin(t.fuse().enumerate().take(4).collect::<Vec<_>>());
        for _ in 0..range(1, 8) {
            let w = choose(4);
            match catch("collect", || waker::poll_with(w, |cx| s.as_mut().poll(cx))) {
                Some(Poll::Pending) => {}
                Some(Poll::Ready(v)) => { ev!("collected {v:?}"); break }
                None => break,
            }
        }
        return;
    }
    history(t, |mut t| {
        let w = choose(4);
        match choose(3) {
            0 => ev!("size_hint -> {:?}", Stream::size_hint(&*t)),
            1 => {
                // the library's own `next` future
                let mut n = t.next();
                let r = waker::poll_with(w, |cx| Pin::new(&mut n).poll(cx));
                ev!("next -> {}", show(&r));
            }
            _ => {
                let r = waker::poll_with(w, |cx| Stream::poll_next(t.as_mut(), cx));
                ev!("poll_next -> {}", show(&r));
            }
        }
    })
}
fn drive_snk<T: Sink<Token, Error = Token> + Sink<u8, Error = Token>>(t: T) {
    if chance(1, 5) {
        let mut f = Box::pin(async move {
            let mut t = Box::pin(t);
            for i in 0..3u8 { let r = SinkExt::send(&mut t, i).await; ev!("sent {r:?}"); }
            let r = SinkExt::<Token>::close(&mut t).await;
            ev!("closed {r:?}");
        });
        for _ in 0..range(1, 14) {
            let w = choose(4);
            match catch("send", || waker::poll_with(w, |cx| f.as_mut().poll(cx))) { Some(Poll::Pending) => {}, _ => break }
        }
        return;
    }
    history(t, |t| {
        let w = choose(4);
        match choose(6) {
            0 => { let r = waker::poll_with(w, |cx| Sink::<Token>::poll_ready(t, cx)); ev!("poll_ready -> {}", show(&r)) }
            1 => { let r = waker::poll_with(w, |cx| Sink::<u8>::poll_ready(t, cx)); ev!("poll_ready -> {}", show(&r)) }
            2 => { let r = Sink::<Token>::start_send(t, Token::new("sent")); ev!("start_send -> {r:?}") }
            3 => { let r = Sink::<u8>::start_send(t, choose(9) as u8); ev!("start_send -> {r:?}") }
            4 => { let r = waker::poll_with(w, |cx| Sink::<u8>::poll_flush(t, cx)); ev!("poll_flush -> {}", show(&r)) }
            _ => { let r = waker::poll_with(w, |cx| Sink::<Token>::poll_close(t, cx)); ev!("poll_close -> {}", show(&r)) }
        }
    })
}
fn drive_bod<T: Body<Data = Chunk, Error = Token>>(t: T) {
    history(t, |t| {
        let w = choose(4);
        match choose(4) {
            0 => ev!("is_end_stream -> {}", Body::is_end_stream(&*t)),
            1 => ev!("size_hint -> {:?}", Body::size_hint(&*t)),
            _ => {
                let r = waker::poll_with(w, |cx| Body::poll_frame(t, cx));
                match r {
                    Poll::Ready(Some(Ok(f))) => match f.into_data() {
                        Ok(d) => ev!("poll_frame -> data {:?} {}", d.0, d.1),
                        Err(f) => ev!("poll_frame -> trailers {:?}", f.into_trailers().ok()),
                    },
                    Poll::Ready(Some(Err(e))) => ev!("poll_frame -> error {e:?}"),
                    Poll::Ready(None) => ev!("poll_frame -> end"),
                    Poll::Pending => ev!("poll_frame -> pending"),
                }
            }
        }
    })
}
fn drive_cor<T: Coroutine<Token, Yield = Token, Return = Token> + Coroutine<(), Yield = Token, Return = Token> + Coroutine<(u8, String), Yield = Token, Return = Token>>(t: T) {
    history(t, |t| {
        let r = match choose(3) {
            0 => Coroutine::<()>::resume(t, ()),
            1 => Coroutine::<Token>::resume(t, Token::new("argument")),
            _ => Coroutine::<(u8, String)>::resume(t, (choose(5) as u8, "s".repeat(choose(4)))),
        };
        ev!("resume -> {r:?}");
    })
}

fn s_fut() { drive_shapes!(fut, Fut, drive_fut) }
fn s_str() { drive_shapes!(strm, Str, drive_str) }
fn s_str_min() { drive_shapes!(strm_min, StrMin, drive_str) }
fn s_snk() { drive_shapes!(snk, Snk, drive_snk) }
fn s_bod() { drive_shapes!(bod, Bod, drive_bod) }
fn s_bod_min() { drive_shapes!(bod_min, BodMin, drive_bod) }
fn s_cor() { drive_shapes!(cor, Cor, drive_cor) }

#[auto_enums::auto_enum(Future)]
fn anon_fut(v: usize) -> impl Future<Output = Result<Token, Token>> {
    match v {
        0 => Fut::<0>::mk(),
        1 => async { let t = Fut::<1>::mk().await; ev!("inner {t:?}"); t },
        2 => std::future::ready(Ok(Token::new("ready"))),
        _ => Box::pin(Fut::<3>::mk()),
    }
}
fn s_anon_fut() {
    let v = choose(4);
    if is_ref() {
        match v {
            0 => drive_fut(Fut::<0>::mk()),
            1 => drive_fut(async { let t = Fut::<1>::mk().await; ev!("inner {t:?}"); t }),
            2 => drive_fut(std::future::ready(Ok(Token::new("ready")))),
            _ => drive_fut(Box::pin(Fut::<3>::mk())),
        }
    } else {
        drive_fut(anon_fut(v))
    }
}
#[auto_enums::auto_enum(futures03::Stream)]
fn anon_str(v: usize) -> impl Stream<Item = Result<Token, Token>> {
    if v == 0 {
        Str::<0>::mk()
    } else if v == 1 {
        Str::<1>::mk().chain(Str::<2>::mk())
    } else {
        Box::pin(Str::<3>::mk()) as Pin<Box<dyn Stream<Item = Result<Token, Token>>>>
    }
}
fn s_anon_str() {
    let v = choose(3);
    if is_ref() {
        match v {
            0 => drive_str(Str::<0>::mk()),
            1 => drive_str(Str::<1>::mk().chain(Str::<2>::mk())),
            _ => drive_str(Box::pin(Str::<3>::mk()) as Pin<Box<dyn Stream<Item = Result<Token, Token>>>>),
        }
    } else {
        drive_str(anon_str(v))
    }
}

fn main() {
    main_with(&[
        Scenario { name: "future", run: s_fut, weight: 2 },
        Scenario { name: "stream", run: s_str, weight: 2 },
        Scenario { name: "stream min", run: s_str_min, weight: 1 },
        Scenario { name: "sink", run: s_snk, weight: 2 },
        Scenario { name: "body", run: s_bod, weight: 2 },
        Scenario { name: "body min", run: s_bod_min, weight: 1 },
        Scenario { name: "coroutine", run: s_cor, weight: 2 },
        Scenario { name: "anonymous future", run: s_anon_fut, weight: 1 },
        Scenario { name: "anonymous stream", run: s_anon_str, weight: 1 },
    ]);
}
