//! C03: futures 0.1 Future, Stream and Sink.
#![allow(clippy::all)]
use futures::{Async, AsyncSink, Future, Poll, Sink, StartSend, Stream};
use simcore::*;
use simold01::*;

const KINDS: &[&str] = &["pending", "error", "end", "panic", "wake-old", "self-wake", "back-pressure"];

pub struct Core {
    v: usize,
    left: usize,
    accepted: Vec<String>,
    parked: Parked,
    _token: Token,
}
impl Core {
    fn new(v: usize) -> Core {
        swarm(KINDS);
        Core { v, left: choose(6), accepted: vec![], parked: Parked::default(), _token: Token::new("source") }
    }
    fn poll(&mut self, what: &str) -> bool {
        tick();
        ev!("src{}.{what}", self.v);
        if fault("wake-old") {
            self.parked.wake();
        }
        maybe_panic("source poll");
        if fault("pending") {
            self.parked.park();
            return true;
        }
        false
    }
    fn next(&mut self) -> Result<Option<Token>, Token> {
        if fault("error") {
            return Err(Token::new("error"));
        }
        if self.left == 0 || fault("end") {
            return Ok(None);
        }
        self.left -= 1;
        Ok(Some(Token::new("item")))
    }
}
impl Drop for Core {
    fn drop(&mut self) {
        ev!("src{} dropped left={} accepted={:?}", self.v, self.left, self.accepted);
    }
}
macro_rules! device {
    ($($D:ident),*) => {$(
        pub struct $D<const V: usize>(Core);
        #[allow(dead_code)]
        impl<const V: usize> $D<V> {
            fn mk() -> Self { ev!("{} {V}", stringify!($D)); $D(Core::new(V)) }
            // decoys
            fn poll(&mut self) { violate("inherent-method-called", "poll".into()) }
            fn start_send(&mut self) { violate("inherent-method-called", "start_send".into()) }
            fn poll_complete(&mut self) { violate("inherent-method-called", "poll_complete".into()) }
            fn close(&mut self) { violate("inherent-method-called", "close".into()) }
        }
    )*};
}
device!(Fut, Str, Snk, SnkMin);
impl<const V: usize> Future for Fut<V> {
    type Item = Token;
    type Error = Token;
    fn poll(&mut self) -> Poll<Token, Token> {
        if self.0.poll("poll") { return Ok(Async::NotReady); }
        self.0.next().map(|x| Async::Ready(x.unwrap_or_else(|| Token::new("last"))))
    }
}
impl<const V: usize> Stream for Str<V> {
    type Item = Token;
    type Error = Token;
    fn poll(&mut self) -> Poll<Option<Token>, Token> {
        if self.0.poll("poll") { return Ok(Async::NotReady); }
        self.0.next().map(Async::Ready)
    }
}
macro_rules! sink {
    ($D:ident {$($c:tt)*}) => {
        impl<const V: usize> Sink for $D<V> {
            type SinkItem = Token;
            type SinkError = Token;
            fn start_send(&mut self, item: Token) -> StartSend<Token, Token> {
                if self.0.poll("start_send") || fault("back-pressure") { return Ok(AsyncSink::NotReady(item)); }
                if fault("error") { return Err(item); }
                self.0.accepted.push(format!("{item:?}"));
                Ok(AsyncSink::Ready)
            }
            fn poll_complete(&mut self) -> Poll<(), Token> {
                if self.0.poll("poll_complete") { return Ok(Async::NotReady); }
                if fault("error") { return Err(Token::new("flush")); }
                Ok(Async::Ready(()))
            }
            $($c)*
        }
    };
}
sink!(Snk {
    fn close(&mut self) -> Poll<(), Token> {
        if self.0.poll("close") { return Ok(Async::NotReady); }
        if fault("error") { return Err(Token::new("close")); }
        Ok(Async::Ready(()))
    }
});
sink!(SnkMin {});

enum_shapes!(fut, [futures01::Future], Fut);
enum_shapes!(strm, [futures01::Stream], Str);
enum_shapes!(snk, [futures01::Sink], Snk);
enum_shapes!(snk_min, [futures01::Sink], SnkMin);

fn history<T>(t: T, op: impl Fn(&mut T)) {
    let mut t = Box::new(t);
    for i in 0..range(1, 10) {
        catch(&format!("op {i}"), || op(&mut t));
    }
}
fn drive_fut<T: Future<Item = Token, Error = Token>>(t: T) {
    if chance(1, 4) {
        let mut f = futures::executor::spawn(t.then(|r| { ev!("then {r:?}"); r }).fuse());
        for _ in 0..range(1, 6) {
            catch("fused", || ev!("{:?}", f.poll_future_notify(&handle(), choose(4))));
        }
        return;
    }
    history(t, |t| { let w = choose(4); ev!("poll -> {:?}", in_task(w, || Future::poll(t))) })
}
fn drive_str<T: Stream<Item = Token, Error = Token>>(t: T) {
    if chance(1, 4) {
        let mut f = futures::executor::spawn(t.take(3).collect());
        for _ in 0..range(1, 8) {
            match catch("collect", || f.poll_future_notify(&handle(), choose(4))) {
                Some(Ok(Async::NotReady)) => {}
                x => { ev!("{x:?}"); break }
            }
        }
        return;
    }
    history(t, |t| { let w = choose(4); ev!("poll -> {:?}", in_task(w, || Stream::poll(t))) })
}
fn drive_snk<T: Sink<SinkItem = Token, SinkError = Token>>(t: T) {
    history(t, |t| {
        let w = choose(4);
        match choose(3) {
            0 => { let i = Token::new("sent"); ev!("start_send -> {:?}", in_task(w, || Sink::start_send(t, i))) }
            1 => ev!("poll_complete -> {:?}", in_task(w, || Sink::poll_complete(t))),
            _ => ev!("close -> {:?}", in_task(w, || Sink::close(t))),
        }
    })
}
fn s_fut() { drive_shapes!(fut, Fut, drive_fut) }
fn s_str() { drive_shapes!(strm, Str, drive_str) }
fn s_snk() { drive_shapes!(snk, Snk, drive_snk) }
fn s_snk_min() { drive_shapes!(snk_min, SnkMin, drive_snk) }
fn main() {
    main_with(&[
        Scenario { name: "futures01 future", run: s_fut, weight: 1 },
        Scenario { name: "futures01 stream", run: s_str, weight: 1 },
        Scenario { name: "futures01 sink", run: s_snk, weight: 1 },
        Scenario { name: "futures01 sink min", run: s_snk_min, weight: 1 },
    ]);
}
