//! C04: concurrent programs built from generated enums lose, repeat or stall nothing.
//!
//! The reference side runs the same program with the inner types used directly; both run under
//! the seeded executor (task choice, late and spurious wakes, stalls, back-pressure, short
//! transfers, injected errors and panics, cancellation).
#![allow(clippy::all)]
use futures::future::{self, Either};
use futures::stream::{self, FuturesUnordered};
use futures::{FutureExt, Sink, SinkExt, Stream, StreamExt};
use simcore::exec::{after, reset_timers, Exec};
use simcore::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

const KINDS: &[&str] = &[
    "stall", "error", "panic", "cancel", "late-wake", "spurious-wake", "short", "end", "would-block-once",
];

fn weather() {
    swarm(KINDS);
    // fatal faults are rare: most runs have to reach their end
    for k in ["cancel", "error", "panic"] {
        set_rate(k, [0, 0, 0, 2, 5, 20][choose(6)]);
    }
}
fn nothing_fatal() -> bool {
    fault_count("cancel") + fault_count("error") + fault_count("panic") == 0
}

// ------------------------------------------------------------------ wrapping

type BS<T> = Pin<Box<dyn Stream<Item = T>>>;
type BK<T> = Pin<Box<dyn Sink<T, Error = Closed>>>;
type BF<T> = Pin<Box<dyn Future<Output = T>>>;
type BR = Pin<Box<dyn futures::io::AsyncBufRead>>;
type BW = Pin<Box<dyn futures::io::AsyncWrite>>;
type TR = Pin<Box<dyn tokio::io::AsyncBufRead>>;
type TW = Pin<Box<dyn tokio::io::AsyncWrite>>;

#[auto_enums::enum_derive(futures03::Stream)]
enum S2<A, B> { A(A), B(B) }
#[auto_enums::enum_derive(futures03::Stream, futures03::Sink, Future)]
enum All3<A, B, C> { A(A), B(B), C(C) }
#[auto_enums::enum_derive(futures03::Sink)]
enum K2<A, B> { A(A), B(B) }
#[auto_enums::enum_derive(Future)]
enum F2<A, B> { A(A), B(B) }
#[auto_enums::enum_derive(futures03::AsyncRead, futures03::AsyncBufRead)]
enum R2<A, B> { A(A), B(B) }
#[auto_enums::enum_derive(futures03::AsyncWrite)]
enum W2<A, B> { A(A), B(B) }
#[auto_enums::enum_derive(tokio1::AsyncRead, tokio1::AsyncBufRead)]
enum TR2<A, B> { A(A), B(B) }
#[auto_enums::enum_derive(tokio1::AsyncWrite)]
enum TW2<A, B> { A(A), B(B) }
#[auto_enums::enum_derive(tokio1::AsyncRead, tokio1::AsyncWrite)]
enum TRW2<A, B> { A(A), B(B) }

/// Wraps a stream in one of several generated enums (reference side: not at all).
fn ws<T: 'static, S: Stream<Item = T> + 'static>(s: S) -> BS<T> {
    let v = choose(4);
    if is_ref() {
        return Box::pin(s);
    }
    #[auto_enums::auto_enum(futures03::Stream)]
    fn anon<T: 'static, S: Stream<Item = T> + 'static>(s: Option<S>) -> impl Stream<Item = T> {
        match s { Some(s) => s, None => stream::empty() }
    }
    match v {
        0 => Box::pin(S2::<S, stream::Empty<T>>::A(s)),
        1 => Box::pin(S2::<stream::Pending<T>, S>::B(s)),
        2 => Box::pin(S2::<stream::Pending<T>, S2<S, BS<T>>>::B(S2::A(s))),
        _ => Box::pin(anon(Some(s))),
    }
}
fn wk<T: 'static, S: Sink<T, Error = Closed> + 'static>(s: S) -> BK<T> {
    let v = choose(3);
    if is_ref() {
        return Box::pin(s);
    }
    match v {
        0 => Box::pin(K2::<S, BK<T>>::A(s)),
        1 => Box::pin(K2::<BK<T>, S>::B(s)),
        _ => Box::pin(K2::<K2<BK<T>, S>, S>::A(K2::B(s))),
    }
}
fn wf<T: 'static, S: Future<Output = T> + 'static>(s: S) -> BF<T> {
    let v = choose(4);
    if is_ref() {
        return Box::pin(s);
    }
    #[auto_enums::auto_enum(Future)]
    fn anon<T: 'static, S: Future<Output = T> + 'static>(s: Result<S, T>) -> impl Future<Output = T> {
        match s { Ok(s) => s, Err(t) => future::ready(t) }
    }
    match v {
        0 => Box::pin(F2::<S, future::Pending<T>>::A(s)),
        1 => Box::pin(F2::<future::Ready<T>, S>::B(s)),
        2 => Box::pin(F2::<F2<S, BF<T>>, BF<T>>::A(F2::A(s))),
        _ => Box::pin(anon(Ok(s))),
    }
}
fn wr<S: futures::io::AsyncBufRead + 'static>(s: S) -> BR {
    let v = choose(3);
    if is_ref() {
        return Box::pin(s);
    }
    match v {
        0 => Box::pin(R2::<S, futures::io::Empty>::A(s)),
        1 => Box::pin(R2::<BR, S>::B(s)),
        _ => Box::pin(R2::<R2<BR, S>, S>::A(R2::B(s))),
    }
}
fn ww<S: futures::io::AsyncWrite + 'static>(s: S) -> BW {
    let v = choose(3);
    if is_ref() {
        return Box::pin(s);
    }
    match v {
        0 => Box::pin(W2::<S, futures::io::Sink>::A(s)),
        1 => Box::pin(W2::<BW, S>::B(s)),
        _ => Box::pin(W2::<W2<BW, S>, S>::A(W2::B(s))),
    }
}
fn tr<S: tokio::io::AsyncBufRead + 'static>(s: S) -> TR {
    let v = choose(3);
    if is_ref() {
        return Box::pin(s);
    }
    match v {
        0 => Box::pin(TR2::<S, tokio::io::Empty>::A(s)),
        1 => Box::pin(TR2::<TR, S>::B(s)),
        _ => Box::pin(TR2::<TR2<TR, S>, S>::A(TR2::B(s))),
    }
}
fn tw<S: tokio::io::AsyncWrite + 'static>(s: S) -> TW {
    let v = choose(3);
    if is_ref() {
        return Box::pin(s);
    }
    match v {
        0 => Box::pin(TW2::<S, tokio::io::Sink>::A(s)),
        1 => Box::pin(TW2::<TW, S>::B(s)),
        _ => Box::pin(TW2::<TW2<TW, S>, S>::A(TW2::B(s))),
    }
}

// ------------------------------------------------------------------ simulated world

#[derive(Debug)]
struct Closed;

fn wake_later(w: &Waker) {
    let w = w.clone();
    after(1 + choose(12) as u64, Box::new(move || w.wake()));
}

/// Time passes.
struct Sleep {
    until: Option<u64>,
    d: u64,
    _pin: std::marker::PhantomPinned,
}
fn sleep(d: u64) -> Sleep {
    Sleep { until: None, d, _pin: std::marker::PhantomPinned }
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        tick();
        let d = self.d;
        let this = unsafe { self.get_unchecked_mut() };
        let until = *this.until.get_or_insert_with(|| now() + d);
        if now() >= until {
            return Poll::Ready(());
        }
        let w = cx.waker().clone();
        after(until - now(), Box::new(move || w.wake()));
        Poll::Pending
    }
}

#[derive(Debug)]
struct Item {
    src: usize,
    n: usize,
    tok: Token,
}

/// A source of `len` numbered items.
struct Source {
    src: usize,
    n: usize,
    len: usize,
    ended: Rc<RefCell<Ended>>,
    addr: AddrProbe,
    _pin: std::marker::PhantomPinned,
}
#[derive(Default)]
struct Ended {
    made: Vec<usize>,
}
impl Stream for Source {
    type Item = Item;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Item>> {
        tick();
        let this = unsafe { self.get_unchecked_mut() };
        this.addr.pinned();
        ev!("source{} polled by w{}", this.src, waker::id_of(cx) as isize);
        maybe_panic("source");
        if fault("stall") {
            wake_later(cx.waker());
            return Poll::Pending;
        }
        if this.n == this.len {
            return Poll::Ready(None);
        }
        this.n += 1;
        this.ended.borrow_mut().made[this.src] += 1;
        Poll::Ready(Some(Item { src: this.src, n: this.n - 1, tok: Token::new("item") }))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.len - self.n, Some(self.len - self.n))
    }
}

/// A bounded channel.
struct Chan<T> {
    q: VecDeque<T>,
    cap: usize,
    senders: usize,
    receiver: bool,
    rx: Option<Waker>,
    tx: Vec<Waker>,
}
struct Tx<T>(Rc<RefCell<Chan<T>>>, usize);
struct Rx<T>(Rc<RefCell<Chan<T>>>);
fn chan<T>(cap: usize) -> (Tx<T>, Rx<T>) {
    let c = Rc::new(RefCell::new(Chan { q: VecDeque::new(), cap, senders: 1, receiver: true, rx: None, tx: vec![] }));
    (Tx(c.clone(), 0), Rx(c))
}
impl<T> Tx<T> {
    fn another(&self, id: usize) -> Tx<T> {
        self.0.borrow_mut().senders += 1;
        Tx(self.0.clone(), id)
    }
}
impl<T> Drop for Tx<T> {
    fn drop(&mut self) {
        ev!("tx{} dropped", self.1);
        let w = {
            let mut c = self.0.borrow_mut();
            c.senders -= 1;
            if c.senders == 0 { c.rx.take() } else { None }
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
impl<T> Drop for Rx<T> {
    fn drop(&mut self) {
        ev!("rx dropped");
        let (q, ws) = {
            let mut c = self.0.borrow_mut();
            c.receiver = false;
            (std::mem::take(&mut c.q), std::mem::take(&mut c.tx))
        };
        drop(q);
        ws.into_iter().for_each(Waker::wake);
    }
}
impl<T> Sink<T> for Tx<T> {
    type Error = Closed;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Closed>> {
        tick();
        let mut c = self.0.borrow_mut();
        ev!("tx{} ready? {}/{}", self.1, c.q.len(), c.cap);
        if !c.receiver || fault("error") {
            return Poll::Ready(Err(Closed));
        }
        if fault("stall") {
            wake_later(cx.waker());
            return Poll::Pending;
        }
        if c.q.len() >= c.cap {
            c.tx.push(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, item: T) -> Result<(), Closed> {
        let w = {
            let mut c = self.0.borrow_mut();
            if !c.receiver {
                drop(c);
                drop(item);
                return Err(Closed);
            }
            ev!("tx{} send", self.1);
            c.q.push_back(item);
            c.rx.take()
        };
        if let Some(w) = w {
            w.wake();
        }
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Closed>> {
        tick();
        ev!("tx{} flush", self.1);
        if fault("stall") {
            wake_later(cx.waker());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Closed>> {
        ev!("tx{} close", self.1);
        self.poll_flush(cx)
    }
}
impl<T> Stream for Rx<T> {
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        tick();
        if fault("stall") {
            wake_later(cx.waker());
            return Poll::Pending;
        }
        let (r, ws) = {
            let mut c = self.0.borrow_mut();
            match c.q.pop_front() {
                Some(t) => (Poll::Ready(Some(t)), std::mem::take(&mut c.tx)),
                None if c.senders == 0 => (Poll::Ready(None), vec![]),
                None => {
                    c.rx = Some(cx.waker().clone());
                    (Poll::Pending, vec![])
                }
            }
        };
        ws.into_iter().for_each(Waker::wake);
        r
    }
}

// ------------------------------------------------------------------ streams and sinks

fn adapt(s: BS<Item>) -> BS<Item> {
    match choose(13) {
        0 => ws(s.map(|i| { ev!("map {}", i.n); i })),
        1 => ws(s.then(|i| async move { ev!("then {}", i.n); sleep(2).await; i })),
        2 => ws(s.map(|i| wf(async move { sleep(1 + (i.n as u64 * 7) % 5).await; i })).buffered(1 + choose(3))),
        3 => ws(s.chunks(1 + choose(3)).map(stream::iter).flatten()),
        4 => ws(s.ready_chunks(2).flat_map(stream::iter)),
        5 => ws(s.peekable()),
        6 => ws(s.fuse()),
        7 => ws(s.filter(|i| { let n = i.n; async move { n < 1000 } })),
        8 => ws(s.scan(0usize, |st, i| { *st += 1; let k = *st; async move { ev!("scan {k}"); Some(i) } })),
        9 => ws(ws(s.map(Some)).chain(wf(async { None::<Item> }).into_stream()).filter_map(|x| async move { x })),
        10 => ws(s.inspect(|i| ev!("saw {}", i.n))),
        11 => ws(async move { s }.flatten_stream()),
        _ => ws(s.zip(stream::repeat(())).map(|x| x.0)),
    }
}
fn adapt_sink(k: BK<Item>) -> BK<Item> {
    match choose(4) {
        0 => wk(k.buffer(choose(3))),
        1 => wk(k.with(|i: Item| async move { ev!("with {}", i.n); sleep(1).await; Ok::<_, Closed>(i) })),
        2 => wk(k.sink_map_err(|e| e)),
        _ => wk(k.with_flat_map(|i: Item| stream::iter([Ok::<_, Closed>(i)]))),
    }
}

/// Several producers, each with its own chain of adapters, feeding one consumer through a
/// bounded channel.
fn streams() {
    weather();
    set_budget(60_000);
    let mut ex = Exec::new();
    let k = range(1, 3);
    let shared = Rc::new(RefCell::new(Ended { made: vec![0; k] }));
    let got: Rc<RefCell<Vec<Vec<usize>>>> = Rc::new(RefCell::new(vec![vec![]; k]));
    let (tx, rx) = chan(range(1, 3));
    let mut clean_ends = vec![];
    for src in 0..k {
        let mut s = ws(Source {
            src, n: 0, len: choose(7), ended: shared.clone(), addr: AddrProbe::new("source"),
            _pin: std::marker::PhantomPinned,
        });
        for _ in 0..choose(4) {
            s = adapt(s);
        }
        let mut snk = wk(tx.another(src + 1));
        for _ in 0..choose(3) {
            snk = adapt_sink(snk);
        }
        let done = Rc::new(std::cell::Cell::new(false));
        clean_ends.push(done.clone());
        let how = choose(3);
        ex.spawn(format!("producer{src}"), true, Box::pin(async move {
            let r = match how {
                0 => s.map(Ok).forward(snk).await,
                1 => {
                    let mut snk = snk;
                    let mut s = s;
                    let mut r = Ok(());
                    while let Some(i) = s.next().await {
                        r = snk.send(i).await;
                        if r.is_err() { break }
                    }
                    if r.is_ok() { snk.close().await } else { r }
                }
                _ => {
                    let mut snk = snk;
                    let mut s = s.map(Ok);
                    let r = snk.send_all(&mut s).await;
                    if r.is_ok() { snk.close().await } else { r }
                }
            };
            ev!("producer {src} ended {r:?}");
            done.set(r.is_ok());
        }));
    }
    drop(tx);
    let mut rx = ws(rx);
    for _ in 0..choose(3) {
        rx = adapt(rx);
    }
    let g = got.clone();
    let consumer_done = Rc::new(std::cell::Cell::new(false));
    let cd = consumer_done.clone();
    let leave = if chance(1, 5) { choose(5) } else { 1000 };
    ex.spawn("consumer", true, Box::pin(async move {
        let mut rx = rx;
        let mut count = 0;
        while let Some(i) = rx.next().await {
            i.tok.check();
            ev!("got {} {} {:?}", i.src, i.n, i.tok);
            g.borrow_mut()[i.src].push(i.n);
            count += 1;
            if count > leave { return }
        }
        cd.set(true);
    }));
    ex.run(range(20, 160) as u64);
    invariant!(!ex.deadlocked, "stalled", "tasks never woken although their resources are ready");
    ex.cancel_all();
    for (src, g) in got.borrow().iter().enumerate() {
        let want: Vec<usize> = (0..g.len()).collect();
        invariant!(*g == want, "order", "items of source {src} arrived as {g:?}");
        if consumer_done.get() && clean_ends[src].get() {
            let made = shared.borrow().made[src];
            invariant!(g.len() == made, "lost-items", "source {src} made {made} items, {} arrived", g.len());
        }
    }
    probe(if consumer_done.get() { "streams complete" } else { "streams cut" });
}

/// Fan-in of streams by the combinators themselves, items reach one consumer task directly.
fn fan_in() {
    weather();
    set_budget(60_000);
    let mut ex = Exec::new();
    let k = range(2, 3);
    let shared = Rc::new(RefCell::new(Ended { made: vec![0; k] }));
    let mk = |src: usize, len: usize| Source {
        src, n: 0, len, ended: shared.clone(), addr: AddrProbe::new("source"), _pin: std::marker::PhantomPinned,
    };
    let mut ss: Vec<BS<Item>> = vec![];
    for src in 0..k {
        let s = ws(mk(src, choose(6)));
        ss.push(if flip() { adapt(s) } else { s });
    }
    let s: BS<Item> = match choose(4) {
        0 => { let b = ss.pop().unwrap(); let a = ss.pop().unwrap(); ss.insert(0, ws(stream::select(a, b))); ws(stream::select_all(ss)) }
        1 => ws(stream::iter(ss).flatten()),
        2 => ws(stream::iter(ss).flatten_unordered(2)),
        _ => ws(ss.into_iter().collect::<stream::SelectAll<_>>()),
    };
    let got: Rc<RefCell<Vec<Vec<usize>>>> = Rc::new(RefCell::new(vec![vec![]; k]));
    let g = got.clone();
    let done = Rc::new(std::cell::Cell::new(false));
    let cd = done.clone();
    let conc = choose(4);
    ex.spawn("consumer", true, Box::pin(async move {
        s.for_each_concurrent(1 + conc, |i| {
            let g = g.clone();
            wf(async move {
                g.borrow_mut()[i.src].push(i.n);
                sleep(i.n as u64 % 3).await;
                ev!("handled {} {} {:?}", i.src, i.n, i.tok);
            })
        }).await;
        cd.set(true);
    }));
    ex.run(range(20, 160) as u64);
    invariant!(!ex.deadlocked, "stalled", "tasks never woken although their resources are ready");
    ex.cancel_all();
    for (src, g) in got.borrow().iter().enumerate() {
        let want: Vec<usize> = (0..g.len()).collect();
        invariant!(*g == want, "order", "items of source {src} arrived as {g:?}");
        if done.get() {
            let made = shared.borrow().made[src];
            invariant!(g.len() == made, "lost-items", "source {src} made {made} items, {} arrived", g.len());
        }
    }
    probe(if done.get() { "fan-in complete" } else { "fan-in cut" });
}

// ------------------------------------------------------------------ futures

/// A tree of joined, raced and sequenced futures.
fn tree(depth: usize, id: &mut usize, out: &Rc<RefCell<Vec<String>>>) -> BF<usize> {
    *id += 1;
    let me = *id;
    let o = out.clone();
    let leaf = depth == 0;
    match if leaf { choose(3) } else { 3 + choose(5) } {
        0 => wf(async move { o.borrow_mut().push(format!("{me}")); me }),
        1 => { let d = choose(9) as u64; wf(sleep(d).map(move |_| { ev!("slept {me}"); me })) }
        2 => {
            let t = Token::new("held over await");
            wf(async move {
                for i in 0..2 {
                    ev!("leaf {me} step {i}");
                    maybe_panic("leaf");
                    sleep(1).await;
                }
                t.check();
                me
            })
        }
        3 => { let a = tree(depth - 1, id, out); let b = tree(depth - 1, id, out); wf(future::join(a, b).map(|(a, b)| a + b)) }
        4 => {
            let a = tree(depth - 1, id, out);
            let b = tree(depth - 1, id, out);
            // the loser is dropped: cancellation
            wf(future::select(a, b).map(move |e| match e {
                Either::Left((x, _)) => { ev!("{me} left"); x }
                Either::Right((x, _)) => { ev!("{me} right"); x }
            }))
        }
        5 => { let a = tree(depth - 1, id, out); let b = tree(depth - 1, id, out); wf(a.then(move |x| b.map(move |y| x * 2 + y))) }
        6 => {
            let v: Vec<_> = (0..choose(4)).map(|_| tree(depth - 1, id, out)).collect();
            wf(async move {
                let mut fu: FuturesUnordered<_> = v.into_iter().collect();
                let mut s = 0;
                while let Some(x) = fu.next().await {
                    ev!("{me} part {x}");
                    s += x;
                }
                s
            })
        }
        _ => {
            let a = tree(depth - 1, id, out);
            wf(async move {
                let sh = a.shared();
                let (x, y) = future::join(sh.clone(), sh).await;
                assert_eq!(x, y);
                x
            })
        }
    }
}
fn futures_tree() {
    weather();
    set_budget(60_000);
    let mut ex = Exec::new();
    let out = Rc::new(RefCell::new(vec![]));
    let n = range(1, 3);
    let done = Rc::new(std::cell::Cell::new(0));
    for t in 0..n {
        let mut id = t * 100;
        let d = range(1, 3);
        let f = tree(d, &mut id, &out);
        let dn = done.clone();
        ex.spawn(format!("task{t}"), true, Box::pin(async move {
            let r = f.await;
            ev!("task{t} -> {r}");
            dn.set(dn.get() + 1);
        }));
    }
    ex.run(range(10, 100) as u64);
    invariant!(!ex.deadlocked, "stalled", "tasks never woken although their futures are ready");
    ex.cancel_all();
    ev!("order {:?}", out.borrow());
    probe(if done.get() == n { "futures complete" } else { "futures cut" });
}

// ------------------------------------------------------------------ bytes

struct Pipe {
    q: VecDeque<u8>,
    cap: usize,
    writer: bool,
    reader: bool,
    rx: Option<Waker>,
    tx: Option<Waker>,
    seen: usize,
}
struct PipeW(Rc<RefCell<Pipe>>, &'static str);
struct PipeR(Rc<RefCell<Pipe>>, &'static str, Vec<u8>);
fn pipe(name: &'static str, cap: usize) -> (PipeW, PipeR) {
    let p = Rc::new(RefCell::new(Pipe { q: VecDeque::new(), cap, writer: true, reader: true, rx: None, tx: None, seen: 0 }));
    (PipeW(p.clone(), name), PipeR(p, name, vec![]))
}
impl Drop for PipeW {
    fn drop(&mut self) {
        ev!("{} writer dropped", self.1);
        self.0.borrow_mut().writer = false;
        let w = self.0.borrow_mut().rx.take();
        w.map(Waker::wake);
    }
}
impl Drop for PipeR {
    fn drop(&mut self) {
        ev!("{} reader dropped", self.1);
        self.0.borrow_mut().reader = false;
        let w = self.0.borrow_mut().tx.take();
        w.map(Waker::wake);
    }
}
impl PipeW {
    fn put(&self, what: &str, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        tick();
        ev!("{} {what} {} by w{}", self.1, b.len(), waker::id_of(cx) as isize);
        maybe_panic("pipe write");
        if fault("error") {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::StorageFull, "disk full")));
        }
        if fault("stall") {
            wake_later(cx.waker());
            return Poll::Pending;
        }
        let (n, w) = {
            let mut p = self.0.borrow_mut();
            if !p.reader {
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            let room = p.cap - p.q.len();
            if room == 0 && !b.is_empty() {
                p.tx = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let mut n = room.min(b.len());
            if n > 1 && fault("short") {
                n = 1 + choose(n - 1);
            }
            p.q.extend(&b[..n]);
            (n, p.rx.take())
        };
        w.map(Waker::wake);
        Poll::Ready(Ok(n))
    }
    fn sync(&self, what: &str, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        tick();
        ev!("{} {what} by w{}", self.1, waker::id_of(cx) as isize);
        if fault("stall") {
            wake_later(cx.waker());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn shut(&self, what: &str, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.sync(what, cx).is_pending() {
            return Poll::Pending;
        }
        self.0.borrow_mut().writer = false;
        let w = self.0.borrow_mut().rx.take();
        w.map(Waker::wake);
        Poll::Ready(Ok(()))
    }
}
impl PipeR {
    /// number of bytes that may be taken now
    fn avail(&self, what: &str, cx: &mut Context<'_>, max: usize) -> Poll<io::Result<usize>> {
        tick();
        ev!("{} {what} {max} by w{}", self.1, waker::id_of(cx) as isize);
        maybe_panic("pipe read");
        if fault("error") {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset")));
        }
        if fault("stall") {
            wake_later(cx.waker());
            return Poll::Pending;
        }
        let mut p = self.0.borrow_mut();
        if p.q.is_empty() {
            if !p.writer {
                return Poll::Ready(Ok(0));
            }
            p.rx = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = p.q.len().min(max);
        if n > 1 && fault("short") {
            n = 1 + choose(n - 1);
        }
        Poll::Ready(Ok(n))
    }
    fn pull(&self, n: usize) -> Vec<u8> {
        let (v, w) = {
            let mut p = self.0.borrow_mut();
            p.seen += n;
            (p.q.drain(..n).collect(), p.tx.take())
        };
        w.map(Waker::wake);
        v
    }
    fn fill(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.2.is_empty() {
            match self.avail("fill", cx, 4) {
                Poll::Ready(Ok(n)) => self.2 = self.pull(n),
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            }
        }
        Poll::Ready(Ok(()))
    }
}
macro_rules! vectored_total {
    ($b:expr) => { $b.iter().flat_map(|s| s.iter().copied()).collect::<Vec<u8>>() };
}
impl futures::io::AsyncWrite for PipeW {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { self.put("write", cx, b) }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        self.put("writev", cx, &vectored_total!(b))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.sync("flush", cx) }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.shut("close", cx) }
}
impl tokio::io::AsyncWrite for PipeW {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { self.put("write", cx, b) }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        self.put("writev", cx, &vectored_total!(b))
    }
    fn is_write_vectored(&self) -> bool { true }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.sync("flush", cx) }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.shut("shutdown", cx) }
}
impl futures::io::AsyncRead for PipeR {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.fill(cx)?.is_pending() { return Poll::Pending; }
        let n = self.2.len().min(b.len());
        b[..n].copy_from_slice(&self.2[..n]);
        self.2.drain(..n);
        Poll::Ready(Ok(n))
    }
}
impl futures::io::AsyncBufRead for PipeR {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        if this.fill(cx)?.is_pending() { return Poll::Pending; }
        Poll::Ready(Ok(&this.2))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) { ev!("{} consume {n}", self.1); self.2.drain(..n); }
}
impl tokio::io::AsyncRead for PipeR {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        if self.fill(cx)?.is_pending() { return Poll::Pending; }
        let n = self.2.len().min(b.remaining());
        b.put_slice(&self.2[..n]);
        self.2.drain(..n);
        Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncBufRead for PipeR {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        if this.fill(cx)?.is_pending() { return Poll::Pending; }
        Poll::Ready(Ok(&this.2))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) { ev!("{} consume {n}", self.1); self.2.drain(..n); }
}

fn payload() -> Vec<u8> {
    let n = choose(40);
    (0..n).map(|i| if i % 5 == 4 { b'\n' } else { b'a' + (i % 26) as u8 }).collect()
}
fn check_bytes(what: &str, sent: &[u8], got: &[u8], complete: bool) {
    invariant!(sent.starts_with(got), "bytes-differ", "{what}: sent {sent:?}, got {got:?}");
    if complete {
        invariant!(sent.len() == got.len(), "bytes-lost", "{what}: {} bytes sent, {} arrived", sent.len(), got.len());
    }
}
type Flag = Rc<std::cell::Cell<bool>>;

fn bytes_futures() {
    use futures::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt};
    weather();
    set_budget(60_000);
    let mut ex = Exec::new();
    let data = payload();
    let got = Rc::new(RefCell::new(vec![]));
    let (w1, r1) = pipe("pipe1", range(1, 6));
    let (w2, r2) = pipe("pipe2", range(1, 6));
    let (ok1, ok2, ok3): (Flag, Flag, Flag) = Default::default();
    let (d, k) = (data.clone(), ok1.clone());
    let w: BW = match choose(3) {
        0 => ww(w1),
        1 => ww(futures::io::BufWriter::with_capacity(1 + choose(6), ww(w1))),
        _ => ww(ww(ww(w1))),
    };
    let how = choose(3);
    ex.spawn("writer", true, Box::pin(async move {
        let mut w = w;
        let r = async {
            match how {
                0 => w.write_all(&d).await?,
                1 => for c in d.chunks(3) { w.write_all(c).await?; w.flush().await?; sleep(2).await; },
                _ => {
                    let mut at = 0;
                    while at < d.len() {
                        let (a, b) = d[at..].split_at((d.len() - at) / 2);
                        at += w.write_vectored(&[io::IoSlice::new(a), io::IoSlice::new(b)]).await?;
                    }
                }
            }
            w.close().await
        }.await;
        ev!("writer {r:?}");
        k.set(r.is_ok());
    }));
    let k = ok2.clone();
    let r1 = wr(r1);
    let r1: BR = match choose(4) {
        0 => r1,
        1 => wr(futures::io::BufReader::with_capacity(1 + choose(5), r1)),
        2 => wr(r1.chain(futures::io::empty())),
        _ => wr(r1.take(1000)),
    };
    let w2 = ww(w2);
    let how = choose(3);
    ex.spawn("copier", true, Box::pin(async move {
        let mut w2 = w2;
        let r = match how {
            0 => futures::io::copy(r1, &mut w2).await,
            1 => futures::io::copy_buf(r1, &mut w2).await,
            _ => {
                let mut r1 = r1;
                let mut n = 0;
                loop {
                    let mut line = vec![];
                    match r1.read_until(b'\n', &mut line).await {
                        Ok(0) => break Ok(n),
                        Ok(m) => { n += m as u64; if let Err(e) = w2.write_all(&line).await { break Err(e) } }
                        Err(e) => break Err(e),
                    }
                }
            }
        };
        ev!("copier {r:?}");
        let c = w2.close().await;
        k.set(r.is_ok() && c.is_ok());
    }));
    let (k, g) = (ok3.clone(), got.clone());
    let r2 = wr(r2);
    let how = choose(2);
    ex.spawn("reader", true, Box::pin(async move {
        let mut r2 = r2;
        let mut buf = [0; 5];
        let r = loop {
            let x = if how == 0 { r2.read(&mut buf).await } else {
                match r2.fill_buf().await {
                    Ok(b) => { let n = b.len().min(3); buf[..n].copy_from_slice(&b[..n]); r2.consume_unpin(n); Ok(n) }
                    Err(e) => Err(e),
                }
            };
            match x {
                Ok(0) => break Ok(()),
                Ok(n) => g.borrow_mut().extend_from_slice(&buf[..n]),
                Err(e) => break Err(e),
            }
        };
        ev!("reader {r:?}");
        k.set(r.is_ok());
    }));
    ex.run(range(20, 200) as u64);
    invariant!(!ex.deadlocked, "stalled", "tasks never woken although bytes are ready");
    ex.cancel_all();
    let complete = ok1.get() && ok2.get() && ok3.get();
    check_bytes("futures pipeline", &data, &got.borrow(), complete);
    probe(if complete { "futures bytes complete" } else { "futures bytes cut" });
}

fn bytes_tokio() {
    use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt};
    weather();
    set_budget(60_000);
    let mut ex = Exec::new();
    let data = payload();
    let got = Rc::new(RefCell::new(vec![]));
    let (w1, r1) = pipe("pipe1", range(1, 6));
    let (w2, r2) = pipe("pipe2", range(1, 6));
    let (ok1, ok2, ok3): (Flag, Flag, Flag) = Default::default();
    let (d, k) = (data.clone(), ok1.clone());
    let w: TW = match choose(3) {
        0 => tw(w1),
        1 => tw(tokio::io::BufWriter::with_capacity(1 + choose(6), tw(w1))),
        _ => tw(tw(w1)),
    };
    let how = choose(3);
    ex.spawn("writer", true, Box::pin(async move {
        let mut w = w;
        let r: io::Result<()> = async {
            match how {
                0 => w.write_all(&d).await?,
                1 => for c in d.chunks(3) { w.write_all(c).await?; w.flush().await?; sleep(2).await; },
                _ => {
                    let mut at = 0;
                    while at < d.len() {
                        let (a, b) = d[at..].split_at((d.len() - at) / 2);
                        at += w.write_vectored(&[io::IoSlice::new(a), io::IoSlice::new(b)]).await?;
                    }
                }
            }
            w.shutdown().await
        }.await;
        ev!("writer {r:?}");
        k.set(r.is_ok());
    }));
    let k = ok2.clone();
    let r1 = tr(r1);
    let r1: TR = match choose(4) {
        0 => r1,
        1 => tr(tokio::io::BufReader::with_capacity(1 + choose(5), r1)),
        2 => tr(r1.chain(tokio::io::empty())),
        _ => tr(r1.take(1000)),
    };
    let w2 = tw(w2);
    let how = choose(3);
    ex.spawn("copier", true, Box::pin(async move {
        let mut r1 = r1;
        let mut w2 = w2;
        let r: io::Result<u64> = match how {
            0 => tokio::io::copy(&mut r1, &mut w2).await,
            1 => tokio::io::copy_buf(&mut r1, &mut w2).await,
            _ => {
                let mut n = 0;
                loop {
                    let mut line = vec![];
                    match r1.read_until(b'\n', &mut line).await {
                        Ok(0) => break Ok(n),
                        Ok(m) => { n += m as u64; if let Err(e) = w2.write_all(&line).await { break Err(e) } }
                        Err(e) => break Err(e),
                    }
                }
            }
        };
        ev!("copier {r:?}");
        let c = w2.shutdown().await;
        k.set(r.is_ok() && c.is_ok());
    }));
    let (k, g) = (ok3.clone(), got.clone());
    let r2 = tr(r2);
    let how = choose(2);
    ex.spawn("reader", true, Box::pin(async move {
        let mut r2 = r2;
        let mut buf = [0; 5];
        let r: io::Result<()> = loop {
            let x = if how == 0 { r2.read(&mut buf).await } else {
                match r2.fill_buf().await {
                    Ok(b) => { let n = b.len().min(3); buf[..n].copy_from_slice(&b[..n]); r2.consume(n); Ok(n) }
                    Err(e) => Err(e),
                }
            };
            match x {
                Ok(0) => break Ok(()),
                Ok(n) => g.borrow_mut().extend_from_slice(&buf[..n]),
                Err(e) => break Err(e),
            }
        };
        ev!("reader {r:?}");
        k.set(r.is_ok());
    }));
    ex.run(range(20, 200) as u64);
    invariant!(!ex.deadlocked, "stalled", "tasks never woken although bytes are ready");
    ex.cancel_all();
    let complete = ok1.get() && ok2.get() && ok3.get();
    check_bytes("tokio pipeline", &data, &got.borrow(), complete);
    probe(if complete { "tokio bytes complete" } else { "tokio bytes cut" });
}

/// A duplex connection: one enum used for both directions.
struct Duplex(PipeR, PipeW);
impl tokio::io::AsyncRead for Duplex {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        tokio::io::AsyncRead::poll_read(Pin::new(&mut self.0), cx, b)
    }
}
impl tokio::io::AsyncWrite for Duplex {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { self.1.put("write", cx, b) }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.1.sync("flush", cx) }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.1.shut("shutdown", cx) }
}
trait Conn: tokio::io::AsyncRead + tokio::io::AsyncWrite {}
impl<T: tokio::io::AsyncRead + tokio::io::AsyncWrite> Conn for T {}
type BC = Pin<Box<dyn Conn>>;
fn wc<S: Conn + 'static>(s: S) -> BC {
    let v = choose(2);
    if is_ref() {
        return Box::pin(s);
    }
    match v {
        0 => Box::pin(TRW2::<S, BC>::A(s)),
        _ => Box::pin(TRW2::<BC, TRW2<S, BC>>::B(TRW2::A(s))),
    }
}
/// client <-> proxy <-> echo server, over enums, with split halves
fn bytes_proxy() {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    weather();
    set_budget(60_000);
    let mut ex = Exec::new();
    let data = payload();
    let (w1, r1) = pipe("c->p", range(1, 5));
    let (w2, r2) = pipe("p->c", range(1, 5));
    let (w3, r3) = pipe("p->s", range(1, 5));
    let (w4, r4) = pipe("s->p", range(1, 5));
    let client = wc(Duplex(r2, w1));
    let a = wc(Duplex(r1, w2));
    let b = wc(Duplex(r4, w3));
    let server = wc(Duplex(r3, w4));
    let (ok1, ok2, ok3): (Flag, Flag, Flag) = Default::default();
    let got = Rc::new(RefCell::new(vec![]));
    let k = ok1.clone();
    ex.spawn("proxy", true, Box::pin(async move {
        let (mut a, mut b) = (a, b);
        let r = tokio::io::copy_bidirectional_with_sizes(&mut a, &mut b, 4, 3).await;
        ev!("proxy {r:?}");
        k.set(r.is_ok());
    }));
    let k = ok2.clone();
    ex.spawn("server", true, Box::pin(async move {
        let (mut r, mut w) = tokio::io::split(server);
        let x = tokio::io::copy(&mut r, &mut w).await;
        let y = w.shutdown().await;
        ev!("server {x:?} {y:?}");
        k.set(x.is_ok() && y.is_ok());
    }));
    let (k, g, d) = (ok3.clone(), got.clone(), data.clone());
    ex.spawn("client", true, Box::pin(async move {
        let (mut r, mut w) = tokio::io::split(client);
        let wr = async move { w.write_all(&d).await?; w.shutdown().await };
        let rd = async move {
            let mut b = [0; 4];
            loop {
                let n = r.read(&mut b).await?;
                if n == 0 { break io::Result::Ok(()) }
                g.borrow_mut().extend_from_slice(&b[..n]);
            }
        };
        let r = future::join(wr, rd).await;
        ev!("client {r:?}");
        k.set(r.0.is_ok() && r.1.is_ok());
    }));
    ex.run(range(20, 200) as u64);
    invariant!(!ex.deadlocked || !nothing_fatal(), "stalled", "tasks never woken although bytes are ready");
    ex.cancel_all();
    let complete = ok1.get() && ok2.get() && ok3.get();
    check_bytes("echo", &data, &got.borrow(), complete);
    probe(if complete { "proxy complete" } else { "proxy cut" });
}

/// One enum that is a stream, a sink and a future at once, shared between roles.
struct Hub {
    q: VecDeque<u32>,
    w: Option<Waker>,
    closed: bool,
    addr: AddrProbe,
    _pin: std::marker::PhantomPinned,
}
impl Hub {
    fn new() -> Hub { Hub { q: VecDeque::new(), w: None, closed: false, addr: AddrProbe::new("hub"), _pin: std::marker::PhantomPinned } }
    fn me(self: Pin<&mut Self>) -> &mut Hub { tick(); let h = unsafe { self.get_unchecked_mut() }; h.addr.pinned(); h }
    fn gate(&mut self, cx: &mut Context<'_>) -> bool {
        if fault("stall") { wake_later(cx.waker()); return true; }
        false
    }
}
impl Stream for Hub {
    type Item = u32;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        let h = self.me();
        if h.gate(cx) { return Poll::Pending; }
        match h.q.pop_front() {
            Some(x) => Poll::Ready(Some(x)),
            None if h.closed => Poll::Ready(None),
            None => { h.w = Some(cx.waker().clone()); Poll::Pending }
        }
    }
}
impl Sink<u32> for Hub {
    type Error = Closed;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Closed>> {
        let h = self.me();
        if h.gate(cx) { Poll::Pending } else if h.closed { Poll::Ready(Err(Closed)) } else { Poll::Ready(Ok(())) }
    }
    fn start_send(self: Pin<&mut Self>, x: u32) -> Result<(), Closed> {
        let h = self.me();
        h.q.push_back(x);
        h.w.take().map(Waker::wake);
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Closed>> { if self.me().gate(cx) { Poll::Pending } else { Poll::Ready(Ok(())) } }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Closed>> {
        let h = self.me();
        if h.gate(cx) { return Poll::Pending; }
        h.closed = true;
        h.w.take().map(Waker::wake);
        Poll::Ready(Ok(()))
    }
}
impl Future for Hub {
    type Output = usize;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<usize> { let h = self.me(); if h.gate(cx) { Poll::Pending } else { Poll::Ready(h.q.len()) } }
}
fn hub_program<T: Stream<Item = u32> + Sink<u32, Error = Closed> + Future<Output = usize> + 'static>(t: T) {
    let mut ex = Exec::new();
    let n = choose(8) as u32;
    let (k, s) = t.split();
    let g: Rc<RefCell<Vec<u32>>> = Default::default();
    let got = g.clone();
    let ok: Flag = Default::default();
    let done = ok.clone();
    ex.spawn("sender", true, Box::pin(async move {
        let mut k = k;
        for i in 0..n { if k.send(i).await.is_err() { return } ev!("sent {i}"); }
        let _ = k.close().await;
    }));
    ex.spawn("receiver", true, Box::pin(async move {
        let mut s = s;
        while let Some(x) = s.next().await { ev!("got {x}"); got.borrow_mut().push(x); }
        done.set(true);
    }));
    ex.run(range(20, 120) as u64);
    // without the sender nobody closes the hub: then the receiver waits for ever
    ev!("deadlocked {}", ex.deadlocked);
    invariant!(!ex.deadlocked || !nothing_fatal(), "stalled", "tasks never woken although items are ready");
    ex.cancel_all();
    let v = g.borrow().clone();
    invariant!(v == (0..v.len() as u32).collect::<Vec<_>>(), "order", "hub delivered {v:?}");
    if ok.get() { invariant!(v.len() == n as usize, "lost-items", "hub delivered {} of {n}", v.len()); }
}
fn hub() {
    weather();
    set_budget(60_000);
    let v = choose(3);
    if is_ref() { return hub_program(Hub::new()); }
    match v {
        0 => hub_program(All3::<Hub, Hub, Hub>::A(Hub::new())),
        1 => hub_program(All3::<Hub, All3<Hub, Hub, Hub>, Hub>::B(All3::B(Hub::new()))),
        _ => hub_program(All3::<Hub, Hub, Hub>::C(Hub::new())),
    }
}

fn main() {
    main_with(&[
        Scenario { name: "streams through a channel", run: || { streams(); reset_timers() }, weight: 3 },
        Scenario { name: "fan-in", run: || { fan_in(); reset_timers() }, weight: 2 },
        Scenario { name: "future trees", run: || { futures_tree(); reset_timers() }, weight: 2 },
        Scenario { name: "futures bytes", run: || { bytes_futures(); reset_timers() }, weight: 2 },
        Scenario { name: "tokio bytes", run: || { bytes_tokio(); reset_timers() }, weight: 2 },
        Scenario { name: "tokio proxy", run: || { bytes_proxy(); reset_timers() }, weight: 2 },
        Scenario { name: "stream, sink and future in one", run: || { hub(); reset_timers() }, weight: 1 },
    ]);
}
