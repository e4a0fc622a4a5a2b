//! Runtime of the generated programs: decision points, fault points and branch values.
#![allow(clippy::all)]
#![feature(fn_traits, unboxed_closures, decl_macro, never_type)]
pub use simcore;
pub use simcore::{catch, choose, ev, flip, is_ref, main_with, maybe_panic, range, tick, Scenario, Token};
use simcore::*;
use std::cell::Cell;
use std::error::Error;
use std::fmt::{self, Debug, Display};
use std::future::Future;
use std::io::Read;
use std::pin::Pin;
use std::task::{Context, Poll};

pub const KINDS: &[&str] = &["panic", "fails", "pending", "cancel"];

thread_local! {
    static EXITS: Cell<u32> = const { Cell::new(0) };
}
/// Generated code reached something of the user's module instead of what it meant.
pub fn captured(what: &str) {
    violate("captured", format!("generated code calls the user's {what}"));
}
pub fn start() {
    EXITS.with(|e| e.set(0));
    swarm(&KINDS[..1]);
    swarm(&KINDS[2..]);
    // `?` steps: anything between never and nearly always
    set_rate("fails", [0, 10, 40, 90, 150, 230][choose(6)]);
}

// ------------------------------------------------------------------ decisions

pub fn op(site: u32) -> u32 {
    tick();
    maybe_panic("op");
    let r = choose(5) as u32;
    ev!("op {site} = {r}");
    r
}
pub fn log(site: u32, v: u32) {
    ev!("log {site} {v}");
}
pub fn cond(site: u32) -> bool {
    tick();
    let r = flip();
    ev!("cond {site} = {r}");
    r
}
/// condition that ends a loop: true after a few turns
pub fn exit(site: u32) -> bool {
    tick();
    let n = EXITS.with(|e| { e.set(e.get() + 1); e.get() });
    let r = n > 24 || flip();
    ev!("exit {site} = {r}");
    r
}
pub fn pick(site: u32, n: usize) -> usize {
    tick();
    let r = choose(n);
    ev!("pick {site} = {r}");
    r
}
pub fn opt(site: u32) -> Option<u32> {
    tick();
    let r = if flip() { Some(choose(4) as u32) } else { None };
    ev!("opt {site} = {r:?}");
    r
}
pub fn diverge(site: u32) -> ! {
    ev!("diverge {site}");
    std::panic::panic_any(SimPanic(format!("diverge {site}")))
}
pub async fn never(site: u32) -> ! { diverge(site) }
pub fn never_ok<const I: u32>(site: u32) -> Result<!, Er<I>> { fails::<I>(site)?; diverge(site) }
/// cannot fail: its error converts into everything
pub fn nope(site: u32) -> Result<!, !> { diverge(site) }
pub fn same<T>(x: T) -> T { x }
pub trait IsSame: Sized {
    fn same(self) -> Self { self }
}
impl<T> IsSame for T {}
pub struct Same<T> { pub v: T }
impl<T> Same<T> { pub fn never(self, site: u32) -> ! { diverge(site) } }
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Shape {
    Unit,
    Pair(u32, u32),
    Rec { a: u32, b: bool },
}
pub fn shape(site: u32) -> Shape {
    tick();
    let r = match choose(3) {
        0 => Shape::Unit,
        1 => Shape::Pair(choose(3) as u32, choose(3) as u32),
        _ => Shape::Rec { a: choose(3) as u32, b: flip() },
    };
    ev!("shape {site} = {r:?}");
    r
}

/// Logs its drop; the value inside can be read.
pub struct Guard(Token, u32);
pub fn guard(site: u32) -> Guard {
    ev!("guard {site}");
    Guard(Token::new("guard"), site)
}
/// two of them, taken apart by patterns
pub struct Hold(pub Guard, pub Guard);
/// a value on its way: moved about, or lost to a panic
pub fn hand<T>(t: T) -> T {
    tick();
    let r = match choose(4) {
        0 => return t,
        1 => *Box::new(t),
        2 => Some(t).take().unwrap(),
        _ => { let mut v = vec![t]; v.swap_remove(0) }
    };
    maybe_panic("hand");
    r
}
/// ... of the values of annotated code, when that is what is looked at
fn through<T>(t: T) -> T { if options().drop_panic { hand(t) } else { t } }
pub fn opt_val(site: u32) -> Option<Guard> { opt(site).map(|_| guard(site)) }
/// gives up to three values while holding one
pub fn holding(g: Guard) -> impl Iterator<Item = Guard> {
    let n = choose(4) as u32;
    (0..n).map(move |i| { maybe_panic("holding"); guard(g.get() + i) })
}
pub fn fails_with<const I: u32>(site: u32, g: Guard) -> Result<Guard, Er<I>> { fails::<I>(site)?; Ok(g) }
pub fn fails_ref<const I: u32>(g: &Guard) -> Result<u32, Er<I>> { fails::<I>(g.get()) }
impl Guard {
    pub fn opt(&self) -> Option<u32> { opt(self.1) }
    pub fn pick(&self, n: usize) -> &'static usize { &[0, 1, 2, 3, 4, 5, 6, 7][pick(self.1, n)] }
    pub fn get(&self) -> u32 { self.0.check(); self.1 }
}
impl Drop for Guard {
    fn drop(&mut self) { ev!("end of guard {}", self.1) }
}

// ------------------------------------------------------------------ failures

pub struct Er<const I: u32> {
    tok: Token,
    site: u32,
    cause: Option<Cause>,
}
pub struct Cause(Token);
impl Debug for Cause { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Cause({:?})", self.0) } }
impl Display for Cause { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "cause") } }
impl Error for Cause {}
impl<const I: u32> Debug for Er<I> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Er{I}({:?} at {})", self.tok, self.site) } }
impl<const I: u32> Display for Er<I> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.tok.check(); write!(f, "error {I} at {}", self.site) } }
impl<const I: u32> Error for Er<I> {
    fn source(&self) -> Option<&(dyn Error + 'static)> { self.cause.as_ref().map(|c| c as _) }
}
pub fn er<const I: u32>(site: u32) -> Er<I> {
    ev!("error {I} made at {site}");
    Er { tok: Token::new("error"), site, cause: if flip() { Some(Cause(Token::new("cause"))) } else { None } }
}
pub fn fails<const I: u32>(site: u32) -> Result<u32, Er<I>> {
    tick();
    maybe_panic("fallible");
    if fault("fails") {
        ev!("fails {site}");
        return Err(er(site));
    }
    let r = choose(4) as u32;
    ev!("fallible {site} = {r}");
    Ok(r)
}
/// a fallible step giving a branch-like value away
pub fn fails_val<const I: u32>(site: u32) -> Result<Guard, Er<I>> {
    fails::<I>(site).map(|_| guard(site))
}
pub fn maybe(site: u32) -> Option<u32> {
    if fault("fails") { ev!("no value {site}"); None } else { opt(site).or(Some(9)) }
}
fn chain(mut e: Option<&(dyn Error + 'static)>) {
    let mut n = 0;
    while let Some(x) = e {
        let mut k = String::new();
        macro_rules! k { ($($i:literal)*) => { $( if x.is::<Er<$i>>() { k = concat!("Er", $i).into() } )* }; }
        k!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19);
        if x.is::<std::num::ParseIntError>() { k = "ParseIntError".into() }
        if x.is::<fmt::Error>() { k = "fmt::Error".into() }
        if x.is::<std::io::Error>() { k = "io::Error".into() }
        ev!("  error[{n}] {x} {x:?} is {k}");
        n += 1;
        e = x.source();
    }
    if n == 0 { ev!("  no error at all") }
}
/// Result of a program with an opaque error, generated side
pub fn done_enum<T: Debug, E: Error + 'static>(r: Result<T, E>) {
    match through(r) {
        Ok(v) => ev!("ok {v:?}"),
        Err(e) => { ev!("err {e}"); chain(e.source()) }
    }
}
pub fn done_ref<T: Debug>(r: Result<T, Box<dyn Error>>) {
    match through(r) {
        Ok(v) => ev!("ok {v:?}"),
        Err(e) => { ev!("err {e}"); chain(Some(&*e)) }
    }
}

// ------------------------------------------------------------------ branch values

macro_rules! value {
    ($(#[$m:meta])* $V:ident $f:ident $name:literal $mk:ident) => {
        $(#[$m])*
        pub struct $V<const I: u32> { tok: Token, site: u32, x: u32, left: u32, _held: Option<Guard> }
        impl<const I: u32> $V<I> {
            #[allow(dead_code)]
            fn id(&self) -> String { self.tok.check(); format!("{}{I}/{} x={}", $name, self.site, self.x) }
        }
        pub fn $f<const I: u32>(site: u32, x: u32) -> $V<I> {
            tick();
            maybe_panic($name);
            ev!("make {}{I}/{site} x={x}", $name);
            $V { tok: Token::new($name), site, x, left: choose(4) as u32, _held: None }
        }
        /// takes a guard with it
        pub fn $mk<const I: u32>(site: u32, g: Guard) -> $V<I> {
            let mut v = $f::<I>(site, g.get());
            v._held = Some(g);
            v
        }
    };
}
value!(It it "iter" it_with);
impl<const I: u32> Iterator for It<I> {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        tick();
        ev!("{} next", self.id());
        maybe_panic("next");
        if self.left == 0 { return None }
        self.left -= 1;
        Some(self.x * 10 + self.left)
    }
}
impl<const I: u32> DoubleEndedIterator for It<I> {
    fn next_back(&mut self) -> Option<u32> {
        tick();
        ev!("{} next_back", self.id());
        maybe_panic("next_back");
        if self.left == 0 { return None }
        self.left -= 1;
        Some(self.x * 100 + self.left)
    }
}
impl<const I: u32> ExactSizeIterator for It<I> {
    fn len(&self) -> usize { ev!("{} len", self.id()); self.left as usize }
}
impl<const I: u32> std::iter::FusedIterator for It<I> {}
impl<const I: u32> Debug for It<I> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.pad(&format!("Debug of {}", self.id())) }
}
impl<const I: u32> Clone for It<I> {
    fn clone(&self) -> Self {
        ev!("{} clone", self.id());
        maybe_panic("clone");
        It { tok: Token::new("clone"), site: self.site, x: self.x, left: self.left, _held: None }
    }
}
value!(Wr wr "writer" wr_with);
impl<const I: u32> std::io::Write for Wr<I> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        tick();
        ev!("{} write {b:?}", self.id());
        maybe_panic("write");
        Ok(b.len().min(self.left as usize))
    }
    fn flush(&mut self) -> std::io::Result<()> { ev!("{} flush", self.id()); Ok(()) }
}
impl<const I: u32> fmt::Write for Wr<I> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        ev!("{} write_str {s:?}", self.id());
        if chance(1, 6) { Err(fmt::Error) } else { Ok(()) }
    }
}
value!(Sq seq "sequence" seq_with);
impl<const I: u32> std::ops::Deref for Sq<I> { type Target = u32; fn deref(&self) -> &u32 { ev!("{} deref", self.id()); maybe_panic("deref"); &self.x } }
impl<const I: u32> std::ops::DerefMut for Sq<I> { fn deref_mut(&mut self) -> &mut u32 { ev!("{} deref_mut", self.id()); &mut self.x } }
impl<const I: u32> std::ops::Index<u8> for Sq<I> { type Output = u32; fn index(&self, i: u8) -> &u32 { ev!("{} index {i}", self.id()); maybe_panic("index"); if i == 0 { &self.x } else { &self.left } } }
impl<const I: u32> AsRef<u32> for Sq<I> { fn as_ref(&self) -> &u32 { ev!("{} as_ref", self.id()); &self.x } }
impl<const I: u32> Extend<u32> for Sq<I> { fn extend<T: IntoIterator<Item = u32>>(&mut self, t: T) { for v in t { ev!("{} extend {v}", self.id()); self.left += v } } }
impl<const I: u32> std::ops::RangeBounds<u32> for Sq<I> {
    fn start_bound(&self) -> std::ops::Bound<&u32> { ev!("{} start", self.id()); std::ops::Bound::Included(&self.x) }
    fn end_bound(&self) -> std::ops::Bound<&u32> { ev!("{} end", self.id()); std::ops::Bound::Excluded(&self.left) }
}
value!(Di disp "display" disp_with);
impl<const I: u32> Display for Di<I> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { maybe_panic("fmt"); f.pad(&self.id()) }
}
impl<const I: u32> Debug for Di<I> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Debug of {}", self.id()) }
}
value!(Fu func "fn" func_with);
impl<const I: u32> FnOnce<(u32,)> for Fu<I> { type Output = u32; extern "rust-call" fn call_once(self, a: (u32,)) -> u32 { Fn::call(&self, a) } }
impl<const I: u32> FnMut<(u32,)> for Fu<I> { extern "rust-call" fn call_mut(&mut self, a: (u32,)) -> u32 { Fn::call(&*self, a) } }
impl<const I: u32> Fn<(u32,)> for Fu<I> {
    extern "rust-call" fn call(&self, (a,): (u32,)) -> u32 { tick(); ev!("{} called {a}", self.id()); maybe_panic("call"); a + self.x + I }
}
value!(Rd rd "reader" rd_with);
impl<const I: u32> std::io::BufRead for Rd<I> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> { ev!("{} fill", self.id()); maybe_panic("fill"); Ok(&b"xyz"[..self.left as usize % 4]) }
    fn consume(&mut self, n: usize) { ev!("{} consume {n}", self.id()); self.left = self.left.saturating_sub(n as u32) }
}
impl<const I: u32> std::io::Seek for Rd<I> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { ev!("{} seek {p:?}", self.id()); maybe_panic("seek"); Ok(self.x as u64) }
}
impl<const I: u32> Read for Rd<I> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        tick();
        ev!("{} read {}", self.id(), b.len());
        maybe_panic("read");
        if self.left == 0 || b.is_empty() { return Ok(0) }
        self.left -= 1;
        if chance(1, 8) { ev!("  fails"); return Err(std::io::Error::new(std::io::ErrorKind::Other, "device")) }
        b[0] = b'a' + self.x as u8 % 26;
        Ok(1)
    }
}
value!(Ft fut "future" fut_with);
impl<const I: u32> Future for Ft<I> {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        tick();
        ev!("{} poll w{}", self.id(), waker::id_of(cx));
        maybe_panic("poll");
        if self.left > 0 && fault("pending") {
            self.left -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(self.x + I)
    }
}
impl<const I: u32> Unpin for Ft<I> {}
value!(St stream "stream" stream_with);
impl<const I: u32> futures::Stream for St<I> {
    type Item = u32;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        tick();
        ev!("{} poll w{}", self.id(), waker::id_of(cx));
        maybe_panic("poll");
        if fault("pending") { cx.waker().wake_by_ref(); return Poll::Pending }
        if self.left == 0 { return Poll::Ready(None) }
        self.left -= 1;
        Poll::Ready(Some(self.x))
    }
}
impl<const I: u32> Unpin for St<I> {}

// boxes of the reference programs
pub fn bx_iter<'a, T: Iterator<Item = u32> + 'a>(t: T) -> Box<dyn Iterator<Item = u32> + 'a> { let _g = harness(); Box::new(t) }
pub fn bx_disp<'a, T: Display + 'a>(t: T) -> Box<dyn Display + 'a> { let _g = harness(); Box::new(t) }
pub fn bx_fn<'a, T: Fn(u32) -> u32 + 'a>(t: T) -> Box<dyn Fn(u32) -> u32 + 'a> { let _g = harness(); Box::new(t) }
pub fn bx_read<'a, T: Read + 'a>(t: T) -> Box<dyn Read + 'a> { let _g = harness(); Box::new(t) }
pub fn bx_fut<'a, T: Future<Output = u32> + 'a>(t: T) -> Pin<Box<dyn Future<Output = u32> + 'a>> { let _g = harness(); Box::pin(t) }
pub fn bx_stream<'a, T: futures::Stream<Item = u32> + 'a>(t: T) -> Pin<Box<dyn futures::Stream<Item = u32> + 'a>> { let _g = harness(); Box::pin(t) }
pub fn bx_err<T: Error + 'static>(t: T) -> Box<dyn Error> { let _g = harness(); Box::new(t) }

// what becomes of a value
pub fn use_iter(site: u32, mut t: impl Iterator<Item = u32>) -> u32 {
    let mut t = through(t);
    let n = choose(6);
    let mut s = 0;
    for _ in 0..n { match t.next() { Some(v) => { ev!("item {site} {v}"); s += v } None => { ev!("end {site}"); break } } }
    s % 7
}
pub fn use_disp(site: u32, t: impl Display) -> u32 {
    let t = through(t);
    if flip() { ev!("shown {site} {t:>4}|{t}") }
    t.to_string().len() as u32
}
pub fn use_fn(site: u32, t: impl Fn(u32) -> u32) -> u32 {
    let t = through(t);
    let mut s = 1;
    for _ in 0..choose(4) { s = t(s) % 100; ev!("called {site} {s}") }
    s
}
pub fn use_read(site: u32, mut t: impl Read) -> u32 {
    let mut t = through(t);
    let mut b = [0; 2];
    let mut s = 0;
    for _ in 0..choose(4) { let r = t.read(&mut b); ev!("read {site} {r:?} {b:?}"); s += b[0] as u32 }
    s % 9
}
pub fn use_fut(site: u32, t: impl Future<Output = u32>) -> u32 {
    let t = through(t);
    let r = run_task(t);
    ev!("future {site} {r:?}");
    r.unwrap_or(0)
}
pub fn use_stream(site: u32, t: impl futures::Stream<Item = u32>) -> u32 {
    let t = through(t);
    let mut t = Box::pin(t);
    let mut s = 0;
    for _ in 0..choose(6) {
        let r = run_task(std::future::poll_fn(|cx| t.as_mut().poll_next(cx)));
        ev!("stream {site} {r:?}");
        match r { Some(Some(v)) => s += v, Some(None) => break, None => {} }
    }
    s
}

pub fn use_rev(site: u32, mut t: impl DoubleEndedIterator<Item = u32>) -> u32 {
    let mut s = 0;
    for _ in 0..choose(5) { let r = if flip() { t.next() } else { t.next_back() }; ev!("either end {site} {r:?}"); s += r.unwrap_or(1) }
    s % 7
}
pub fn use_clone(site: u32, t: impl Iterator<Item = u32> + Clone) -> u32 {
    let u = t.clone();
    use_iter(site, t) + use_iter(site, u)
}
pub fn use_exact(site: u32, t: impl ExactSizeIterator<Item = u32> + DoubleEndedIterator + Debug) -> u32 {
    ev!("{site} {} {t:>40?}", t.len());
    use_rev(site, t)
}
pub fn use_fused(site: u32, t: impl std::iter::FusedIterator<Item = u32>) -> u32 { use_iter(site, t) }
pub fn use_fn_mut(site: u32, mut t: impl FnMut(u32) -> u32) -> u32 { let r = t(1); ev!("called {site} {r}"); t(r % 5) % 50 }
pub fn use_fn_once(site: u32, t: impl FnOnce(u32) -> u32) -> u32 { let r = t(2); ev!("called {site} {r}"); r % 50 }
pub fn use_buf(site: u32, mut t: impl std::io::BufRead) -> u32 {
    let n = match t.fill_buf() { Ok(b) => { ev!("filled {site} {b:?}"); b.len() } Err(_) => 0 };
    t.consume(n / 2);
    n as u32 + use_read(site, t)
}
pub fn use_seek(site: u32, mut t: impl Read + std::io::Seek) -> u32 {
    let r = t.seek(std::io::SeekFrom::Current(site as i64));
    ev!("seek {site} {r:?}");
    use_read(site, t)
}
pub fn use_write(site: u32, mut t: impl std::io::Write) -> u32 {
    let r = t.write(b"abc"); ev!("written {site} {r:?}");
    let r = t.write_all(b"d").map_err(|e| e.kind()); ev!("all {site} {r:?} {:?}", t.flush());
    1
}
pub fn use_fmt_write(site: u32, mut t: impl fmt::Write) -> u32 {
    let r = write!(t, "{site}-{:>3}", 1); ev!("formatted {site} {r:?}");
    2
}
pub fn use_show(site: u32, t: impl Display + Debug) -> u32 { ev!("{site} {t:>50}|{t:?}"); 3 }
pub fn use_deref(site: u32, t: impl std::ops::Deref<Target = u32>) -> u32 { let v = *t; ev!("deref {site} {v}"); v % 9 }
pub fn use_deref_mut(site: u32, mut t: impl std::ops::DerefMut<Target = u32>) -> u32 { *t += 1; let v = *t; ev!("deref {site} {v}"); v % 9 }
pub fn use_index(site: u32, t: impl std::ops::Index<u8, Output = u32>) -> u32 { let v = t[0] + t[1]; ev!("indexed {site} {v}"); v % 9 }
pub fn use_asref(site: u32, t: impl AsRef<u32>) -> u32 { let v = *t.as_ref(); ev!("as_ref {site} {v}"); v % 9 }
pub fn use_extend(site: u32, mut t: impl Extend<u32>) -> u32 { t.extend([site, 1]); t.extend(None); 4 }
pub fn use_bounds(site: u32, t: impl std::ops::RangeBounds<u32>) -> u32 { let v = t.contains(&2); ev!("contains {site} {v}"); v as u32 }
/// Which of these traits a value implements.
#[macro_export]
macro_rules! traits_of {
    ($site:expr, $x:expr) => {
        ev!("{} has {:?}", $site, [
            $crate::has!($x, Iterator), $crate::has!($x, DoubleEndedIterator), $crate::has!($x, ExactSizeIterator), $crate::has!($x, std::iter::FusedIterator),
            $crate::has!($x, Clone), $crate::has!($x, std::fmt::Debug), $crate::has!($x, std::fmt::Display), $crate::has!($x, std::io::Read),
            $crate::has!($x, std::io::BufRead), $crate::has!($x, std::io::Seek), $crate::has!($x, std::io::Write), $crate::has!($x, std::fmt::Write),
            $crate::has!($x, std::future::Future), $crate::has!($x, Fn(u32) -> u32), $crate::has!($x, FnMut(u32) -> u32), $crate::has!($x, FnOnce(u32) -> u32),
            $crate::has!($x, std::ops::Deref), $crate::has!($x, std::ops::DerefMut), $crate::has!($x, std::ops::Index<u8>), $crate::has!($x, AsRef<u32>),
            $crate::has!($x, Extend<u32>), $crate::has!($x, std::ops::RangeBounds<u32>), $crate::has!($x, std::error::Error),
        ].map(|b| if b { '+' } else { '-' }).iter().collect::<String>())
    };
}

// ------------------------------------------------------------------ async

/// Polls with changing wakers, spuriously or late, and may drop the future at any suspension.
pub fn run_task<T>(f: impl Future<Output = T>) -> Option<T> {
    let mut f = Box::pin(f);
    let mut id = choose(3);
    for turn in 0..64 {
        if turn > 0 && fault("cancel") {
            ev!("cancelled after {turn} polls");
            drop(f);
            return None;
        }
        ev!("poll with w{id}");
        match waker::poll_with(id, |cx| f.as_mut().poll(cx)) {
            Poll::Ready(v) => return Some(v),
            Poll::Pending => {}
        }
        let woken = with(|s| std::mem::take(&mut s.wakes));
        ev!("pending, woken {woken:?}");
        if turn == 40 { clear_rates() }
        if flip() { id = choose(3) }
    }
    violate("no-progress", "the future does not complete after its faults stopped".into());
    None
}
/// a suspension point: pending any number of times
pub struct Aw(u32, Token, u32);
pub fn aw(site: u32) -> Aw { Aw(site, Token::new("await"), 0) }
pub fn aw_with(g: &Guard) -> impl Future<Output = u32> + '_ { let a = aw(g.get()); async move { let r = a.await; r + g.get() * 0 } }
impl Future for Aw {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        tick();
        maybe_panic("await");
        if self.2 < 3 && fault("pending") {
            self.2 += 1;
            ev!("await {} pending w{}", self.0, waker::id_of(cx));
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let r = choose(4) as u32;
        ev!("await {} = {r}", self.0);
        Poll::Ready(r)
    }
}
impl Unpin for Aw {}
pub struct AwF<const I: u32>(Aw);
pub fn aw_fails<const I: u32>(site: u32) -> AwF<I> { AwF(aw(site)) }
impl<const I: u32> Future for AwF<I> {
    type Output = Result<u32, Er<I>>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let site = self.0.0;
        Pin::new(&mut self.0).poll(cx).map(|_| fails(site))
    }
}
/// runs an inner async block to its end (it has no cancellation of its own)
pub fn now<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(v) = waker::poll_with(9, |cx| f.as_mut().poll(cx)) { return v }
        tick();
    }
}

/// Whether a type implements a trait, without naming a bound (autoref on the value).
#[macro_export]
macro_rules! has {
    ($x:expr, $($t:tt)*) => {{
        struct Probe<'a, T>(&'a T);
        trait No { fn has(&self) -> bool { false } }
        impl<'a, T> No for &Probe<'a, T> {}
        trait Yes { fn has(&self) -> bool { true } }
        impl<'a, T: $($t)*> Yes for Probe<'a, T> {}
        #[allow(unused_imports)]
        { (&Probe(&$x)).has() }
    }};
}

/// Macros of the user's which are named like macros that mean something to auto_enum; they are called by their path.
pub mod decoys {
    pub macro marker($e:expr) { u32::wrapping_mul($e, 2) }
    pub macro panic($e:expr) { $e }
    pub macro unreachable($e:expr) { { $e } }
    pub macro todo($e:expr) { $e }
}
