//! C10: Deref, indexing, ranges, conversions and calls act on the active variant only.
#![allow(clippy::all)]
#![feature(fn_traits, unboxed_closures)]
use simcore::*;
use std::cell::{Cell, RefCell};
use std::ops::{Bound, Deref, DerefMut, Index, IndexMut, RangeBounds};

const KINDS: &[&str] = &["panic"];

thread_local! {
    /// the reference the inner object returned last
    static LAST: Cell<*const ()> = const { Cell::new(std::ptr::null()) };
}
fn give<T: ?Sized>(x: &T) -> &T {
    LAST.with(|l| l.set(x as *const T as *const ()));
    x
}
fn give_mut<T: ?Sized>(x: &mut T) -> &mut T {
    LAST.with(|l| l.set(x as *const T as *const ()));
    x
}
/// the caller got the very reference the inner object gave
fn got<T: ?Sized>(what: &str, x: *const T) {
    let same = LAST.with(|l| l.replace(std::ptr::null())) == x as *const ();
    invariant!(same, "other-reference", "{what} returned another reference than the inner object did");
}

// ------------------------------------------------------------------ Deref, DerefMut

pub struct Content {
    n: u32,
    text: String,
}
impl Content {
    fn new() -> Content { Content { n: choose(4) as u32, text: "t".repeat(choose(3)) } }
}
pub struct De<const V: usize> {
    tok: Token,
    a: Content,
    b: Content,
    mode: usize,
}
#[allow(dead_code)]
impl<const V: usize> De<V> {
    fn mk() -> Self {
        swarm(KINDS);
        De { tok: Token::new("deref"), a: Content::new(), b: Content::new(), mode: choose(3) }
    }
    fn deref(&self) { violate("inherent-method-called", "deref".into()) }
    fn deref_mut(&self) { violate("inherent-method-called", "deref_mut".into()) }
    // which of the two objects is behind the pointer can change from call to call
    fn first(&self) -> bool { match self.mode { 0 => true, 1 => false, _ => flip() } }
}
impl<const V: usize> Deref for De<V> {
    type Target = Content;
    fn deref(&self) -> &Content {
        tick();
        self.tok.check();
        ev!("de{V}.deref");
        maybe_panic("deref");
        give(if self.first() { &self.a } else { &self.b })
    }
}
impl<const V: usize> DerefMut for De<V> {
    fn deref_mut(&mut self) -> &mut Content {
        tick();
        self.tok.check();
        ev!("de{V}.deref_mut");
        maybe_panic("deref_mut");
        let f = self.first();
        give_mut(if f { &mut self.a } else { &mut self.b })
    }
}
impl<const V: usize> Drop for De<V> {
    fn drop(&mut self) { ev!("de{V} holds {} {:?} {} {:?}", self.a.n, self.a.text, self.b.n, self.b.text) }
}
enum_shapes!(de, [Deref], De);
enum_shapes!(dem, [Deref, DerefMut], De);
enum_shapes!(dem2, [DerefMut], De);
fn drive_deref<T: Deref<Target = Content>>(t: T) {
    for i in 0..range(1, 8) {
        catch(&format!("op {i}"), || match choose(3) {
            0 => { let r = t.deref(); got("deref", r); ev!("n {}", r.n) }
            1 => ev!("auto {}", t.text.len()),
            _ => { let (r, s) = (&*t, &*t); ev!("two {} {} same={}", r.n, s.text, std::ptr::eq(r, s)) }
        });
    }
}
fn drive_deref_mut<T: DerefMut<Target = Content>>(mut t: T) {
    let t = &mut t;
    for i in 0..range(1, 10) {
        catch(&format!("op {i}"), || match choose(8) {
            0 => { let r = T::deref(t); got("deref", r); ev!("n {}", r.n) }
            1 => { let r = t.deref_mut(); got("deref_mut", r); r.n += 10; ev!("n {}", r.n) }
            2 => { t.text.push('x'); ev!("pushed") }
            3 => { let old = std::mem::replace(&mut **t, Content::new()); ev!("replaced {} {}", old.n, old.text) }
            4 => { t.n = t.n.wrapping_mul(3); ev!("n {}", t.n) }
            5 => { let r = &mut **t; r.text.clear(); maybe_panic("caller between"); r.n = 0; ev!("cleared") }
            6 => ev!("text {}", t.text),
            _ => ev!("moved out {:?}", std::mem::take(&mut t.text)),
        });
    }
}

// ------------------------------------------------------------------ Index, IndexMut

pub struct Ix<const V: usize>(Token, Vec<String>, u32);
#[allow(dead_code)]
impl<const V: usize> Ix<V> {
    fn mk() -> Self {
        swarm(KINDS);
        Ix(Token::new("indexed"), (0..choose(5)).map(|i| format!("e{i}")).collect(), 0)
    }
    fn index(&self) { violate("inherent-method-called", "index".into()) }
    fn index_mut(&self) { violate("inherent-method-called", "index_mut".into()) }
}
impl<const V: usize> Drop for Ix<V> {
    fn drop(&mut self) { ev!("ix{V} holds {:?}", self.1) }
}
macro_rules! index {
    ($($I:ty, $name:literal => |$s:ident, $i:ident| $e:expr, $em:expr;)*) => {$(
        impl<const V: usize> Index<$I> for Ix<V> {
            type Output = String;
            fn index(&self, $i: $I) -> &String {
                tick();
                ev!("ix{V}.index {} {:?}", $name, $i);
                maybe_panic("index");
                let $s = self;
                give(&$e)
            }
        }
        impl<const V: usize> IndexMut<$I> for Ix<V> {
            fn index_mut(&mut self, $i: $I) -> &mut String {
                tick();
                ev!("ix{V}.index_mut {} {:?}", $name, $i);
                maybe_panic("index_mut");
                let $s = self;
                give_mut(&mut $em)
            }
        }
    )*};
}
/// consumed by indexing
#[derive(Debug)]
pub struct Key(Token, usize);
index! {
    usize, "usize" => |s, i| s.1[i], s.1[i];
    &'static str, "str" => |s, i| *s.1.iter().find(|x| **x == i).expect("no such key"), *s.1.iter_mut().find(|x| **x == i).expect("no such key");
    Key, "key" => |s, i| s.1[i.1], s.1[i.1];
}
generic_shapes!(ix, [Index], Ix);
generic_shapes!(ixm, [Index, IndexMut], Ix);
generic_shapes!(ixm2, [IndexMut], Ix);
fn drive_index<T: Index<usize, Output = String> + Index<&'static str, Output = String> + Index<Key, Output = String>>(t: T) {
    for i in 0..range(1, 8) {
        catch(&format!("op {i}"), || {
            let k = choose(6);
            let r: &String = match choose(3) {
                0 => &t[k],
                1 => &t[["e0", "e1", "e2", "nope", "", "e4"][k]],
                _ => &t[Key(Token::new("key"), k)],
            };
            got("index", r);
            ev!("-> {r}");
        });
    }
}
fn drive_index_mut<T: IndexMut<usize, Output = String> + IndexMut<&'static str, Output = String> + IndexMut<Key, Output = String>>(mut t: T) {
    let t = &mut t;
    for i in 0..range(1, 10) {
        catch(&format!("op {i}"), || {
            let k = choose(6);
            let name = ["e0", "e1", "e2", "nope", "", "e4"][k];
            let r: &mut String = match choose(5) {
                0 => { let r = &t[k]; got("index", r); return ev!("-> {r}") }
                1 => { let r = &t[name]; got("index", r); return ev!("-> {r}") }
                2 => &mut t[k],
                3 => &mut t[name],
                _ => &mut t[Key(Token::new("key"), k)],
            };
            got("index_mut", r);
            if flip() { r.push('!') } else { *r = name.to_string() }
            ev!("-> {r}");
        });
    }
}

// ------------------------------------------------------------------ RangeBounds

pub struct Ra<const V: usize>(Token, [Cell<u8>; 2], [u32; 2], [String; 2]);
#[allow(dead_code)]
impl<const V: usize> Ra<V> {
    fn mk() -> Self {
        swarm(KINDS);
        Ra(Token::new("range"), [Cell::new(choose(3) as u8), Cell::new(choose(3) as u8)], [choose(4) as u32, choose(6) as u32],
           [["", "b", "d"][choose(3)].to_string(), ["a", "c", "e"][choose(3)].to_string()])
    }
    fn start_bound(&self) { violate("inherent-method-called", "start_bound".into()) }
    fn end_bound(&self) { violate("inherent-method-called", "end_bound".into()) }
    fn bound<'a, T: ?Sized>(&'a self, which: usize, x: &'a T) -> Bound<&'a T> {
        tick();
        ev!("ra{V}.{}", ["start_bound", "end_bound"][which]);
        maybe_panic("bound");
        // a range that changes between two looks at it
        if chance(1, 12) { self.1[which].set(choose(3) as u8) }
        match self.1[which].get() { 0 => Bound::Unbounded, 1 => Bound::Included(give(x)), _ => Bound::Excluded(give(x)) }
    }
}
impl<const V: usize> RangeBounds<u32> for Ra<V> {
    fn start_bound(&self) -> Bound<&u32> { self.bound(0, &self.2[0]) }
    fn end_bound(&self) -> Bound<&u32> { self.bound(1, &self.2[1]) }
}
impl<const V: usize> RangeBounds<str> for Ra<V> {
    fn start_bound(&self) -> Bound<&str> { self.bound(0, &self.3[0]) }
    fn end_bound(&self) -> Bound<&str> { self.bound(1, &self.3[1]) }
}
generic_shapes!(ra, [RangeBounds], Ra);
fn same_bound<T: ?Sized>(b: Bound<&T>) {
    match b {
        Bound::Unbounded => invariant!(LAST.with(|l| l.get()).is_null(), "other-reference", "bound lost"),
        Bound::Included(x) | Bound::Excluded(x) => got("bound", x),
    }
}
fn drive_range<T: RangeBounds<u32> + RangeBounds<str>>(t: T) {
    let mut map: std::collections::BTreeMap<u32, char> = (0..8).map(|i| (i, (b'a' + i as u8) as char)).collect();
    for i in 0..range(1, 8) {
        catch(&format!("op {i}"), || {
            LAST.with(|l| l.set(std::ptr::null()));
            match choose(10) {
                0 => { let b = RangeBounds::<u32>::start_bound(&t); same_bound(b); ev!("{b:?}") }
                1 => { let b = RangeBounds::<u32>::end_bound(&t); same_bound(b); ev!("{b:?}") }
                2 => { let b = RangeBounds::<str>::start_bound(&t); same_bound(b); ev!("{b:?}") }
                3 => { let b = RangeBounds::<str>::end_bound(&t); same_bound(b); ev!("{b:?}") }
                4 => ev!("contains {}", RangeBounds::<u32>::contains(&t, &(choose(7) as u32))),
                5 => ev!("contains {}", RangeBounds::<str>::contains(&t, ["", "a", "b", "c"][choose(4)])),
                6 => ev!("contains {}", RangeBounds::<str>::contains(&t, "d")),
                _ => {
                    // handed to a collection (by reference through a wrapper)
                    struct Wrap<'a, T>(&'a T);
                    impl<'a, T: RangeBounds<u32>> RangeBounds<u32> for Wrap<'a, T> {
                        fn start_bound(&self) -> Bound<&u32> { self.0.start_bound() }
                        fn end_bound(&self) -> Bound<&u32> { self.0.end_bound() }
                    }
                    if flip() { ev!("map {:?}", map.range(Wrap(&t)).collect::<Vec<_>>()) } else {
                        for (_, v) in map.range_mut(Wrap(&t)) { *v = v.to_ascii_uppercase() }
                        ev!("map {map:?}");
                    }
                }
            }
        });
    }
    catch("consumed by drain", || {
        let mut v: Vec<u32> = (0..6).collect();
        let b = |b: Bound<&u32>| b.cloned().map(|x| x as usize);
        let d: Vec<u32> = v.drain((b(t.start_bound()), b(t.end_bound()))).collect();
        ev!("drained {d:?} left {v:?}");
    });
}
// real ranges through an anonymous enum, given away by value
#[auto_enums::auto_enum(RangeBounds)]
fn anon_range(k: usize, a: u32, b: u32) -> impl RangeBounds<u32> {
    match k { 0 => a..b, 1 => a..=b, 2 => ..b, 3 => a.., 4 => ..=b, 5 => (Bound::Excluded(a), Bound::Included(b)), _ => .. }
}
fn real_range(r: impl RangeBounds<u32>) {
    let map: std::collections::BTreeMap<u32, ()> = (0..8).map(|i| (i, ())).collect();
    ev!("{:?} {:?} {}", r.start_bound(), r.end_bound(), r.contains(&3));
    catch("range", || ev!("{:?}", map.range(r).count()));
}
fn s_anon_range() {
    let (k, a, b) = (choose(7), choose(6) as u32, choose(6) as u32);
    if !is_ref() { return real_range(anon_range(k, a, b)) }
    match k {
        0 => real_range(a..b), 1 => real_range(a..=b), 2 => real_range(..b), 3 => real_range(a..), 4 => real_range(..=b),
        5 => real_range((Bound::Excluded(a), Bound::Included(b))), _ => real_range(..),
    }
}

// ------------------------------------------------------------------ AsRef, AsMut

pub struct As<const V: usize>(Token, Vec<u8>, String, Content);
#[allow(dead_code)]
impl<const V: usize> As<V> {
    fn mk() -> Self {
        swarm(KINDS);
        As(Token::new("as"), vec![1; choose(4)], "s".repeat(choose(4)), Content::new())
    }
    fn as_ref(&self) { violate("inherent-method-called", "as_ref".into()) }
    fn as_mut(&self) { violate("inherent-method-called", "as_mut".into()) }
}
impl<const V: usize> Drop for As<V> {
    fn drop(&mut self) { ev!("as{V} holds {:?} {:?} {} {:?}", self.1, self.2, self.3.n, self.3.text) }
}
macro_rules! as_ {
    ($($T:ty, $f:tt;)*) => {$(
        impl<const V: usize> AsRef<$T> for As<V> {
            fn as_ref(&self) -> &$T { tick(); ev!("as{V}.as_ref {}", stringify!($T)); maybe_panic("as_ref"); give(&self.$f) }
        }
        impl<const V: usize> AsMut<$T> for As<V> {
            fn as_mut(&mut self) -> &mut $T { tick(); ev!("as{V}.as_mut {}", stringify!($T)); maybe_panic("as_mut"); give_mut(&mut self.$f) }
        }
    )*};
}
as_! { [u8], 1; str, 2; Content, 3; }
generic_shapes!(asr, [AsRef], As);
generic_shapes!(asm, [AsRef, AsMut], As);
generic_shapes!(asmo, [AsMut], As);
fn drive_as_ref<T: AsRef<[u8]> + AsRef<str> + AsRef<Content>>(t: T) {
    for i in 0..range(1, 6) {
        catch(&format!("op {i}"), || match choose(3) {
            0 => { let r: &[u8] = t.as_ref(); got("as_ref", r as *const [u8]); ev!("{r:?}") }
            1 => { let r: &str = t.as_ref(); got("as_ref", r as *const str); ev!("{r:?}") }
            _ => { let r: &Content = t.as_ref(); got("as_ref", r); ev!("{}", r.n) }
        });
    }
}
fn mut_op<T: AsMut<[u8]> + AsMut<str> + AsMut<Content>>(t: &mut T) {
    match choose(3) {
        0 => { let r: &mut [u8] = t.as_mut(); got("as_mut", r as *const [u8]); r.iter_mut().for_each(|x| *x += 1); ev!("{r:?}") }
        1 => { let r: &mut str = t.as_mut(); got("as_mut", r as *const str); r.make_ascii_uppercase(); ev!("{r:?}") }
        _ => { let r: &mut Content = t.as_mut(); got("as_mut", r); maybe_panic("caller"); r.n += 1; r.text.push('+'); ev!("{}", r.n) }
    }
}
fn drive_as_mut<T: AsRef<[u8]> + AsRef<str> + AsRef<Content> + AsMut<[u8]> + AsMut<str> + AsMut<Content>>(mut t: T) {
    let t = &mut t;
    for i in 0..range(1, 8) {
        catch(&format!("op {i}"), || match choose(6) {
            0 => { let r: &[u8] = (*t).as_ref(); got("as_ref", r as *const [u8]); ev!("{r:?}") }
            1 => { let r: &str = (*t).as_ref(); got("as_ref", r as *const str); ev!("{r:?}") }
            _ => mut_op(t),
        });
    }
}
fn drive_as_mut_only<T: AsMut<[u8]> + AsMut<str> + AsMut<Content>>(mut t: T) {
    let t = &mut t;
    for i in 0..range(1, 8) {
        catch(&format!("op {i}"), || mut_op(t));
    }
}

// ------------------------------------------------------------------ Fn, FnMut, FnOnce

#[derive(Debug)]
pub struct Arg(Token, u32);
#[derive(Debug)]
pub struct Out(Token, u32);

pub struct F<const V: usize> {
    tok: Token,
    calls: Cell<u32>,
    kept: RefCell<Vec<Arg>>,
}
#[allow(dead_code)]
impl<const V: usize> F<V> {
    fn mk() -> Self {
        swarm(KINDS);
        F { tok: Token::new("callable"), calls: Cell::new(0), kept: RefCell::new(vec![]) }
    }
    fn call(&self) { violate("inherent-method-called", "call".into()) }
    fn call_mut(&self) { violate("inherent-method-called", "call_mut".into()) }
    fn call_once(&self) { violate("inherent-method-called", "call_once".into()) }
    fn body(&self, how: &str, a: Arg) -> Out {
        tick();
        self.tok.check();
        self.calls.set(self.calls.get() + 1);
        ev!("f{V}.{how} {a:?} call {}", self.calls.get());
        maybe_panic("call");
        match choose(4) {
            0 => { self.kept.borrow_mut().push(a) }
            1 => drop(a),
            2 => { let mut k = self.kept.borrow_mut(); let n = choose(k.len() + 1); k.insert(n, a) }
            _ => { let k = self.kept.borrow_mut().pop(); ev!("  given back {k:?}"); maybe_panic("call middle"); drop((a, k)) }
        }
        Out(Token::new("result"), self.calls.get())
    }
}
impl<const V: usize> FnOnce<(Arg,)> for F<V> {
    type Output = Out;
    extern "rust-call" fn call_once(self, (a,): (Arg,)) -> Out { self.body("call_once", a) }
}
impl<const V: usize> FnMut<(Arg,)> for F<V> {
    extern "rust-call" fn call_mut(&mut self, (a,): (Arg,)) -> Out { self.body("call_mut", a) }
}
impl<const V: usize> Fn<(Arg,)> for F<V> {
    extern "rust-call" fn call(&self, (a,): (Arg,)) -> Out { self.body("call", a) }
}
generic_shapes!(fo, [FnOnce], F);
generic_shapes!(fm, [FnMut], F);
generic_shapes!(ff, [Fn], F);
generic_shapes!(fall, [Fn, FnMut, FnOnce], F);
fn arg() -> Arg { Arg(Token::new("arg"), choose(5) as u32) }
fn drive_once<T: FnOnce(Arg) -> Out>(t: T) {
    let a = arg();
    catch("once", || match choose(4) {
        0 => drop((t, a)),
        1 => { let f: Box<dyn FnOnce(Arg) -> Out + '_> = Box::new(t); ev!("boxed {:?}", f(a)) }
        2 => { let r = Some(a).map(t); ev!("mapped {r:?}") }
        _ => { let r = t(a); ev!("-> {r:?}") }
    });
}
fn drive_mut<T: FnMut(Arg) -> Out>(mut t: T) {
    {
        let t = &mut t;
        for i in 0..range(0, 6) {
            catch(&format!("op {i}"), || match choose(4) {
                0 => { let v: Vec<Out> = (0..3).map(|_| arg()).map(&mut *t).collect(); ev!("mapped {v:?}") }
                1 => { let f: &mut dyn FnMut(Arg) -> Out = t; ev!("dyn {:?}", f(arg())) }
                _ => { let r = t(arg()); ev!("-> {r:?}") }
            });
        }
    }
    if flip() { drive_once(t) }
}
fn drive_fn<T: Fn(Arg) -> Out>(t: T) {
    {
        let t = &t;
        for i in 0..range(0, 6) {
            catch(&format!("op {i}"), || match choose(4) {
                0 => { let v: Vec<Out> = (0..3).map(|_| arg()).map(t).collect(); ev!("mapped {v:?}") }
                1 => { let f: &dyn Fn(Arg) -> Out = t; ev!("dyn {:?}", f(arg())) }
                2 => { let (a, b) = (t(arg()), t(arg())); ev!("two {a:?} {b:?}") }
                _ => { let r = t(arg()); ev!("-> {r:?}") }
            });
        }
    }
    if flip() { drive_mut(t) }
}
// closures, as users do it
#[auto_enums::auto_enum(Fn)]
fn anon_fn(k: usize, base: u32, log: &'static str) -> impl Fn(u32) -> u32 {
    let count = Cell::new(0);
    match k {
        0 => move |x| { count.set(count.get() + 1); ev!("{log} a {x} {}", count.get()); x + base },
        1 => move |x| { ev!("{log} b {x}"); maybe_panic("closure"); x * base },
        2 => u32::swap_bytes as fn(u32) -> u32,
        _ => { let t = Token::new("captured"); move |x: u32| { t.check(); x ^ base } }
    }
}
#[auto_enums::auto_enum(FnMut)]
fn anon_fn_mut(k: usize) -> impl FnMut(u32) -> usize {
    let mut seen = Vec::new();
    match k {
        0 => move |x| { seen.push(x); seen.len() },
        1 => { let t = Token::new("captured"); let mut n = 0; move |_| { t.check(); n += 2; maybe_panic("closure"); n } }
        _ => move |x| { seen.insert(0, x); maybe_panic("closure"); seen.iter().sum::<u32>() as usize },
    }
}
#[auto_enums::auto_enum(FnOnce)]
fn anon_fn_once(k: usize, a: Token) -> impl FnOnce(Token) -> Vec<Token> {
    match k { 0 => move |b| vec![a, b], 1 => move |b| vec![b, a], _ => move |b| { drop(a); maybe_panic("closure"); vec![b] } }
}
fn run_fn(f: impl Fn(u32) -> u32) {
    for _ in 0..range(1, 5) { let x = choose(9) as u32; catch("call", || ev!("-> {}", f(x))); }
}
fn run_fn_mut(mut f: impl FnMut(u32) -> usize) {
    for _ in 0..range(1, 5) { let x = choose(9) as u32; catch("call", || ev!("-> {}", f(x))); }
}
fn run_fn_once(f: impl FnOnce(Token) -> Vec<Token>) {
    let b = Token::new("argument");
    catch("call", || { if flip() { ev!("-> {:?}", f(b)) } else { drop(f); drop(b) } });
}
fn s_anon_fn() {
    swarm(KINDS);
    let (k, base) = (choose(4), range(1, 3) as u32);
    if !is_ref() { return run_fn(anon_fn(k, base, "closure")) }
    let log = "closure";
    match k {
        0 => { let count = Cell::new(0); run_fn(move |x| { count.set(count.get() + 1); ev!("{log} a {x} {}", count.get()); x + base }) }
        1 => run_fn(move |x| { ev!("{log} b {x}"); maybe_panic("closure"); x * base }),
        2 => run_fn(u32::swap_bytes as fn(u32) -> u32),
        _ => { let t = Token::new("captured"); run_fn(move |x: u32| { t.check(); x ^ base }) }
    }
}
fn s_anon_fn_mut() {
    swarm(KINDS);
    let k = choose(3);
    if !is_ref() { return run_fn_mut(anon_fn_mut(k)) }
    let mut seen = Vec::new();
    match k {
        0 => run_fn_mut(move |x| { seen.push(x); seen.len() }),
        1 => { let t = Token::new("captured"); let mut n = 0; run_fn_mut(move |_| { t.check(); n += 2; maybe_panic("closure"); n }) }
        _ => run_fn_mut(move |x| { seen.insert(0, x); maybe_panic("closure"); seen.iter().sum::<u32>() as usize }),
    }
}
fn s_anon_fn_once() {
    swarm(KINDS);
    let (k, a) = (choose(3), Token::new("captured"));
    if !is_ref() { return run_fn_once(anon_fn_once(k, a)) }
    match k {
        0 => run_fn_once(move |b| vec![a, b]),
        1 => run_fn_once(move |b| vec![b, a]),
        _ => run_fn_once(move |b| { drop(a); maybe_panic("closure"); vec![b] }),
    }
}

// ------------------------------------------------------------------ ToString

pub struct Ts<const V: usize>(Token, usize);
#[allow(dead_code)]
impl<const V: usize> Ts<V> {
    fn mk() -> Self { swarm(KINDS); Ts(Token::new("display"), choose(3)) }
    fn to_string(&self) { violate("inherent-method-called", "to_string".into()) }
}
impl<const V: usize> std::fmt::Display for Ts<V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        tick();
        ev!("ts{V}.fmt");
        for i in 0..self.1 { f.write_str(["one", "zwei", "três"][i])?; maybe_panic("fmt"); }
        Ok(())
    }
}
enum_shapes!(ts, [Display], Ts);
fn drive_to_string<T: ToString>(t: T) {
    for i in 0..range(1, 3) {
        catch(&format!("op {i}"), || ev!("{:?}", t.to_string()));
    }
}

fn main() {
    main_with(&[
        Scenario { name: "Deref", run: || drive_shapes!(de, De, drive_deref), weight: 2 },
        Scenario { name: "DerefMut", run: || drive_shapes!(dem, De, drive_deref_mut), weight: 2 },
        Scenario { name: "DerefMut implies Deref", run: || drive_shapes!(dem2, De, drive_deref_mut), weight: 1 },
        Scenario { name: "Index", run: || drive_generic!(ix, Ix, drive_index), weight: 2 },
        Scenario { name: "IndexMut", run: || drive_generic!(ixm, Ix, drive_index_mut), weight: 2 },
        Scenario { name: "IndexMut implies Index", run: || drive_generic!(ixm2, Ix, drive_index_mut), weight: 1 },
        Scenario { name: "RangeBounds", run: || drive_generic!(ra, Ra, drive_range), weight: 2 },
        Scenario { name: "anonymous RangeBounds", run: s_anon_range, weight: 1 },
        Scenario { name: "AsRef", run: || drive_generic!(asr, As, drive_as_ref), weight: 2 },
        Scenario { name: "AsRef + AsMut", run: || drive_generic!(asm, As, drive_as_mut), weight: 2 },
        Scenario { name: "AsMut", run: || drive_generic!(asmo, As, drive_as_mut_only), weight: 1 },
        Scenario { name: "FnOnce", run: || drive_generic!(fo, F, drive_once), weight: 2 },
        Scenario { name: "FnMut", run: || drive_generic!(fm, F, drive_mut), weight: 2 },
        Scenario { name: "Fn", run: || drive_generic!(ff, F, drive_fn), weight: 2 },
        Scenario { name: "Fn + FnMut + FnOnce", run: || drive_generic!(fall, F, drive_fn), weight: 2 },
        Scenario { name: "anonymous Fn", run: s_anon_fn, weight: 1 },
        Scenario { name: "anonymous FnMut", run: s_anon_fn_mut, weight: 1 },
        Scenario { name: "anonymous FnOnce", run: s_anon_fn_once, weight: 1 },
        Scenario { name: "ToString", run: || drive_shapes!(ts, Ts, drive_to_string), weight: 1 },
    ]);
}
