//! C06: iterator adapters over generated enums behave as over the inner iterator.
#![feature(trusted_len, exact_size_is_empty, iter_advance_by, iter_next_chunk, iter_partition_in_place, iter_array_chunks, iter_map_windows, iter_is_partitioned)]
#![allow(clippy::all)]
use simcore::*;
use std::iter::{FusedIterator, TrustedLen};

const KINDS: &[&str] = &["panic", "closure-panic", "end", "resurrect", "odd-hint", "len-panic"];

pub struct Core {
    v: usize,
    left: usize,
    ended: bool,
    /// hints have to be right (TrustedLen)
    exact: bool,
    _token: Token,
}
impl Core {
    fn new(v: usize, exact: bool) -> Core {
        swarm(KINDS);
        if exact {
            for k in ["end", "resurrect", "odd-hint", "len-panic"] {
                set_rate(k, 0);
            }
        }
        with(|s| s.panics_left = 2);
        Core { v, left: choose(9), ended: false, exact, _token: Token::new("iterator") }
    }
    fn step(&mut self, what: &str) -> Option<Token> {
        tick();
        ev!("it{}.{what}", self.v);
        maybe_panic("iterator");
        if self.ended {
            return if fault("resurrect") { Some(Token::new("late")) } else { None };
        }
        if self.left == 0 || fault("end") {
            self.ended = true;
            return None;
        }
        self.left -= 1;
        Some(Token::new("item"))
    }
    fn hint(&self) -> (usize, Option<usize>) {
        ev!("it{}.size_hint", self.v);
        if !self.exact && fault("odd-hint") {
            return [(0, None), (3, Some(3)), (self.left / 2, Some(self.left * 2)), (0, Some(usize::MAX))][choose(4)];
        }
        if self.ended { (0, Some(0)) } else { (self.left, Some(self.left)) }
    }
}
impl Drop for Core {
    fn drop(&mut self) {
        ev!("it{} dropped with {} left", self.v, self.left);
    }
}

macro_rules! device {
    ($($D:ident $exact:expr),*) => {$(
        pub struct $D<const V: usize>(Core);
        #[allow(dead_code)]
        impl<const V: usize> $D<V> {
            fn mk() -> Self { ev!("{} {V}", stringify!($D)); $D(Core::new(V, $exact)) }
            // decoys
            fn next(&self) { violate("inherent-method-called", "next".into()) }
            fn size_hint(&self) -> (usize, Option<usize>) { violate("inherent-method-called", "size_hint".into()); (0, None) }
            fn next_back(&self) { violate("inherent-method-called", "next_back".into()) }
            fn len(&self) -> usize { violate("inherent-method-called", "len".into()); 0 }
            fn count(self) -> usize { violate("inherent-method-called", "count".into()); 0 }
            fn extend(&self) { violate("inherent-method-called", "extend".into()) }
        }
    )*};
}
// Min: only the required methods; Full: every method the derive promises to delegate;
// Tl: additionally TrustedLen; NotFused
device!(Min false, Full false, Tl true, Plain false);

macro_rules! required {
    ($D:ident) => {
        impl<const V: usize> Iterator for $D<V> {
            type Item = Token;
            fn next(&mut self) -> Option<Token> { self.0.step("next") }
            fn size_hint(&self) -> (usize, Option<usize>) { self.0.hint() }
        }
        impl<const V: usize> DoubleEndedIterator for $D<V> {
            fn next_back(&mut self) -> Option<Token> { self.0.step("next_back") }
        }
    };
}
required!(Min);
impl<const V: usize> ExactSizeIterator for Min<V> {}
impl<const V: usize> FusedIterator for Min<V> {}
/// a bare iterator: not even a size hint
impl<const V: usize> Iterator for Plain<V> {
    type Item = Token;
    fn next(&mut self) -> Option<Token> { self.0.step("next") }
}
macro_rules! full {
    ($D:ident) => {
        impl<const V: usize> Iterator for $D<V> {
            type Item = Token;
            fn next(&mut self) -> Option<Token> { self.0.step("next") }
            fn size_hint(&self) -> (usize, Option<usize>) { self.0.hint() }
            fn count(mut self) -> usize {
                ev!("it{V}.count");
                let mut n = 0;
                while self.0.step("count step").is_some() { n += 1 }
                n
            }
            fn last(mut self) -> Option<Token> {
                ev!("it{V}.last");
                let mut l = None;
                while let Some(x) = self.0.step("last step") { l = Some(x) }
                l
            }
            fn nth(&mut self, n: usize) -> Option<Token> {
                ev!("it{V}.nth({n})");
                for _ in 0..n { self.0.step("nth step")?; }
                self.0.step("nth last")
            }
            fn collect<B: FromIterator<Token>>(mut self) -> B {
                ev!("it{V}.collect");
                std::iter::from_fn(|| self.0.step("collect step")).collect()
            }
            fn partition<B: Default + Extend<Token>, F: FnMut(&Token) -> bool>(mut self, mut f: F) -> (B, B) {
                ev!("it{V}.partition");
                let mut r = (B::default(), B::default());
                while let Some(x) = self.0.step("partition step") {
                    if f(&x) { r.0.extend(Some(x)) } else { r.1.extend(Some(x)) }
                }
                r
            }
            fn fold<B, F: FnMut(B, Token) -> B>(mut self, init: B, mut f: F) -> B {
                ev!("it{V}.fold");
                let mut acc = init;
                while let Some(x) = self.0.step("fold step") { acc = f(acc, x) }
                acc
            }
            fn all<F: FnMut(Token) -> bool>(&mut self, mut f: F) -> bool {
                ev!("it{V}.all");
                while let Some(x) = self.0.step("all step") { if !f(x) { return false } }
                true
            }
            fn any<F: FnMut(Token) -> bool>(&mut self, mut f: F) -> bool {
                ev!("it{V}.any");
                while let Some(x) = self.0.step("any step") { if f(x) { return true } }
                false
            }
            fn find<P: FnMut(&Token) -> bool>(&mut self, mut f: P) -> Option<Token> {
                ev!("it{V}.find");
                while let Some(x) = self.0.step("find step") { if f(&x) { return Some(x) } }
                None
            }
            fn find_map<B, F: FnMut(Token) -> Option<B>>(&mut self, mut f: F) -> Option<B> {
                ev!("it{V}.find_map");
                while let Some(x) = self.0.step("find_map step") { if let Some(b) = f(x) { return Some(b) } }
                None
            }
            fn position<P: FnMut(Token) -> bool>(&mut self, mut f: P) -> Option<usize> {
                ev!("it{V}.position");
                let mut i = 0;
                while let Some(x) = self.0.step("position step") { if f(x) { return Some(i) } i += 1; }
                None
            }
        }
        impl<const V: usize> DoubleEndedIterator for $D<V> {
            fn next_back(&mut self) -> Option<Token> { self.0.step("next_back") }
            fn nth_back(&mut self, n: usize) -> Option<Token> {
                ev!("it{V}.nth_back({n})");
                for _ in 0..n { self.0.step("nth_back step")?; }
                self.0.step("nth_back last")
            }
            fn rfold<B, F: FnMut(B, Token) -> B>(mut self, init: B, mut f: F) -> B {
                ev!("it{V}.rfold");
                let mut acc = init;
                while let Some(x) = self.0.step("rfold step") { acc = f(acc, x) }
                acc
            }
            fn rfind<P: FnMut(&Token) -> bool>(&mut self, mut f: P) -> Option<Token> {
                ev!("it{V}.rfind");
                while let Some(x) = self.0.step("rfind step") { if f(&x) { return Some(x) } }
                None
            }
        }
        impl<const V: usize> ExactSizeIterator for $D<V> {
            fn len(&self) -> usize {
                ev!("it{V}.len");
                if fault("len-panic") { std::panic::panic_any(SimPanic("len".into())) }
                if self.0.ended { 0 } else { self.0.left }
            }
        }
        impl<const V: usize> FusedIterator for $D<V> {}
    };
}
full!(Full);
full!(Tl);
unsafe impl<const V: usize> TrustedLen for Tl<V> {}

enum_shapes!(plain, [Iterator], Plain);
enum_shapes!(it_min, [Iterator], Min);
enum_shapes!(it_full, [Iterator], Full);
enum_shapes!(fused, [Iterator, FusedIterator], Full);
enum_shapes!(de_min, [Iterator, DoubleEndedIterator, ExactSizeIterator, FusedIterator], Min);
enum_shapes!(de_full, [Iterator, DoubleEndedIterator, ExactSizeIterator, FusedIterator], Full);
enum_shapes!(tl, [Iterator, DoubleEndedIterator, ExactSizeIterator, FusedIterator, TrustedLen], Tl);

// ------------------------------------------------------------------ closures of the caller

fn cl(what: &str, x: &Token) -> bool {
    tick();
    ev!("  {what} {x:?}");
    if fault("closure-panic") && !std::thread::panicking() {
        ev!("  closure panics");
        std::panic::panic_any(SimPanic("closure".into()));
    }
    choose(4) == 0
}

/// One operation that leaves the iterator usable.
fn by_ref<T: Iterator<Item = Token>>(t: &mut T) {
    match choose(22) {
        0 | 1 => ev!("next {:?}", t.next()),
        2 => ev!("size_hint {:?}", t.size_hint()),
        3 => { let n = choose(4); ev!("nth {:?}", t.nth(n)) }
        4 => ev!("all {}", t.all(|x| !cl("all?", &x))),
        5 => ev!("any {}", t.any(|x| cl("any?", &x))),
        6 => ev!("find {:?}", t.find(|x| cl("find?", x))),
        7 => ev!("find_map {:?}", t.find_map(|x| if cl("map?", &x) { Some((x, 1)) } else { None })),
        8 => ev!("position {:?}", t.position(|x| cl("pos?", &x))),
        9 => { let n = choose(4); ev!("advance_by {:?}", t.advance_by(n)) }
        10 => ev!("try_fold {:?}", t.try_fold(0usize, |a, x| if cl("try?", &x) { None } else { Some(a + 1) })),
        11 => ev!("try_for_each {:?}", t.try_for_each(|x| if cl("try each?", &x) { Err(x) } else { Ok(()) })),
        12 => { let n = choose(4); ev!("take {:?}", t.by_ref().take(n).collect::<Vec<_>>()) }
        13 => ev!("take_while {:?}", t.by_ref().take_while(|x| !cl("while?", x)).collect::<Vec<_>>()),
        14 => ev!("map_while {:?}", t.by_ref().map_while(|x| if cl("mw?", &x) { None } else { Some(x) }).count()),
        15 => { let n = 1 + choose(2); ev!("step_by {:?}", t.by_ref().step_by(n).take(2).map(|x| x.id).collect::<Vec<_>>()) }
        16 => ev!("next_chunk {:?}", t.next_chunk::<2>().map_err(|e| e.collect::<Vec<_>>())),
        17 => { let mut p = t.by_ref().peekable(); ev!("peek {:?} {:?}", p.peek().map(|x| x.id), p.size_hint()) }
        18 => { let n = choose(3); ev!("skip {:?}", t.by_ref().skip(n).next()) }
        19 => ev!("zip {:?}", t.by_ref().zip(0..2).collect::<Vec<_>>()),
        20 => ev!("reduce {:?}", t.by_ref().take(3).reduce(|a, b| if cl("reduce?", &b) { a } else { b })),
        _ => ev!("eq {:?}", t.by_ref().take(2).map(|x| x.id).eq([0, 1])),
    }
}
/// The operation that consumes the iterator.
/// `same_fused`: the enum is FusedIterator exactly when the inner value is (the standard library
/// specialises on it, visibly).
fn consume<T: Iterator<Item = Token>>(t: T, same_fused: bool) {
    let k = choose(27);
    match if !same_fused && (k == 13 || k == 16) { 2 } else { k } {
        0 => ev!("count {}", t.count()),
        1 => ev!("last {:?}", t.last()),
        2 => ev!("collect {:?}", t.collect::<Vec<_>>()),
        3 => ev!("collect result {:?}", t.map(|x| if cl("ok?", &x) { Err(x) } else { Ok(x) }).collect::<Result<Vec<_>, _>>()),
        4 => ev!("partition {:?}", t.partition::<Vec<_>, _>(|x| cl("part?", x))),
        5 => ev!("fold {}", t.fold(0usize, |a, x| a * 3 + cl("fold", &x) as usize)),
        6 => t.for_each(|x| { cl("each", &x); }),
        7 => ev!("reduce {:?}", t.reduce(|a, b| if cl("reduce?", &b) { b } else { a })),
        8 => ev!("max {:?}", t.max_by_key(|x| { cl("key", x); x.id % 3 })),
        9 => ev!("min {:?}", t.min_by(|a, b| { cl("cmp", a); b.id.cmp(&a.id) })),
        10 => { let (a, b): (Vec<_>, Vec<_>) = t.map(|x| (x.id, x)).unzip(); ev!("unzip {a:?} {b:?}") }
        11 => ev!("sum {}", t.map(|x| x.id).sum::<usize>()),
        12 => ev!("enumerate filter {:?}", t.enumerate().filter(|(_, x)| cl("filter?", x)).collect::<Vec<_>>()),
        13 => ev!("flat_map {:?}", t.flat_map(|x| [x.id; 2]).skip(1).collect::<Vec<_>>()),
        14 => ev!("chain {:?}", t.chain(Some(Token::new("extra"))).last()),
        15 => { let mut v = vec![Token::new("first")]; v.extend(t); ev!("vec extend {v:?}") }
        16 => {
            // fuse: the presence of FusedIterator decides whether the iterator is asked again
            let mut f = t.fuse();
            for _ in 0..choose(12) { ev!("fused {:?} {:?}", f.next(), f.size_hint()) }
        }
        17 => ev!("peekable {:?}", { let mut p = t.peekable(); let a = p.peek().is_some(); let n = p.next_if(|x| cl("if?", x)); (a, n, p.count()) }),
        18 => ev!("array_chunks {:?}", t.array_chunks::<2>().map(|[a, b]| a.id + b.id).collect::<Vec<_>>()),
        19 => ev!("scan {:?}", t.scan(0, |s, x| { *s += 1; if cl("scan?", &x) { None } else { Some(*s) } }).collect::<Vec<_>>()),
        20 => ev!("inspect {:?}", t.inspect(|x| { cl("see", x); }).nth(1)),
        21 => ev!("skip_while {:?}", t.skip_while(|x| cl("skip?", x)).count()),
        22 => { let mut it = t.into_iter(); let mut n = 0; for x in it.by_ref() { n += 1; if cl("loop", &x) { break } } ev!("loop {n} then {:?}", it.next()) }
        23 => ev!("string {:?}", t.map(|x| x.id.to_string()).collect::<String>()),
        24 => ev!("is_partitioned {:?}", t.is_partitioned(|x| cl("ip?", &x))),
        25 => ev!("cmp {:?}", t.map(|x| x.id).cmp(0..3)),
        _ => { let b: Box<[Token]> = t.collect(); ev!("boxed {b:?}") }
    }
}
fn drive_it<T: Iterator<Item = Token>>(t: T) {
    drive(t, false)
}
fn drive<T: Iterator<Item = Token>>(mut t: T, same_fused: bool) {
    for i in 0..choose(6) {
        catch(&format!("op {i}"), || by_ref(&mut t));
    }
    if flip() {
        catch("final", || consume(t, same_fused));
    }
}
fn by_ref_de<T: DoubleEndedIterator<Item = Token> + ExactSizeIterator>(t: &mut T) {
    match choose(15) {
        0 | 1 => ev!("next_back {:?}", t.next_back()),
        2 => { let n = choose(4); ev!("nth_back {:?}", t.nth_back(n)) }
        3 => ev!("rfind {:?}", t.rfind(|x| cl("rfind?", x))),
        4 => ev!("len {}", t.len()),
        5 => ev!("is_empty {}", t.is_empty()),
        6 => ev!("rposition {:?}", t.rposition(|x| cl("rpos?", &x))),
        7 => { let n = choose(3); ev!("advance_back_by {:?}", t.advance_back_by(n)) }
        8 => ev!("try_rfold {:?}", t.try_rfold(0usize, |a, x| if cl("rtry?", &x) { None } else { Some(a + 1) })),
        9 => { let n = choose(3); ev!("rev take {:?}", t.by_ref().rev().take(n).collect::<Vec<_>>()) }
        10 => { let n = choose(3); ev!("rev skip {:?}", t.by_ref().rev().skip(n).next()) }
        11 => ev!("rev find {:?}", t.by_ref().rev().find(|x| cl("rev find?", x))),
        12 => ev!("enumerate back {:?}", t.by_ref().enumerate().next_back()),
        13 => ev!("chain back {:?}", Some(Token::new("head")).into_iter().chain(t.by_ref()).next_back()),
        _ => by_ref(t),
    }
}
fn consume_de<T: DoubleEndedIterator<Item = Token> + ExactSizeIterator + FusedIterator>(t: T) {
    match choose(12) {
        0 => ev!("rfold {}", t.rfold(1usize, |a, x| a * 3 + cl("rfold", &x) as usize)),
        1 => ev!("rev fold {}", t.rev().fold(1usize, |a, x| a * 3 + cl("fold", &x) as usize)),
        2 => t.rev().for_each(|x| { cl("each", &x); }),
        3 => ev!("rev collect {:?}", t.rev().collect::<Vec<_>>()),
        4 => ev!("rev count {:?}", t.rev().skip(1).count()),
        5 => ev!("map rev nth {:?}", t.map(|x| { cl("map", &x); x.id }).rev().nth(1)),
        6 => ev!("zip rev {:?}", t.zip(0..choose(5)).rev().map(|(x, n)| (x.id, n)).collect::<Vec<_>>()),
        7 => {
            let mut p = t.peekable();
            ev!("peek/next_back {:?} {:?} {:?}", p.peek().map(|x| x.id), p.next_back(), p.len());
        }
        8 => {
            let mut f = t.fuse();
            for _ in 0..choose(12) {
                if flip() { ev!("fused next {:?}", f.next()) } else { ev!("fused back {:?}", f.next_back()) }
            }
        }
        9 => ev!("last via rev {:?}", t.rev().last()),
        10 => ev!("rev rfold {:?}", t.rev().rfold(0, |a, x| a + cl("rr", &x) as usize)),
        _ => consume(t, true),
    }
}
fn drive_de<T: DoubleEndedIterator<Item = Token> + ExactSizeIterator + FusedIterator>(mut t: T) {
    for i in 0..choose(6) {
        catch(&format!("op {i}"), || by_ref_de(&mut t));
    }
    if flip() {
        catch("final", || consume_de(t));
    }
}
fn drive_fused<T: FusedIterator<Item = Token>>(t: T) {
    drive(t, true)
}
fn drive_plain<T: Iterator<Item = Token>>(t: T) {
    drive(t, true)
}
fn drive_tl<T: DoubleEndedIterator<Item = Token> + ExactSizeIterator + FusedIterator + TrustedLen>(mut t: T) {
    for i in 0..choose(4) {
        catch(&format!("op {i}"), || by_ref_de(&mut t));
    }
    match choose(5) {
        // specialisations of the standard library for TrustedLen
        0 => { catch("final", || { let mut v = Vec::with_capacity(1); v.extend(t); ev!("vec extend {v:?}") }); }
        1 => { catch("final", || { let mut v = std::collections::VecDeque::from([Token::new("first")]); v.extend(t); ev!("deque extend {v:?}") }); }
        2 => { catch("final", || { let v: std::rc::Rc<[Token]> = t.collect(); ev!("rc {v:?}") }); }
        3 => { catch("final", || { let v: Vec<_> = t.map(|x| { cl("map", &x); x }).collect(); ev!("mapped {v:?}") }); }
        _ => { catch("final", || consume_de(t)); }
    }
}

// ------------------------------------------------------------------ Extend

pub struct Ext<const V: usize>(Vec<String>, Token);
#[allow(dead_code)]
impl<const V: usize> Ext<V> {
    fn mk() -> Self { swarm(KINDS); with(|s| s.panics_left = 2); Ext(vec![], Token::new("collection")) }
    fn extend(&self) { violate("inherent-method-called", "extend".into()) }
}
impl<const V: usize> Drop for Ext<V> {
    fn drop(&mut self) { ev!("ext{V} holds {:?}", self.0) }
}
macro_rules! ext {
    ($([$($l:lifetime)?] $T:ty),*) => {$(
        impl<$($l,)? const V: usize> Extend<$T> for Ext<V> {
            fn extend<I: IntoIterator<Item = $T>>(&mut self, i: I) {
                ev!("ext{V}.extend {}", stringify!($T));
                maybe_panic("extend");
                let mut i = i.into_iter();
                ev!("  hint {:?}", i.size_hint());
                let max = choose(8);
                for _ in 0..max {
                    match i.next() {
                        Some(x) => self.0.push(format!("{x:?}")),
                        None => break,
                    }
                }
            }
        }
    )*};
}
ext!([] Token, ['a] &'a u8, [] (u8, String));
generic_shapes!(ext, [Extend], Ext);
struct Src(usize);
impl Iterator for Src {
    type Item = Token;
    fn next(&mut self) -> Option<Token> {
        tick();
        ev!("  source next");
        maybe_panic("source");
        if self.0 == 0 { return None; }
        self.0 -= 1;
        Some(Token::new("element"))
    }
}
fn drive_ext<T: Extend<Token> + for<'a> Extend<&'a u8> + Extend<(u8, String)>>(mut t: T) {
    for i in 0..range(1, 5) {
        catch(&format!("op {i}"), || match choose(4) {
            0 | 1 => t.extend(Src(choose(6))),
            2 => t.extend([1u8, 2, 3].iter()),
            _ => t.extend((0..choose(3)).map(|i| (i as u8, "s".repeat(i)))),
        });
    }
}
#[auto_enums::enum_derive(Extend)]
enum RealExt<T: Ord> { V(Vec<T>), D(std::collections::VecDeque<T>), L(std::collections::LinkedList<T>), B(std::collections::BTreeSet<T>) }
fn s_real_ext() {
    let k = choose(4);
    let a = choose(5) as u8;
    let show = |e: RealExt<u8>| match e { RealExt::V(x) => ev!("{x:?}"), RealExt::D(x) => ev!("{x:?}"), RealExt::L(x) => ev!("{x:?}"), RealExt::B(x) => ev!("{x:?}") };
    if is_ref() {
        match k {
            0 => { let mut x = vec![9]; x.extend(0..a); x.extend(&[7, 7]); ev!("{x:?}") }
            1 => { let mut x = std::collections::VecDeque::from([9]); x.extend(0..a); x.extend(&[7, 7]); ev!("{x:?}") }
            2 => { let mut x = std::collections::LinkedList::from([9]); x.extend(0..a); x.extend(&[7, 7]); ev!("{x:?}") }
            _ => { let mut x = std::collections::BTreeSet::from([9]); x.extend(0..a); x.extend(&[7, 7]); ev!("{x:?}") }
        }
    } else {
        let mut e = match k {
            0 => RealExt::V(vec![9]),
            1 => RealExt::D([9].into()),
            2 => RealExt::L([9].into()),
            _ => RealExt::B([9].into()),
        };
        e.extend(0..a);
        e.extend(&[7, 7]);
        show(e);
    }
}

// ------------------------------------------------------------------ anonymous enums over real iterators

/// Reference model of the wrapper: hides the private traits the standard library specialises on.
struct Opaque<T>(T);
impl<T: Iterator> Iterator for Opaque<T> {
    type Item = T::Item;
    fn next(&mut self) -> Option<T::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn count(self) -> usize { self.0.count() }
    fn last(self) -> Option<T::Item> { self.0.last() }
    fn nth(&mut self, n: usize) -> Option<T::Item> { self.0.nth(n) }
    fn collect<B: FromIterator<T::Item>>(self) -> B { self.0.collect() }
    fn partition<B: Default + Extend<T::Item>, F: FnMut(&T::Item) -> bool>(self, f: F) -> (B, B) { self.0.partition(f) }
    fn fold<B, F: FnMut(B, T::Item) -> B>(self, init: B, f: F) -> B { self.0.fold(init, f) }
    fn all<F: FnMut(T::Item) -> bool>(&mut self, f: F) -> bool { self.0.all(f) }
    fn any<F: FnMut(T::Item) -> bool>(&mut self, f: F) -> bool { self.0.any(f) }
    fn find<P: FnMut(&T::Item) -> bool>(&mut self, f: P) -> Option<T::Item> { self.0.find(f) }
    fn find_map<B, F: FnMut(T::Item) -> Option<B>>(&mut self, f: F) -> Option<B> { self.0.find_map(f) }
    fn position<P: FnMut(T::Item) -> bool>(&mut self, f: P) -> Option<usize> { self.0.position(f) }
}
impl<T: DoubleEndedIterator> DoubleEndedIterator for Opaque<T> {
    fn next_back(&mut self) -> Option<T::Item> { self.0.next_back() }
    fn nth_back(&mut self, n: usize) -> Option<T::Item> { self.0.nth_back(n) }
    fn rfold<B, F: FnMut(B, T::Item) -> B>(self, init: B, f: F) -> B { self.0.rfold(init, f) }
    fn rfind<P: FnMut(&T::Item) -> bool>(&mut self, f: P) -> Option<T::Item> { self.0.rfind(f) }
}
impl<T: ExactSizeIterator> ExactSizeIterator for Opaque<T> { fn len(&self) -> usize { self.0.len() } }
impl<T: FusedIterator> FusedIterator for Opaque<T> {}

fn toks(n: usize) -> Vec<Token> { (0..n).map(|_| Token::new("element")).collect() }
fn mapped(n: usize) -> impl DoubleEndedIterator<Item = Token> + ExactSizeIterator + FusedIterator {
    (0..n).map(|i| { ev!("make {i}"); maybe_panic("map"); Token::new("mapped") })
}
#[auto_enums::auto_enum(Iterator, DoubleEndedIterator, ExactSizeIterator, FusedIterator)]
fn anon_de(k: usize, n: usize) -> impl DoubleEndedIterator<Item = Token> + ExactSizeIterator + FusedIterator {
    match k {
        0 => toks(n).into_iter(),
        1 => mapped(n),
        2 => toks(n).into_iter().rev(),
        3 if n == 0 => std::iter::empty(),
        3 => std::iter::once(Token::new("one")),
        4 => Full::<1>::mk(),
        _ => std::collections::VecDeque::from(toks(n)).into_iter(),
    }
}
fn s_anon_de() {
    swarm(KINDS);
    let (k, n) = (choose(6), choose(7));
    if !is_ref() { return drive_de(anon_de(k, n)); }
    match k {
        0 => drive_de(Opaque(toks(n).into_iter())),
        1 => drive_de(Opaque(mapped(n))),
        2 => drive_de(Opaque(toks(n).into_iter().rev())),
        3 => if n == 0 { drive_de(Opaque(std::iter::empty())) } else { drive_de(Opaque(std::iter::once(Token::new("one")))) },
        4 => drive_de(Opaque(Full::<1>::mk())),
        _ => drive_de(Opaque(std::collections::VecDeque::from(toks(n)).into_iter())),
    }
}
#[auto_enums::auto_enum(Iterator)]
fn anon_it(k: usize, n: usize) -> impl Iterator<Item = Token> {
    if k == 0 {
        toks(n).into_iter().filter(|x| cl("filter", x))
    } else if k == 1 {
        std::iter::repeat_with(|| Token::new("repeated")).take(n)
    } else if k == 2 {
        toks(n).into_iter().chain(mapped(2))
    } else if k == 3 {
        std::iter::from_fn(move || if flip() { Some(Token::new("from_fn")) } else { None })
    } else {
        Full::<2>::mk()
    }
}
fn s_anon_it() {
    swarm(KINDS);
    let (k, n) = (choose(5), choose(7));
    if !is_ref() { return drive_it(anon_it(k, n)); }
    match k {
        0 => drive_it(Opaque(toks(n).into_iter().filter(|x| cl("filter", x)))),
        1 => drive_it(Opaque(std::iter::repeat_with(|| Token::new("repeated")).take(n))),
        2 => drive_it(Opaque(toks(n).into_iter().chain(mapped(2)))),
        3 => drive_it(Opaque(std::iter::from_fn(move || if flip() { Some(Token::new("from_fn")) } else { None }))),
        _ => drive_it(Opaque(Full::<2>::mk())),
    }
}
/// Items that borrow from a longer-lived owner.
#[auto_enums::auto_enum(Iterator, DoubleEndedIterator)]
fn lines<'a>(s: &'a str, k: usize) -> impl DoubleEndedIterator<Item = &'a str> + 'a {
    match k { 0 => s.lines(), 1 => s.split(','), 2 => s.split_whitespace(), _ => [s].into_iter() }
}
fn s_lines() {
    let s: String = (0..choose(20)).map(|_| ['a', ',', ' ', '\n', 'b'][choose(5)]).collect();
    let k = choose(4);
    fn go<'a>(mut i: impl DoubleEndedIterator<Item = &'a str>) {
        for _ in 0..choose(10) {
            match choose(4) {
                0 => ev!("{:?}", i.next()),
                1 => ev!("{:?}", i.next_back()),
                2 => { let n = choose(2); ev!("{:?}", i.nth(n)) }
                _ => ev!("{:?}", i.size_hint()),
            }
        }
        ev!("{:?}", i.rev().collect::<Vec<_>>());
    }
    if is_ref() {
        match k { 0 => go(s.lines()), 1 => go(s.split(',')), 2 => go(s.split_whitespace()), _ => go([s.as_str()].into_iter()) }
    } else {
        go(lines(&s, k));
    }
}

fn main() {
    main_with(&[
        Scenario { name: "plain iterator", run: || drive_shapes!(plain, Plain, drive_plain), weight: 1 },
        Scenario { name: "iterator, required methods", run: || drive_shapes!(it_min, Min, drive_it), weight: 2 },
        Scenario { name: "iterator, own methods", run: || drive_shapes!(it_full, Full, drive_it), weight: 4 },
        Scenario { name: "fused", run: || drive_shapes!(fused, Full, drive_fused), weight: 2 },
        Scenario { name: "double ended, required methods", run: || drive_shapes!(de_min, Min, drive_de), weight: 2 },
        Scenario { name: "double ended, own methods", run: || drive_shapes!(de_full, Full, drive_de), weight: 4 },
        Scenario { name: "trusted len", run: || drive_shapes!(tl, Tl, drive_tl), weight: 3 },
        Scenario { name: "extend", run: || drive_generic!(ext, Ext, drive_ext), weight: 2 },
        Scenario { name: "extend real collections", run: s_real_ext, weight: 1 },
        Scenario { name: "anonymous double ended", run: s_anon_de, weight: 2 },
        Scenario { name: "anonymous iterator", run: s_anon_it, weight: 2 },
        Scenario { name: "borrowed items", run: s_lines, weight: 1 },
    ]);
}
