//! C07: parallel iteration through generated enums, under every split schedule.
//!
//! rayon runs on a one-thread pool made of the simulator's own thread; how work is split, which
//! half runs first, when a consumer is full and where a panic strikes is decided by the seed,
//! through simulated producers, bridges, consumers and callbacks.
#![allow(clippy::all)]
use rayon::iter::plumbing::*;
use rayon::prelude::*;
use simcore::*;

const KINDS: &[&str] = &["panic", "split", "steal", "full", "closure-panic", "odd-len"];

pub struct Core {
    v: usize,
    items: Vec<Token>,
    _token: Token,
}
impl Core {
    fn new(v: usize) -> Core {
        swarm(KINDS);
        set_rate("split", [20, 100, 200][choose(3)]);
        set_rate("steal", [0, 128][choose(2)]);
        let n = choose(9);
        Core { v, items: (0..n).map(|_| Token::new("item")).collect(), _token: Token::new("source") }
    }
}

/// splits, orders and drains by the seed
fn bridge_unindexed<C: UnindexedConsumer<Token>>(mut items: Vec<Token>, c: C) -> C::Result {
    tick();
    if c.full() {
        ev!("  full before {} items", items.len());
        return c.into_folder().complete();
    }
    if items.len() > 1 && fault("split") {
        let right = items.split_off(1 + choose(items.len() - 1));
        ev!("  split {}+{}", items.len(), right.len());
        let reducer = c.to_reducer();
        let lc = c.split_off_left();
        let (l, r);
        if fault("steal") {
            // the right half is stolen and finished first
            r = bridge_unindexed(right, c);
            l = bridge_unindexed(items, lc);
        } else {
            l = bridge_unindexed(items, lc);
            r = bridge_unindexed(right, c);
        }
        return reducer.reduce(l, r);
    }
    drain(items, c.into_folder())
}
fn bridge_indexed<C: Consumer<Token>>(mut items: Vec<Token>, c: C) -> C::Result {
    tick();
    if c.full() {
        ev!("  full before {} items", items.len());
        return c.into_folder().complete();
    }
    if items.len() > 1 && fault("split") {
        let at = 1 + choose(items.len() - 1);
        let right = items.split_off(at);
        ev!("  split {}+{}", items.len(), right.len());
        let (lc, rc, reducer) = c.split_at(at);
        let (l, r);
        if fault("steal") {
            r = bridge_indexed(right, rc);
            l = bridge_indexed(items, lc);
        } else {
            l = bridge_indexed(items, lc);
            r = bridge_indexed(right, rc);
        }
        return reducer.reduce(l, r);
    }
    drain(items, c.into_folder())
}
fn drain<F: Folder<Token>>(items: Vec<Token>, mut f: F) -> F::Result {
    for x in items {
        if f.full() {
            ev!("  folder full");
            break;
        }
        maybe_panic("producer");
        ev!("  feed {x:?}");
        f = f.consume(x);
    }
    f.complete()
}

macro_rules! device {
    ($($D:ident),*) => {$(
        pub struct $D<const V: usize>(Core);
        #[allow(dead_code)]
        impl<const V: usize> $D<V> {
            fn mk() -> Self { ev!("{} {V}", stringify!($D)); $D(Core::new(V)) }
            // decoys
            fn drive(&self) { violate("inherent-method-called", "drive".into()) }
            fn drive_unindexed(&self) { violate("inherent-method-called", "drive_unindexed".into()) }
            fn len(&self) -> usize { violate("inherent-method-called", "len".into()); 0 }
            fn opt_len(&self) -> Option<usize> { violate("inherent-method-called", "opt_len".into()); None }
            fn with_producer(&self) { violate("inherent-method-called", "with_producer".into()) }
            fn par_extend(&self) { violate("inherent-method-called", "par_extend".into()) }
        }
    )*};
}
device!(Bare, Par);
impl<const V: usize> ParallelIterator for Bare<V> {
    type Item = Token;
    fn drive_unindexed<C: UnindexedConsumer<Token>>(self, c: C) -> C::Result {
        ev!("par{V}.drive_unindexed");
        bridge_unindexed(self.0.items, c)
    }
}
impl<const V: usize> ParallelIterator for Par<V> {
    type Item = Token;
    fn drive_unindexed<C: UnindexedConsumer<Token>>(self, c: C) -> C::Result {
        ev!("par{V}.drive_unindexed");
        bridge_unindexed(self.0.items, c)
    }
    fn opt_len(&self) -> Option<usize> {
        ev!("par{V}.opt_len");
        Some(self.0.items.len())
    }
}
impl<const V: usize> IndexedParallelIterator for Par<V> {
    fn len(&self) -> usize {
        ev!("par{V}.len");
        maybe_panic("len");
        self.0.items.len()
    }
    fn drive<C: Consumer<Token>>(self, c: C) -> C::Result {
        ev!("par{V}.drive");
        bridge_indexed(self.0.items, c)
    }
    fn with_producer<CB: ProducerCallback<Token>>(self, cb: CB) -> CB::Output {
        ev!("par{V}.with_producer");
        cb.callback(Prod(self.0.items))
    }
}
struct Prod(Vec<Token>);
struct ProdIter(std::vec::IntoIter<Token>);
impl Iterator for ProdIter {
    type Item = Token;
    fn next(&mut self) -> Option<Token> { tick(); maybe_panic("producer"); let x = self.0.next(); ev!("  next {x:?}"); x }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl DoubleEndedIterator for ProdIter {
    fn next_back(&mut self) -> Option<Token> { tick(); let x = self.0.next_back(); ev!("  back {x:?}"); x }
}
impl ExactSizeIterator for ProdIter {}
impl Producer for Prod {
    type Item = Token;
    type IntoIter = ProdIter;
    fn into_iter(self) -> ProdIter { ev!("  into_iter {}", self.0.len()); ProdIter(self.0.into_iter()) }
    fn split_at(mut self, at: usize) -> (Prod, Prod) {
        let r = self.0.split_off(at);
        ev!("  split_at {at} of {}", at + r.len());
        (self, Prod(r))
    }
    fn min_len(&self) -> usize { 1 }
    fn max_len(&self) -> usize { 3 }
}

// ------------------------------------------------------------------ simulated consumer

struct Sink0(usize);
struct Fold0(Vec<Token>);
struct Red;
impl Reducer<Vec<Token>> for Red {
    fn reduce(self, mut l: Vec<Token>, mut r: Vec<Token>) -> Vec<Token> {
        ev!("  reduce {}+{}", l.len(), r.len());
        l.append(&mut r);
        l
    }
}
impl Consumer<Token> for Sink0 {
    type Folder = Fold0;
    type Reducer = Red;
    type Result = Vec<Token>;
    fn split_at(self, at: usize) -> (Sink0, Sink0, Red) { ev!("  consumer split at {at}"); (Sink0(at), Sink0(self.0.saturating_sub(at)), Red) }
    fn into_folder(self) -> Fold0 { ev!("  folder"); Fold0(vec![]) }
    fn full(&self) -> bool { fault("full") }
}
impl UnindexedConsumer<Token> for Sink0 {
    fn split_off_left(&self) -> Sink0 { ev!("  consumer split off"); Sink0(0) }
    fn to_reducer(&self) -> Red { Red }
}
impl Folder<Token> for Fold0 {
    type Result = Vec<Token>;
    fn consume(mut self, x: Token) -> Fold0 {
        if fault("closure-panic") { std::panic::panic_any(SimPanic("consumer".into())) }
        self.0.push(x);
        self
    }
    fn complete(self) -> Vec<Token> { self.0 }
    fn full(&self) -> bool { fault("full") }
}
/// drains a producer in pieces
struct Callback;
impl ProducerCallback<Token> for Callback {
    type Output = Vec<Token>;
    fn callback<P: Producer<Item = Token>>(self, p: P) -> Vec<Token> {
        ev!("  callback {} {}", p.min_len(), p.max_len());
        fn go<P: Producer<Item = Token>>(p: P, len: usize, depth: usize) -> Vec<Token> {
            tick();
            if depth < 4 && fault("split") {
                // the length comes from the iterator itself on leaves; splits stay within 1..=len
                if len > 1 {
                    let at = 1 + choose(len - 1);
                    let (l, r) = p.split_at(at);
                    let (a, b);
                    if fault("steal") { b = go(r, len - at, depth + 1); a = go(l, at, depth + 1) } else { a = go(l, at, depth + 1); b = go(r, len - at, depth + 1) }
                    return a.into_iter().chain(b).collect();
                }
            }
            let mut it = p.into_iter();
            let (mut f, mut b) = (vec![], vec![]);
            loop {
                if flip() {
                    match it.next() { Some(x) => f.push(x), None => break }
                } else {
                    match it.next_back() { Some(x) => b.push(x), None => break }
                }
            }
            f.into_iter().chain(b.into_iter().rev()).collect()
        }
        let n = LEN.with(|l| l.get());
        go(p, n, 0)
    }
}
thread_local! { static LEN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

fn cl(what: &str, x: &Token) -> bool {
    tick();
    ev!("  {what} {x:?}");
    if fault("closure-panic") && !std::thread::panicking() {
        std::panic::panic_any(SimPanic("closure".into()));
    }
    choose(4) == 0
}
fn ids(v: Vec<Token>) -> Vec<usize> { v.iter().map(|x| x.id).collect() }

fn op<T: ParallelIterator<Item = Token>>(t: T) {
    match choose(27) {
        0..=2 => ev!("consumer {:?}", t.drive_unindexed(Sink0(0))),
        3 => ev!("opt_len {:?}", t.opt_len()),
        4 => ev!("collect {:?}", t.collect::<Vec<_>>()),
        5 => t.for_each(|x| { cl("each", &x); }),
        6 => ev!("map {:?}", ids(t.map(|x| { cl("map", &x); x }).collect())),
        7 => ev!("filter {:?}", ids(t.filter(|x| cl("filter", x)).collect())),
        8 => ev!("filter_map {:?}", t.filter_map(|x| if cl("fm", &x) { Some(x.id) } else { None }).collect::<Vec<_>>()),
        9 => ev!("count {}", t.count()),
        10 => ev!("sum {}", t.map(|x| x.id).sum::<usize>()),
        11 => ev!("reduce {:?}", t.map(|x| vec![x.id]).reduce(Vec::new, |mut a, b| { ev!("  red {a:?} {b:?}"); a.extend(b); a })),
        12 => ev!("fold {:?}", t.fold(|| 0, |a, x| a * 2 + cl("fold", &x) as usize).collect::<Vec<_>>()),
        13 => ev!("any {}", t.any(|x| cl("any?", &x))),
        14 => ev!("all {}", t.all(|x| !cl("all?", &x))),
        15 => ev!("find_any {:?}", t.find_any(|x| cl("find?", x))),
        16 => ev!("find_first {:?}", t.find_first(|x| cl("first?", x))),
        17 => ev!("find_last {:?}", t.find_last(|x| cl("last?", x))),
        18 => ev!("partition {:?}", t.partition::<Vec<_>, Vec<_>, _>(|x| cl("part?", x))),
        19 => ev!("try {:?}", t.map(|x| if cl("ok?", &x) { Err(x.id) } else { Ok(x) }).collect::<Result<Vec<_>, _>>().map(ids)),
        20 => ev!("max {:?}", t.max_by_key(|x| x.id % 3)),
        21 => ev!("flat_map_iter {:?}", t.flat_map_iter(|x| vec![x.id; 2]).collect::<Vec<_>>()),
        22 => ev!("while_some {:?}", t.map(|x| if cl("ws?", &x) { None } else { Some(x.id) }).while_some().collect::<Vec<_>>()),
        23 => ev!("panic_fuse {:?}", t.panic_fuse().map(|x| cl("pf", &x)).count()),
        24 => ev!("unzip {:?}", t.map(|x| (x.id, x.id * 2)).unzip::<_, _, Vec<_>, Vec<_>>()),
        25 => ev!("take_any {:?}", ids(t.take_any(3).collect())),
        _ => ev!("chain {:?}", ids(t.chain(vec![Token::new("extra")]).collect())),
    }
}
fn drive_un<T: ParallelIterator<Item = Token>>(t: T) {
    for _ in 0..choose(2) {
        catch("opt_len", || ev!("opt_len {:?}", t.opt_len()));
    }
    if chance(9, 10) {
        catch("op", || op(t));
    }
}
fn op_ix<T: IndexedParallelIterator<Item = Token>>(t: T) {
    match choose(24) {
        0 | 1 => { let n = t.len(); ev!("consumer {:?}", t.drive(Sink0(n))) }
        2 | 3 => { let n = t.len(); LEN.with(|l| l.set(n)); ev!("producer {:?}", t.with_producer(Callback)) }
        4 => ev!("len {}", t.len()),
        5 => { let mut v = vec![Token::new("old")]; t.collect_into_vec(&mut v); ev!("into vec {v:?}") }
        6 => ev!("enumerate {:?}", t.enumerate().map(|(i, x)| (i, x.id)).collect::<Vec<_>>()),
        7 => ev!("zip {:?}", t.zip(vec![7u8; 5]).map(|(x, n)| (x.id, n)).collect::<Vec<_>>()),
        8 => ev!("rev {:?}", ids(t.rev().collect())),
        9 => ev!("chunks {:?}", t.chunks(2).map(|c| c.len()).collect::<Vec<_>>()),
        10 => { let n = choose(5); ev!("skip {:?}", ids(t.skip(n).collect())) }
        11 => { let n = choose(5); ev!("take {:?}", ids(t.take(n).collect())) }
        12 => ev!("step_by {:?}", ids(t.step_by(2).collect())),
        13 => ev!("position_any {:?}", t.position_any(|x| cl("pa?", &x))),
        14 => ev!("position_first {:?}", t.position_first(|x| cl("pf?", &x))),
        15 => ev!("position_last {:?}", t.position_last(|x| cl("pl?", &x))),
        16 => ev!("min_len {:?}", ids(t.with_min_len(2).with_max_len(3).collect())),
        17 => ev!("interleave {:?}", ids(t.interleave(vec![Token::new("other")]).collect())),
        18 => ev!("eq {:?}", t.map(|x| x.id).eq(vec![0usize, 1, 2])),
        19 => ev!("cmp {:?}", t.map(|x| x.id).cmp(vec![0usize, 1, 2])),
        20 => ev!("fold_chunks {:?}", t.fold_chunks(2, || 0, |a, x| a + cl("fc", &x) as usize).collect::<Vec<_>>()),
        21 => ev!("unzip {:?}", t.map(|x| (x.id, 1u8)).unzip::<_, _, Vec<_>, Vec<_>>()),
        _ => op(t),
    }
}
fn drive_ix<T: IndexedParallelIterator<Item = Token>>(t: T) {
    for _ in 0..choose(3) {
        catch("len", || if flip() { ev!("len {}", t.len()) } else { ev!("opt_len {:?}", t.opt_len()) });
    }
    if chance(9, 10) {
        catch("op", || op_ix(t));
    }
}
enum_shapes!(bare, [rayon::ParallelIterator], Bare);
enum_shapes!(un, [rayon::ParallelIterator], Par);
enum_shapes!(ix, [rayon::ParallelIterator, rayon::IndexedParallelIterator], Par);

// ------------------------------------------------------------------ ParallelExtend

pub struct Ext<const V: usize>(Vec<String>, Token);
#[allow(dead_code)]
impl<const V: usize> Ext<V> {
    fn mk() -> Self { swarm(KINDS); Ext(vec![], Token::new("collection")) }
    fn par_extend(&self) { violate("inherent-method-called", "par_extend".into()) }
}
impl<const V: usize> Drop for Ext<V> {
    fn drop(&mut self) { ev!("ext{V} holds {:?}", self.0) }
}
macro_rules! ext {
    ($($T:ty),*) => {$(
        impl<const V: usize> ParallelExtend<$T> for Ext<V> {
            fn par_extend<I: IntoParallelIterator<Item = $T>>(&mut self, i: I) {
                ev!("ext{V}.par_extend {}", stringify!($T));
                maybe_panic("par_extend");
                let i = i.into_par_iter();
                ev!("  opt_len {:?}", i.opt_len());
                let v: Vec<$T> = i.collect();
                self.0.extend(v.iter().map(|x| format!("{x:?}")));
            }
        }
    )*};
}
ext!(Token, u8, (u8, String));
generic_shapes!(pext, [rayon::ParallelExtend], Ext);
fn drive_ext<T: ParallelExtend<Token> + ParallelExtend<u8> + ParallelExtend<(u8, String)>>(mut t: T) {
    for i in 0..range(1, 4) {
        catch(&format!("op {i}"), || match choose(3) {
            0 => t.par_extend(Par::<0>::mk()),
            1 => t.par_extend(vec![1u8, 2, 3]),
            _ => t.par_extend((0..choose(3)).into_par_iter().map(|i| (i as u8, "s".repeat(i)))),
        });
    }
}

// ------------------------------------------------------------------ anonymous enums, rayon's own iterators

fn toks(n: usize) -> Vec<Token> { (0..n).map(|_| Token::new("element")).collect() }
#[auto_enums::auto_enum(rayon::ParallelIterator, rayon::IndexedParallelIterator)]
fn anon_ix(k: usize, n: usize) -> impl IndexedParallelIterator<Item = Token> {
    match k {
        0 => toks(n).into_par_iter(),
        1 => (0..n).into_par_iter().map(|i| { ev!("make {i}"); Token::new("mapped") }),
        2 => toks(n).into_par_iter().rev(),
        3 => toks(n).into_par_iter().chain(Par::<2>::mk()),
        4 => rayon::iter::once(Token::new("one")),
        _ => Par::<1>::mk(),
    }
}
fn s_anon_ix() {
    swarm(KINDS);
    let (k, n) = (choose(6), choose(7));
    if !is_ref() { return drive_ix(anon_ix(k, n)); }
    match k {
        0 => drive_ix(toks(n).into_par_iter()),
        1 => drive_ix((0..n).into_par_iter().map(|i| { ev!("make {i}"); Token::new("mapped") })),
        2 => drive_ix(toks(n).into_par_iter().rev()),
        3 => drive_ix(toks(n).into_par_iter().chain(Par::<2>::mk())),
        4 => drive_ix(rayon::iter::once(Token::new("one"))),
        _ => drive_ix(Par::<1>::mk()),
    }
}
#[auto_enums::auto_enum(rayon::ParallelIterator)]
fn anon_un(k: usize, n: usize) -> impl ParallelIterator<Item = Token> {
    if k == 0 {
        toks(n).into_par_iter().filter(|x| cl("inner filter", x))
    } else if k == 1 {
        rayon::iter::repeatn((), n).map(|_| Token::new("repeated"))
    } else if k == 2 {
        rayon::iter::split(n, |n| if n > 1 { (n / 2, Some(n - n / 2)) } else { (n, None) }).map(|_| Token::new("leaf"))
    } else {
        Bare::<2>::mk()
    }
}
fn s_anon_un() {
    swarm(KINDS);
    let (k, n) = (choose(4), choose(7));
    if !is_ref() { return drive_un(anon_un(k, n)); }
    match k {
        0 => drive_un(toks(n).into_par_iter().filter(|x| cl("inner filter", x))),
        1 => drive_un(rayon::iter::repeatn((), n).map(|_| Token::new("repeated"))),
        2 => drive_un(rayon::iter::split(n, |n| if n > 1 { (n / 2, Some(n - n / 2)) } else { (n, None) }).map(|_| Token::new("leaf"))),
        _ => drive_un(Bare::<2>::mk()),
    }
}

fn main() {
    rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build_global().unwrap();
    main_with(&[
        Scenario { name: "unindexed, required methods", run: || drive_shapes!(bare, Bare, drive_un), weight: 2 },
        Scenario { name: "unindexed", run: || drive_shapes!(un, Par, drive_un), weight: 2 },
        Scenario { name: "indexed", run: || drive_shapes!(ix, Par, drive_ix), weight: 4 },
        Scenario { name: "par_extend", run: || drive_generic!(pext, Ext, drive_ext), weight: 2 },
        Scenario { name: "anonymous indexed", run: s_anon_ix, weight: 2 },
        Scenario { name: "anonymous unindexed", run: s_anon_un, weight: 2 },
    ]);
}
