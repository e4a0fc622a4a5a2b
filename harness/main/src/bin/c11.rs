//! C11: transposing an enum moves the payload of the active variant and nothing else.
#![allow(clippy::all)]
use simcore::*;

const KINDS: &[&str] = &["panic", "fails"];

macro_rules! payload {
    ($($P:ident $name:literal),*) => {$(
        /// not Copy, tracked; cloning is observable
        pub struct $P<const I: usize> { tok: Token, pad: [u8; 40], boxed: Box<u32> }
        impl<const I: usize> $P<I> {
            fn mk() -> Self { let b = Box::new(choose(9) as u32); tick(); $P { tok: Token::new($name), pad: [I as u8; 40], boxed: b } }
            fn show(&self) -> String {
                self.tok.check();
                invariant!(self.pad == [I as u8; 40], "payload-corrupted", "{}{I} {:?}", $name, self.pad);
                format!("{}{I} {:?} {}", $name, self.tok, self.boxed)
            }
        }
        impl<const I: usize> Clone for $P<I> {
            fn clone(&self) -> Self { violate("cloned", format!("{}{I}", $name)); $P { tok: Token::new($name), pad: self.pad, boxed: self.boxed.clone() } }
        }
        impl<const I: usize> Default for $P<I> {
            fn default() -> Self { violate("defaulted", format!("{}{I}", $name)); $P { tok: Token::new($name), pad: [0; 40], boxed: Box::new(0) } }
        }
        impl<const I: usize> std::fmt::Debug for $P<I> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { maybe_panic("fmt"); f.write_str(&self.show()) }
        }
        /// an observable conversion nobody asked for
        impl<const I: usize> From<$P<I>> for String { fn from(p: $P<I>) -> String { violate("converted", p.show()); String::new() } }
    )*};
}
payload!(P "value", Q "error");

// the methods are private to the module of the enum
macro_rules! decl { ($($(#[$m:meta])* $E:ident<$($G:ident),*> { $($V:ident($T:ident)),* })*) => {$(
        $(#[$m])*
        #[auto_enums::enum_derive(Transpose)]
        #[derive(Debug)]
        pub enum $E<$($G),*> { $($V($T)),* }
    )*}; }
decl! {
        G1<A> { V0(A) }
        G2<T, U> { Left(T), Right(U) }
        G3<A, B, C> { A(A), B(B), C(C) }
        W2<Ok, Err> { Some(Ok), None(Err) }
        #[allow(dead_code)]
        Opt4<S, N, O, E> { Ok(S), Err(N), Some(O), None(E) }
        G9<A, B, C, D, E, F, G, H, I> { A(A), B(B), C(C), D(D), E(E), F(F), G(G), H(H), I(I) }
    }

// the same, spelled as users spell them
#[rustfmt::skip]
#[auto_enums::enum_derive(Transpose,)]
#[derive(Debug)]
pub enum T2<A, B,> { A(A), B(B) }
#[rustfmt::skip]
#[derive(Debug)]
#[auto_enums::enum_derive(Transpose)]
pub enum T3<A, B, C>
where
    A: Sized,
    C: Sized,
{
    /// the first
    #[allow(non_camel_case_types)]
    r#match(A),
    #[doc(alias = "second")]
    B(#[allow(unused)] B,),
    #[cfg(all())]
    C(C),
}
#[rustfmt::skip]
#[auto_enums::enum_derive(Debug)]
#[auto_enums::enum_derive(Transpose)]
pub enum T1<T,>{Only(T,),}
#[rustfmt::skip]
#[derive(Debug)]
#[auto_enums::enum_derive(Transpose)]
#[non_exhaustive]
#[repr(u8)]
pub enum T4<T0, T1, T2, T3,> where { D(T0), C(T1), B(T2), A(T3), }

/// what happens to a value afterwards: looked at, moved around, dropped, left to unwinding
fn after<T: std::fmt::Debug>(t: T) {
    match choose(4) {
        0 => ev!("kept {t:?}"),
        1 => { let b = Box::new(t); ev!("boxed {b:?}"); maybe_panic("holding"); drop(b) }
        2 => { let v = vec![t]; maybe_panic("holding"); for x in v { ev!("out {x:?}") } }
        _ => drop(t),
    }
}
fn at(v: &str, x: impl std::fmt::Debug) -> String { format!("{v}({x:?})") }

macro_rules! shape {
    ($f:ident, $E:ident { $($V:ident $i:literal),* }) => {
        mod $f {
            use super::*;
            pub const N: usize = [$($i),*].len();
            type O = $E<$(Option<P<$i>>),*>;
            type R = $E<$(Result<P<$i>, Q<$i>>),*>;
            type K = $E<$(Result<P<$i>, Q<100>>),*>;
            type E = $E<$(Result<P<100>, Q<$i>>),*>;
            type Plain = $E<$(P<$i>),*>;
            type PlainQ = $E<$(Q<$i>),*>;
            fn plain(e: Plain) { match e { $( $E::$V(x) => { ev!("{}", at(stringify!($V), &x)); after(x) } )* } }
            fn plain_q(e: PlainQ) { match e { $( $E::$V(x) => { ev!("error {}", at(stringify!($V), &x)); after(x) } )* } }
            pub fn option(v: usize) {
                let some = !fault("fails");
                let e: O = match v { $( $i => {
                    let x = if some { Some(P::<$i>::mk()) } else { None };
                    if is_ref() { return match x { Some(x) => plain($E::$V(x)), None => ev!("none") } }
                    $E::$V(x)
                } )* _ => unreachable!() };
                match e.transpose() { Some(x) => plain(x), None => ev!("none") }
            }
            pub fn result(v: usize) {
                let ok = !fault("fails");
                let e: R = match v { $( $i => {
                    let x = if ok { Ok(P::<$i>::mk()) } else { Err(Q::<$i>::mk()) };
                    if is_ref() { return match x { Ok(x) => plain($E::$V(x)), Err(x) => plain_q($E::$V(x)) } }
                    $E::$V(x)
                } )* _ => unreachable!() };
                match e.transpose() { Ok(x) => plain(x), Err(x) => plain_q(x) }
            }
            pub fn ok(v: usize) {
                let ok = !fault("fails");
                let e: K = match v { $( $i => {
                    let x = if ok { Ok(P::<$i>::mk()) } else { Err(Q::<100>::mk()) };
                    if is_ref() { return match x { Ok(x) => plain($E::$V(x)), Err(x) => { ev!("common {x:?}"); after(x) } } }
                    $E::$V(x)
                } )* _ => unreachable!() };
                match e.transpose_ok() { Ok(x) => plain(x), Err(x) => { ev!("common {x:?}"); after(x) } }
            }
            pub fn err(v: usize) {
                let ok = !fault("fails");
                let e: E = match v { $( $i => {
                    let x = if ok { Ok(P::<100>::mk()) } else { Err(Q::<$i>::mk()) };
                    if is_ref() { return match x { Ok(x) => { ev!("common {x:?}"); after(x) }, Err(x) => plain_q($E::$V(x)) } }
                    $E::$V(x)
                } )* _ => unreachable!() };
                match e.transpose_err() { Ok(x) => { ev!("common {x:?}"); after(x) }, Err(x) => plain_q(x) }
            }
            /// Option<Result<..>> and Result<Option<..>, ..> peeled in several steps
            pub fn two_steps(v: usize) {
                let (a, b) = (!fault("fails"), !fault("fails"));
                if flip() {
                    type OR = $E<$(Option<Result<P<$i>, Q<$i>>>),*>;
                    let e: OR = match v { $( $i => {
                        let x = a.then(|| if b { Ok(P::<$i>::mk()) } else { Err(Q::<$i>::mk()) });
                        if is_ref() { return match x { None => ev!("none"), Some(Ok(x)) => plain($E::$V(x)), Some(Err(x)) => plain_q($E::$V(x)) } }
                        $E::$V(x)
                    } )* _ => unreachable!() };
                    match e.transpose().map(|r| r.transpose()) { None => ev!("none"), Some(Ok(x)) => plain(x), Some(Err(x)) => plain_q(x) }
                } else {
                    type RO = $E<$(Result<Option<P<$i>>, Q<100>>),*>;
                    let e: RO = match v { $( $i => {
                        let x = if a { Ok(b.then(|| P::<$i>::mk())) } else { Err(Q::<100>::mk()) };
                        if is_ref() { return match x { Ok(None) => ev!("none"), Ok(Some(x)) => plain($E::$V(x)), Err(x) => { ev!("common {x:?}"); after(x) } } }
                        $E::$V(x)
                    } )* _ => unreachable!() };
                    match e.transpose_ok().map(|o| o.transpose()) { Ok(None) => ev!("none"), Ok(Some(x)) => plain(x), Err(x) => { ev!("common {x:?}"); after(x) } }
                }
            }
            pub fn any() {
                swarm(KINDS);
                set_rate("fails", [0, 128, 256][choose(3)]);
                let n = range(1, 4);
                for i in 0..n {
                    catch(&format!("op {i}"), || {
                        let v = choose(N);
                        match choose(5) { 0 => option(v), 1 => result(v), 2 => ok(v), 3 => err(v), _ => two_steps(v) }
                    });
                }
            }
        }
    };
}
shape!(g1, G1 { V0 0 });
shape!(g2, G2 { Left 0, Right 1 });
shape!(g3, G3 { A 0, B 1, C 2 });
shape!(w2, W2 { Some 0, None 1 });
shape!(o4, Opt4 { Ok 0, Err 1, Some 2, None 3 });
shape!(t1, T1 { Only 0 });
shape!(t2, T2 { A 0, B 1 });
shape!(t3, T3 { r#match 0, B 1, C 2 });
shape!(t4, T4 { D 0, C 1, B 2, A 3 });
shape!(g9, G9 { A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8 });

// ------------------------------------------------------------------ transposed pipelines

    #[auto_enums::enum_derive(Transpose, Iterator, Debug)]
    pub enum Src<A, B, C> { A(A), B(B), C(C) }
    #[auto_enums::enum_derive(Error, Transpose)]
    pub enum Failure<A, B> { A(A), B(B) }
fn values(n: usize) -> std::vec::IntoIter<P<0>> { (0..n).map(|_| P::mk()).collect::<Vec<_>>().into_iter() }
fn consume(what: &str, it: impl Iterator<Item = P<0>>) {
    catch(what, || {
        for x in it {
            ev!("item {x:?}");
            if chance(1, 6) { break }
            maybe_panic("between items");
        }
    });
}
/// values in an Option<iterator> of different types, made lazily
fn s_iter_option() {
    swarm(KINDS);
    let (k, n, some) = (choose(3), choose(4), !chance(1, 4));
    type T = Src<Option<std::vec::IntoIter<P<0>>>, Option<std::iter::Rev<std::vec::IntoIter<P<0>>>>, Option<std::option::IntoIter<P<0>>>>;
    let v = if some { Some(values(n)) } else { None };
    if is_ref() {
        return match k {
            0 => match v { Some(x) => consume("a", x), None => ev!("none") },
            1 => match v.map(|x| x.rev()) { Some(x) => consume("b", x), None => ev!("none") },
            _ => match v.map(|mut x| x.next().into_iter()) { Some(x) => consume("c", x), None => ev!("none") },
        };
    }
    let e: T = match k { 0 => Src::A(v), 1 => Src::B(v.map(|x| x.rev())), _ => Src::C(v.map(|mut x| x.next().into_iter())) };
    match e.transpose() { Some(x) => consume(["a", "b", "c"][k], x), None => ev!("none") }
}
fn s_error_chain() {
    swarm(KINDS);
    let (k, good) = (choose(2), flip());
    type T = Failure<Result<P<100>, std::num::ParseIntError>, Result<P<100>, std::str::Utf8Error>>;
    let p = if good { Some(P::<100>::mk()) } else { None };
    let a = "x".parse::<i32>().unwrap_err();
    let b = std::str::from_utf8(&[0xff]).unwrap_err();
    let show = |e: &dyn std::error::Error, skip: bool| {
        let mut e = Some(e);
        if skip { e = e.and_then(|x| x.source()) }
        while let Some(x) = e { ev!("{x}"); e = x.source(); }
    };
    if is_ref() {
        match p { Some(x) => { ev!("fine {x:?}"); after(x) } None => if k == 0 { show(&a, false) } else { show(&b, false) } }
        return;
    }
    let e: T = if k == 0 { Failure::A(p.ok_or(a)) } else { Failure::B(p.ok_or(b)) };
    match e.transpose_err() { Ok(x) => { ev!("fine {x:?}"); after(x) } Err(e) => show(&e, true) }
}

fn main() {
    main_with(&[
        Scenario { name: "1 variant", run: g1::any, weight: 1 },
        Scenario { name: "2 variants", run: g2::any, weight: 2 },
        Scenario { name: "3 variants", run: g3::any, weight: 2 },
        Scenario { name: "variants named Some and None", run: w2::any, weight: 2 },
        Scenario { name: "variants named Ok, Err, Some and None", run: o4::any, weight: 2 },
        Scenario { name: "9 variants", run: g9::any, weight: 3 },
        Scenario { name: "1 variant, trailing commas", run: t1::any, weight: 1 },
        Scenario { name: "2 variants, trailing commas", run: t2::any, weight: 1 },
        Scenario { name: "attributes, where clause, raw identifiers", run: t3::any, weight: 1 },
        Scenario { name: "4 variants, attributes", run: t4::any, weight: 1 },
        Scenario { name: "iterators", run: s_iter_option, weight: 2 },
        Scenario { name: "errors", run: s_error_chain, weight: 1 },
    ]);
}
