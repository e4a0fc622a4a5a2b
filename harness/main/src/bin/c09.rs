//! C09: error enums preserve the failure they carry and its cause chain.
#![allow(clippy::all, deprecated)]
use simcore::*;
use std::error::Error;
use std::fmt;

const KINDS: &[&str] = &["panic", "dest-fails", "value-fails"];

/// Destination which can fail.
struct Dest(String);
impl fmt::Write for Dest {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        tick();
        if fault("dest-fails") {
            return Err(fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

/// One of the causes behind the carried error.
struct Cause<const K: usize>(Token, Option<Box<dyn Error + Send + Sync>>);
impl<const K: usize> fmt::Display for Cause<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "cause{K}") }
}
impl<const K: usize> fmt::Debug for Cause<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Cause{K}({:?})", self.0) }
}
// the token is only touched by one thread
unsafe impl<const K: usize> Send for Cause<K> {}
unsafe impl<const K: usize> Sync for Cause<K> {}
impl<const K: usize> Error for Cause<K> {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        tick();
        ev!("  cause{K}.source");
        self.1.as_ref().map(|x| &**x as _)
    }
}
fn chain(depth: usize) -> Option<Box<dyn Error + Send + Sync>> {
    if depth == 0 {
        return None;
    }
    let next = chain(depth - 1);
    Some(match choose(7) {
        0 => Box::new(Cause::<0>(Token::new("cause"), next)),
        1 => Box::new(Cause::<1>(Token::new("cause"), next)),
        2 => std::io::Error::new(std::io::ErrorKind::Other, Cause::<2>(Token::new("cause"), next)).into(),
        3 => Box::new("x".parse::<i32>().unwrap_err()),
        4 => "plain text".into(),
        // enums inside the chain
        5 => Box::new(plain::G2::<Cause<3>, fmt::Error>::Left(Cause(Token::new("cause"), next))),
        _ => Box::new(plain::G2::<fmt::Error, Cause<3>>::Right(Cause(Token::new("cause"), next))),
    })
}
pub mod plain {
    #[auto_enums::enum_derive(Debug, Display, Error)]
    pub enum G2<A, B> { Left(A), Right(B) }
}

pub struct Er<const V: usize> {
    tok: Token,
    desc: String,
    src: Option<Box<dyn Error + Send + Sync>>,
    flaky: bool,
}
#[allow(dead_code)]
impl<const V: usize> Er<V> {
    fn mk() -> Self {
        swarm(KINDS);
        let d = choose(6);
        Er { tok: Token::new("error"), desc: format!("desc{}", choose(3)), src: chain(d), flaky: chance(1, 6) }
    }
    fn source(&self) { violate("inherent-method-called", "source".into()) }
    fn description(&self) { violate("inherent-method-called", "description".into()) }
    fn cause(&self) { violate("inherent-method-called", "cause".into()) }
}
unsafe impl<const V: usize> Send for Er<V> {}
unsafe impl<const V: usize> Sync for Er<V> {}
macro_rules! fmts {
    ($($T:ident),*) => {$(
        impl<const V: usize> fmt::$T for Er<V> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                tick();
                self.tok.check();
                ev!("er{V}.{} w={:?} p={:?} alt={}", stringify!($T), f.width(), f.precision(), f.alternate());
                maybe_panic("error fmt");
                if fault("value-fails") { return Err(fmt::Error); }
                if flip() { f.pad(&self.desc) } else { f.debug_struct("Er").field("v", &V).field("desc", &self.desc).finish() }
            }
        }
    )*};
}
fmts!(Debug, Display);
impl<const V: usize> Error for Er<V> {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        tick();
        self.tok.check();
        ev!("er{V}.source");
        maybe_panic("source");
        if self.flaky && flip() {
            return None;
        }
        self.src.as_ref().map(|x| &**x as _)
    }
    fn description(&self) -> &str {
        tick();
        ev!("er{V}.description");
        maybe_panic("description");
        &self.desc
    }
}

/// What the carried error is, read without the Error trait.
pub trait Peek {
    /// number of generated enums around it
    fn depth(&self) -> usize;
    fn addr(&self) -> *const ();
}
impl<const V: usize> Peek for Er<V> {
    fn depth(&self) -> usize { 0 }
    fn addr(&self) -> *const () { self as *const Self as _ }
}
macro_rules! peek {
    ($m:ident: $($(<$($g:ident),*>)? $E:ident { $($V:ident),* $(,)? })*) => {$(
        impl $(<$($g: Peek),*>)? Peek for $m::$E $(<$($g),*>)? {
            fn depth(&self) -> usize { match self { $($m::$E::$V(x) => 1 + x.depth(),)* } }
            fn addr(&self) -> *const () { match self { $($m::$E::$V(x) => x.addr(),)* } }
        }
    )*};
}
macro_rules! peek_all {
    ($m:ident) => {
        peek! { $m: <A> G1 { V0 } <T, U> G2 { Left, Right } <A, B, C> G3 { A, B, C }
            <A, B, C, D, E, F, G, H, I> G9 { A, B, C, D, E, F, G, H, I } C3 { One, Two, Three }
            <X> M2 { Fixed, r#type } <X, Y> W2 { Some, None }
            R12 { A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11 } }
        impl<const N: usize> Peek for $m::K2<N> {
            fn depth(&self) -> usize { 1 }
            fn addr(&self) -> *const () { match self { $m::K2::X(x) => x.addr(), $m::K2::Y(x) => x.addr() } }
        }
    };
}

enum_shapes!(short, [Debug, Display, Error], Er);
peek_all!(short);
// the alias alone
pub mod split {
    use super::*;
    use auto_enums::enum_derive;
    #[enum_derive(error::Error)]
    pub enum G2<T, U> { Left(T), Right(U) }
    impl<T: Peek, U: Peek> Peek for G2<T, U> {
        fn depth(&self) -> usize { match self { G2::Left(x) => 1 + x.depth(), G2::Right(x) => 1 + x.depth() } }
        fn addr(&self) -> *const () { match self { G2::Left(x) => x.addr(), G2::Right(x) => x.addr() } }
    }
}

/// the dynamic types an element of a chain can have
fn kind_of(e: &(dyn Error + 'static)) -> String {
    let mut o = String::new();
    macro_rules! k { ($($T:ty),*) => { $( if let Some(x) = e.downcast_ref::<$T>() { o += concat!(stringify!($T), " "); let _ = x; } )* }; }
    k!(Er<0>, Er<1>, Er<2>, Er<3>, Cause<0>, Cause<1>, Cause<2>, Cause<3>, std::io::Error, std::num::ParseIntError, fmt::Error,
       plain::G2<Cause<3>, fmt::Error>, plain::G2<fmt::Error, Cause<3>>, std::str::Utf8Error, std::num::TryFromIntError);
    if let Some(x) = e.downcast_ref::<std::io::Error>() {
        o += &format!("inner={:?}", x.get_ref().map(|r| r.to_string()));
    }
    o
}
fn log_chain(mut e: Option<&(dyn Error + 'static)>) {
    let mut n = 0;
    while let Some(x) = e {
        ev!("  [{n}] {} {x:?} is {}", x, kind_of(x));
        e = x.source();
        n += 1;
        if n > 20 {
            violate("endless-chain", "more than 20 elements".into());
            break;
        }
    }
    ev!("  chain of {n}");
}
/// Walks to the carried error (through `source` on the generated side) and then on.
fn walk<T: Error + Peek + 'static>(t: &T) {
    if is_ref() {
        return log_chain(Some(t));
    }
    let mut e: Option<&(dyn Error + 'static)> = Some(t);
    for i in 0..t.depth() {
        e = e.and_then(|x| { invariant!(i == 0 || kind_of(x).is_empty(), "not-carried-error", "element {i} is {}", kind_of(x)); x.source() });
    }
    match e {
        None => violate("carried-error-missing", "source() does not report the carried error".into()),
        Some(x) => invariant!(
            x as *const dyn Error as *const () == t.addr(),
            "not-carried-error", "source() reports {x:?}, not the object carried"
        ),
    }
    log_chain(e);
}
fn show(what: &str, a: fmt::Arguments<'_>) {
    let mut d = Dest(String::new());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fmt::write(&mut d, a)));
    ev!("{what} {:?} -> {:?}", r.map_err(|p| payload_str(&*p)), d.0);
}
fn ops<T: Error + Peek + 'static>(t: T) {
    let mut boxed: Option<Box<T>> = Some(Box::new(t));
    for i in 0..range(1, 7) {
        catch(&format!("op {i}"), || {
            let b = boxed.take().unwrap();
            struct Back<'a, T>(&'a mut Option<Box<T>>, Option<Box<T>>);
            impl<'a, T> Drop for Back<'a, T> {
                fn drop(&mut self) { *self.0 = self.1.take() }
            }
            let mut g = Back(&mut boxed, Some(b));
            let t = &**g.1.as_ref().unwrap();
            match choose(8) {
                0 => ev!("description {:?}", t.description()),
                1 => show("display", format_args!("{t}")),
                2 => show("display", format_args!("{t:>9.4}")),
                3 => show("debug", format_args!("{t:?}")),
                4 => show("debug", format_args!("{t:#?}")),
                5 => {
                    // through a trait object and back
                    let d: Box<dyn Error> = g.1.take().unwrap();
                    ev!("as object {d} {:?}", d.to_string());
                    let back = d.downcast::<T>().unwrap_or_else(|_| { violate("downcast", "T is lost".into()); panic!() });
                    g.1 = Some(back);
                }
                6 => { let d: &(dyn Error + 'static) = t; show("object", format_args!("{d}")); walk(g.1.as_deref().unwrap()) }
                _ => walk(t),
            }
        });
        if boxed.is_none() {
            ev!("lost in a panic");
            return;
        }
    }
    // the final state
    clear_rates();
    walk(&**boxed.as_ref().unwrap());
}
fn drive<T: Error + Peek + 'static>(t: T) { ops(t) }
fn s_split() {
    let x = Er::<0>::mk();
    if is_ref() { return drive(x); }
    match choose_side(2) {
        0 => drive(split::G2::<Er<0>, Er<1>>::Left(x)),
        _ => drive(split::G2::<Er<1>, Er<0>>::Right(x)),
    }
}
/// an independent choice of the generated side must also be made on the reference side: use the token count instead
fn choose_side(n: usize) -> usize { with(|s| s.tokens.len() % n) }
// ------------------------------------------------------------------ anonymous error enums

fn io_err() -> std::io::Error {
    let d = choose(3);
    std::io::Error::new(std::io::ErrorKind::InvalidData, Cause::<0>(Token::new("cause"), chain(d)))
}
#[auto_enums::auto_enum(Debug, Display, Error)]
fn anon_direct(k: usize) -> impl Error {
    match k {
        0 => io_err(),
        1 => "q".parse::<i32>().unwrap_err(),
        2 => std::str::from_utf8(&[0xff]).unwrap_err(),
        3 => u8::try_from(300u32).unwrap_err(),
        4 => panic!("no error"),
        _ => Er::<1>::mk(),
    }
}
#[auto_enums::auto_enum(error::Error)]
fn anon_question(k: usize) -> Result<u8, impl Error + Send + Sync + 'static> {
    if k == 0 { Err(io_err())?; }
    if k == 1 { "q".parse::<i32>()?; }
    if k == 2 { std::str::from_utf8(&[0xff])?; }
    if k == 3 { u8::try_from(300u32)?; }
    if k == 5 { Err(Er::<1>::mk())?; }
    Ok(4)
}
#[auto_enums::auto_enum(Error, Clone)]
fn anon_clone(k: usize) -> Result<u8, impl Error + Clone> {
    match k {
        0 => Err(fmt::Error)?,
        1 => { "q".parse::<i32>()?; }
        2 => { std::str::from_utf8(&[0xff])?; }
        3 => { u8::try_from(300u32)?; }
        _ => {}
    }
    Ok(4)
}
fn after_err<E: Error + 'static>(r: Result<u8, E>) {
    match r {
        Ok(v) => ev!("ok {v}"),
        Err(e) => {
            for _ in 0..range(1, 4) {
                match choose(3) {
                    0 => show("display", format_args!("{e:>5}|{e}")),
                    1 => show("debug", format_args!("{e:?} {e:#?}")),
                    _ => {
                        catch("walk", || {
                            if is_ref() { log_chain(Some(&e)) } else {
                                invariant!(kind_of(&e).is_empty(), "not-an-enum", "the opaque error is the carried error itself");
                                log_chain(e.source())
                            }
                        });
                    }
                }
            }
        }
    }
}
fn anon_ref(k: usize) {
    match k {
        0 => after_err(Err(io_err())),
        1 => after_err(Err("q".parse::<i32>().unwrap_err())),
        2 => after_err(Err(std::str::from_utf8(&[0xff]).unwrap_err())),
        3 => after_err(Err(u8::try_from(300u32).unwrap_err())),
        4 => after_err::<fmt::Error>(Ok(4)),
        _ => after_err(Err(Er::<1>::mk())),
    }
}
fn s_anon_direct() {
    swarm(KINDS);
    let k = choose(6);
    if is_ref() { anon_ref(k) } else { after_err(if k == 4 { Ok(4) } else { Err(anon_direct(k)) }) }
}
fn s_anon_question() {
    swarm(KINDS);
    let k = choose(6);
    if is_ref() { anon_ref(k) } else { after_err(anon_question(k)) }
}
fn s_anon_clone() {
    swarm(KINDS);
    let k = choose(5);
    if is_ref() {
        match k {
            0 => { after_err(Err(fmt::Error)); after_err(Err(fmt::Error)) }
            _ => { anon_ref(k); anon_ref(k) }
        }
    } else {
        let r = anon_clone(k);
        after_err(r.clone());
        after_err(r)
    }
}

fn main() {
    main_with(&[
        Scenario { name: "Error", run: || drive_shapes!(short, Er, drive), weight: 6 },
        Scenario { name: "Error, implied Debug and Display", run: s_split, weight: 2 },
        Scenario { name: "anonymous, direct", run: s_anon_direct, weight: 2 },
        Scenario { name: "anonymous, question mark", run: s_anon_question, weight: 2 },
        Scenario { name: "anonymous, Clone", run: s_anon_clone, weight: 1 },
    ]);
}
