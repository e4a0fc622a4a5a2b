//! Unpin probing and relocation of values between pinned calls.
use crate::*;
use std::marker::{PhantomData, PhantomPinned};
use std::mem::MaybeUninit;
use std::pin::Pin;

pub struct Probe<T: ?Sized>(pub PhantomData<T>);
pub trait NotUnpin {
    fn is_unpin(&self) -> bool {
        false
    }
}
impl<T: ?Sized> NotUnpin for Probe<T> {}
impl<T: ?Sized + Unpin> Probe<T> {
    pub fn is_unpin(&self) -> bool {
        true
    }
}
pub fn probe_of<T>(_: &T) -> Probe<T> {
    Probe(PhantomData)
}

/// marker of the address-sensitivity of a device
pub trait Mark {
    const PINNED: bool;
}
impl Mark for PhantomPinned {
    const PINNED: bool = true;
}
impl Mark for () {
    const PINNED: bool = false;
}

pub struct PinCore<P> {
    pub addr: AddrProbe,
    pub calls: usize,
    token: Token,
    _p: P,
}
impl<P: Mark> PinCore<P> {
    pub fn new(p: P) -> Self {
        swarm(&["panic", "pending"]);
        PinCore { addr: AddrProbe::new("address-sensitive value"), calls: 0, token: Token::new("value"), _p: p }
    }
    pub fn touch(&mut self, what: &str) -> bool {
        tick();
        self.token.check();
        if P::PINNED {
            self.addr.pinned();
        }
        self.calls += 1;
        ev!("{what} #{}", self.calls);
        maybe_panic("pinned call");
        fault("pending")
    }
}

/// Keeps `t` in one of several places, calls `op` on it and, when safe code could, moves it.
pub fn relocate<T>(t: T, unpin: bool, op: impl Fn(Pin<&mut T>)) {
    let mut arena: Vec<MaybeUninit<T>> = (0..4).map(|_| MaybeUninit::uninit()).collect();
    let mut at = choose(4);
    arena[at].write(t);
    for i in 0..range(1, 8) {
        if unpin && flip() {
            let to = (at + 1 + choose(3)) % 4;
            let v = unsafe { arena[at].assume_init_read() };
            arena[to].write(v);
            at = to;
            count_fault("relocation");
            ev!("moved to slot {at}");
        }
        let p = unsafe { Pin::new_unchecked(arena[at].assume_init_mut()) };
        catch(&format!("op {i}"), || op(p));
    }
    ev!("drop in place");
    unsafe { arena[at].assume_init_drop() };
}

/// `pin_shapes!(module, [Derives], op)`: shapes over `Dev<P>` and the scenario `module::run`.
#[macro_export]
macro_rules! pin_shapes {
    ($m:ident, [$($d:tt)*], $op:path, {$($anon:tt)*}) => {
        #[allow(dead_code, non_camel_case_types, clippy::all)]
        pub mod $m {
            use super::*;
            use std::marker::PhantomPinned as PP;
            #[auto_enums::enum_derive($($d)*)]
            pub enum BothPinned { A(Dev<PP>), B(Dev<PP>) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum NonePinned { A(Dev<()>), B(Dev<()>) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum FirstPinned { A(Dev<PP>), B(Dev<()>), C(Dev<()>) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum LastPinned { A(Dev<()>), B(Dev<()>), C(Dev<PP>) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum G2<T, U> { A(T), B(U) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum G4<T, U, V, W> where T: Sized { A(T), B(U), C(V), D(W) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum MixP<T> { A(Dev<PP>), B(T) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum MixL<T> { B(Dev<()>), A(T) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum Inner<P> { B(Dev<()>), A(Dev<P>) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum Life<'a, P: 'a> { B(DevL<'a, ()>), A(DevL<'a, P>) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum LifeC<'a> { A(DevL<'a, PP>), B(DevL<'a, ()>) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum One<T> { Only(T) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum Boxed { A(std::pin::Pin<Box<Dev<PP>>>), B(std::pin::Pin<Box<Dev<()>>>) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum Konst<const N: usize> { A(DevN<N, PP>), B(DevN<2, ()>) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum KonstL<const N: usize> { A(DevN<N, ()>), B(DevN<2, ()>) }

            pub fn run() {
                use $crate::pinning::*;
                macro_rules! go {
                    ($expected:expr, $x:ident = $mk:expr => $wrap:expr) => {{
                        let $x = $mk;
                        if $crate::is_ref() {
                            relocate($x, $expected, |t| $op(t));
                        } else {
                            let e = $wrap;
                            let actual = probe_of(&e).is_unpin();
                            if actual != $expected {
                                $crate::violate("wrong-unpin", format!(
                                    "{}: {} is {}Unpin but its fields {}", stringify!($m),
                                    std::any::type_name_of_val(&e), if actual { "" } else { "not " },
                                    if $expected { "all are" } else { "are not all Unpin" }));
                            }
                            relocate(e, actual, |t| $op(t));
                        }
                    }};
                }
                type D = Dev<PP>;
                type L = Dev<()>;
                match $crate::choose(31) {
                    0 => go!(false, x = D::mk() => BothPinned::A(x)),
                    1 => go!(false, x = D::mk() => BothPinned::B(x)),
                    2 => go!(true, x = L::mk() => NonePinned::A(x)),
                    3 => go!(true, x = L::mk() => NonePinned::B(x)),
                    4 => go!(false, x = D::mk() => FirstPinned::A(x)),
                    5 => go!(false, x = L::mk() => FirstPinned::C(x)),
                    6 => go!(false, x = D::mk() => LastPinned::C(x)),
                    7 => go!(false, x = L::mk() => LastPinned::A(x)),
                    8 => go!(false, x = D::mk() => G2::<D, D>::B(x)),
                    9 => go!(false, x = D::mk() => G2::<D, L>::A(x)),
                    10 => go!(false, x = D::mk() => G2::<L, D>::B(x)),
                    11 => go!(true, x = L::mk() => G2::<L, L>::B(x)),
                    12 => go!(false, x = D::mk() => G4::<L, L, D, L>::C(x)),
                    13 => go!(false, x = D::mk() => G4::<L, L, L, D>::D(x)),
                    14 => go!(true, x = L::mk() => G4::<L, L, L, L>::D(x)),
                    15 => go!(false, x = D::mk() => MixP::<L>::A(x)),
                    16 => go!(false, x = L::mk() => MixP::<L>::B(x)),
                    17 => go!(true, x = L::mk() => MixL::<L>::B(x)),
                    18 => go!(false, x = D::mk() => MixL::<D>::A(x)),
                    19 => go!(false, x = D::mk() => Inner::<PP>::A(x)),
                    20 => go!(true, x = L::mk() => Inner::<()>::A(x)),
                    21 => go!(false, x = DevL::<PP>::mk(&()) => Life::<PP>::A(x)),
                    22 => go!(true, x = DevL::<()>::mk(&()) => Life::<()>::B(x)),
                    23 => go!(false, x = DevL::<PP>::mk(&()) => LifeC::A(x)),
                    24 => go!(false, x = D::mk() => One::<G2<L, MixP<D>>>::Only(G2::B(MixP::B(x)))),
                    25 => go!(true, x = Box::pin(D::mk()) => Boxed::A(x)),
                    26 => go!(false, x = DevN::<1, PP>::mk() => Konst::<1>::A(x)),
                    27 => go!(true, x = DevN::<1, ()>::mk() => KonstL::<1>::A(x)),
                    28 => go!(false, x = D::mk() => One::<D>::Only(x)),
                    29 => {
                        // anonymous enum, one field address-sensitive
                        $($anon)*
                        let b = $crate::flip();
                        if $crate::is_ref() {
                            if b { relocate(D::mk(), false, |t| $op(t)) } else { relocate(L::mk(), false, |t| $op(t)) }
                        } else {
                            let e = anon(b);
                            let actual = probe_of(&e).is_unpin();
                            if actual { $crate::violate("wrong-unpin", "anonymous enum is Unpin".into()); }
                            relocate(e, actual, |t| $op(t));
                        }
                    }
                    _ => {
                        $($anon)*
                        let b = $crate::flip();
                        if $crate::is_ref() {
                            relocate(L::mk(), true, |t| $op(t))
                        } else {
                            let e = anon2(b);
                            let actual = probe_of(&e).is_unpin();
                            if !actual { $crate::violate("wrong-unpin", "anonymous enum of Unpin values is not Unpin".into()); }
                            relocate(e, actual, |t| $op(t));
                        }
                    }
                }
            }
        }
    };
}

/// Declares the device types of `pin_shapes!` and passes each to `$imp!`.
#[macro_export]
macro_rules! pin_devices {
    ($imp:ident) => {
        use $crate::pinning::{Mark, PinCore};
        pub struct Dev<P>(pub PinCore<P>);
        pub struct DevL<'a, P>(pub PinCore<P>, pub &'a ());
        pub struct DevN<const N: usize, P>(pub PinCore<P>, pub [u8; N]);
        impl Dev<std::marker::PhantomPinned> { pub fn mk() -> Self { Dev(PinCore::new(std::marker::PhantomPinned)) } }
        impl Dev<()> { pub fn mk() -> Self { Dev(PinCore::new(())) } }
        #[allow(dead_code)]
        impl<'a> DevL<'a, std::marker::PhantomPinned> { pub fn mk(x: &'a ()) -> Self { DevL(PinCore::new(std::marker::PhantomPinned), x) } }
        #[allow(dead_code)]
        impl<'a> DevL<'a, ()> { pub fn mk(x: &'a ()) -> Self { DevL(PinCore::new(()), x) } }
        impl<const N: usize> DevN<N, std::marker::PhantomPinned> { pub fn mk() -> Self { DevN(PinCore::new(std::marker::PhantomPinned), [0; N]) } }
        impl<const N: usize> DevN<N, ()> { pub fn mk() -> Self { DevN(PinCore::new(()), [0; N]) } }
        impl<P> Drop for Dev<P> { fn drop(&mut self) { self.0.addr.dropped() } }
        $imp!([P: Mark] Dev<P>);
        $imp!(['a, P: Mark] DevL<'a, P>);
        $imp!([const N: usize, P: Mark] DevN<N, P>);
    };
}
