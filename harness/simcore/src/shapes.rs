//! Enum shapes every derive is exercised on.

/// `enum_shapes!(module, [Derives, ...], Dev)`: declares the shapes in a module.
/// `Dev` is a type with one `usize` const parameter.
#[macro_export]
macro_rules! enum_shapes {
    ($m:ident, [$($d:tt)*], $D:ident) => {
        #[allow(dead_code, non_camel_case_types, clippy::all)]
        pub mod $m {
            use super::*;
            #[auto_enums::enum_derive($($d)*)]
            pub enum G1<A> { V0(A) }
            #[auto_enums::enum_derive($($d)*)]
            pub(crate) enum G2<T, U> { Left(T), Right(U) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum G3<A, B, C> { A(A), B(B), C(C) }
            /// many variants, trailing comma everywhere
            #[auto_enums::enum_derive($($d)*)]
            #[allow(clippy::large_enum_variant)]
            pub enum G9<A, B, C, D, E, F, G, H, I,> {
                /// first
                A(A), B(B), C(C), #[allow(missing_docs)] D(D), E(E), F(F), G(G), H(H), I(I),
            }
            #[auto_enums::enum_derive($($d)*)]
            pub enum C3 { One($D<0>), Two($D<1>), Three($D<2>) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum M2<Item> { Fixed($D<0>), r#type(Item) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum K2<const N: usize> { X($D<N>), Y($D<1>) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum W2<Output, Error> where Output: Sized, Error: Sized, { Some(Output), None(Error) }
            #[auto_enums::enum_derive($($d)*)]
            #[repr(u8)]
            pub enum R12 {
                A0($D<0>), A1($D<1>), A2($D<2>), A3(super::$m::G1<$D<3>>), A4($D<0>), A5($D<1>),
                A6($D<2>), A7($D<3>), A8($D<0>), A9($D<1>), A10(G2<$D<2>, $D<0>>), A11(C3),
            }
        }
    };
}

/// Picks a shape, an active variant and drives it (or the bare inner value on the
/// reference side).  `$D::<V>::mk()` makes the inner value, `$drive` is a generic function.
#[macro_export]
macro_rules! drive_shapes {
    ($m:ident, $D:ident, $drive:path) => {{
        macro_rules! go {
            ($V:literal, $x:ident => $wrap:expr) => {{
                let $x = $D::<$V>::mk();
                if $crate::is_ref() { $drive($x) } else { $drive($wrap) }
            }};
        }
        type D0 = $D<0>;
        type D1 = $D<1>;
        type D2 = $D<2>;
        type D3 = $D<3>;
        type N9 = $m::G9<D0, D1, D2, D3, D0, D1, D2, D3, D0>;
        let shape = $crate::choose(10);
        $crate::probe(concat!(stringify!($m), " driven"));
        match shape {
            0 => match $crate::choose(3) {
                0 => go!(0, x => $m::G3::<D0, D1, D2>::A(x)),
                1 => go!(1, x => $m::G3::<D0, D1, D2>::B(x)),
                _ => go!(2, x => $m::G3::<D0, D1, D2>::C(x)),
            },
            1 => go!(3, x => $m::G1::V0(x)),
            2 => match $crate::choose(3) {
                0 => go!(0, x => $m::G2::<D0, D1>::Left(x)),
                1 => go!(1, x => $m::G2::<D0, D1>::Right(x)),
                // same type twice
                _ => go!(0, x => $m::G2::<D0, D0>::Right(x)),
            },
            3 => match $crate::choose(9) {
                0 => go!(0, x => N9::A(x)),
                1 => go!(1, x => N9::B(x)),
                2 => go!(2, x => N9::C(x)),
                3 => go!(3, x => N9::D(x)),
                4 => go!(0, x => N9::E(x)),
                5 => go!(1, x => N9::F(x)),
                6 => go!(2, x => N9::G(x)),
                7 => go!(3, x => N9::H(x)),
                _ => go!(0, x => N9::I(x)),
            },
            4 => match $crate::choose(3) {
                0 => go!(0, x => $m::C3::One(x)),
                1 => go!(1, x => $m::C3::Two(x)),
                _ => go!(2, x => $m::C3::Three(x)),
            },
            5 => match $crate::choose(2) {
                0 => go!(0, x => $m::M2::<D3>::Fixed(x)),
                _ => go!(3, x => $m::M2::<D3>::r#type(x)),
            },
            6 => match $crate::choose(2) {
                0 => go!(2, x => $m::K2::<2>::X(x)),
                _ => go!(1, x => $m::K2::<2>::Y(x)),
            },
            7 => match $crate::choose(2) {
                0 => go!(2, x => $m::W2::<D2, D1>::Some(x)),
                _ => go!(1, x => $m::W2::<D2, D1>::None(x)),
            },
            8 => match $crate::choose(5) {
                0 => go!(3, x => $m::R12::A3($m::G1::V0(x))),
                1 => go!(3, x => $m::R12::A7(x)),
                2 => go!(0, x => $m::R12::A10($m::G2::Right(x))),
                3 => go!(2, x => $m::R12::A11($m::C3::Three(x))),
                _ => go!(1, x => $m::R12::A9(x)),
            },
            // enums of enums
            _ => match $crate::choose(3) {
                0 => go!(1, x => $m::G2::<$m::G3<D0, D1, D2>, $m::C3>::Left($m::G3::B(x))),
                1 => go!(0, x => $m::G2::<$m::G3<D0, D1, D2>, $m::C3>::Right($m::C3::One(x))),
                _ => go!(2, x => $m::G1::V0($m::G1::V0($m::M2::r#type(x)))),
            },
        }
    }};
}

/// The shapes whose fields are all type parameters: for derives of traits that are themselves
/// generic (`Extend<A>`, `AsRef<T>`, `Index<I>`, ...), which only support such enums.
#[macro_export]
macro_rules! generic_shapes {
    ($m:ident, [$($d:tt)*], $D:ident) => {
        #[allow(dead_code, non_camel_case_types, clippy::all)]
        pub mod $m {
            #[auto_enums::enum_derive($($d)*)]
            pub enum G1<A> { V0(A) }
            #[auto_enums::enum_derive($($d)*)]
            pub(crate) enum G2<T, U> { Left(T), Right(U) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum G3<A, B, C> { A(A), B(B), C(C) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum G9<A, B, C, D, E, F, G, H, I,> {
                A(A), B(B), C(C), #[allow(missing_docs)] D(D), E(E), F(F), G(G), H(H), I(I),
            }
            #[auto_enums::enum_derive($($d)*)]
            pub enum W2<Output, Error> where Output: Sized, Error: Sized, { Some(Output), None(Error) }
            #[auto_enums::enum_derive($($d)*)]
            pub enum Same<r#type> { A(r#type), B(r#type), C(r#type) }
        }
    };
}
#[macro_export]
macro_rules! drive_generic {
    ($m:ident, $D:ident, $drive:path) => {{
        macro_rules! go {
            ($V:literal, $x:ident => $wrap:expr) => {{
                let $x = $D::<$V>::mk();
                if $crate::is_ref() { $drive($x) } else { $drive($wrap) }
            }};
        }
        type D0 = $D<0>;
        type D1 = $D<1>;
        type D2 = $D<2>;
        type D3 = $D<3>;
        type N9 = $m::G9<D0, D1, D2, D3, D0, D1, D2, D3, D0>;
        $crate::probe(concat!(stringify!($m), " driven"));
        match $crate::choose(7) {
            0 => match $crate::choose(3) {
                0 => go!(0, x => $m::G3::<D0, D1, D2>::A(x)),
                1 => go!(1, x => $m::G3::<D0, D1, D2>::B(x)),
                _ => go!(2, x => $m::G3::<D0, D1, D2>::C(x)),
            },
            1 => go!(3, x => $m::G1::V0(x)),
            2 => match $crate::choose(3) {
                0 => go!(0, x => $m::G2::<D0, D1>::Left(x)),
                1 => go!(1, x => $m::G2::<D0, D1>::Right(x)),
                _ => go!(0, x => $m::G2::<D0, D0>::Right(x)),
            },
            3 => match $crate::choose(9) {
                0 => go!(0, x => N9::A(x)),
                1 => go!(1, x => N9::B(x)),
                2 => go!(2, x => N9::C(x)),
                3 => go!(3, x => N9::D(x)),
                4 => go!(0, x => N9::E(x)),
                5 => go!(1, x => N9::F(x)),
                6 => go!(2, x => N9::G(x)),
                7 => go!(3, x => N9::H(x)),
                _ => go!(0, x => N9::I(x)),
            },
            4 => match $crate::choose(2) {
                0 => go!(2, x => $m::W2::<D2, D1>::Some(x)),
                _ => go!(1, x => $m::W2::<D2, D1>::None(x)),
            },
            5 => match $crate::choose(3) {
                0 => go!(2, x => $m::Same::<D2>::A(x)),
                1 => go!(2, x => $m::Same::<D2>::B(x)),
                _ => go!(2, x => $m::Same::<D2>::C(x)),
            },
            // enums of enums
            _ => match $crate::choose(3) {
                0 => go!(1, x => $m::G2::<$m::G3<D0, D1, D2>, $m::G1<D2>>::Left($m::G3::B(x))),
                1 => go!(2, x => $m::G2::<$m::G3<D0, D1, D2>, $m::G1<D2>>::Right($m::G1::V0(x))),
                _ => go!(2, x => $m::G1::V0($m::G1::V0($m::Same::B(x)))),
            },
        }
    }};
}
