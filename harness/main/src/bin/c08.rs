//! C08: formatting or serializing an enum equals formatting or serializing its inner value,
//! under destinations that fail, serializers that fail and values that panic.
#![allow(clippy::all)]
use serde::ser::{self, Serialize, Serializer};
use simcore::*;
use std::fmt::{self, Binary, Debug, Display, LowerExp, LowerHex, Octal, Pointer, UpperExp, UpperHex, Write};

const KINDS: &[&str] = &["panic", "dest-fails", "value-fails"];

// ------------------------------------------------------------------ formatting

/// Destination with room for `room` more calls.
struct Dest(String);
impl fmt::Write for Dest {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        tick();
        if fault("dest-fails") {
            ev!("  dest fails at {}", self.0.len());
            return Err(fmt::Error);
        }
        ev!("  dest <- {s:?}");
        self.0.push_str(s);
        Ok(())
    }
}

pub struct Fm<const V: usize>(Token, u32, Vec<u8>);
#[allow(dead_code)]
impl<const V: usize> Fm<V> {
    fn mk() -> Self {
        swarm(KINDS);
        let n = choose(3);
        Fm(Token::new("value"), [0, 1, 255, 1 << 20][choose(4)], (0..n as u8).collect())
    }
    fn fmt(&self) -> fmt::Result { violate("inherent-method-called", "fmt".into()); Ok(()) }
    fn body(&self, what: &str, f: &mut fmt::Formatter<'_>, num: impl Fn(&u32, &mut fmt::Formatter<'_>) -> fmt::Result) -> fmt::Result {
        tick();
        ev!("fm{V}.{what} fill={:?} align={:?} width={:?} prec={:?} plus={} minus={} alt={} zero={}",
            f.fill(), f.align().map(|a| match a { fmt::Alignment::Left => 'l', fmt::Alignment::Center => 'c', fmt::Alignment::Right => 'r' }),
            f.width(), f.precision(), f.sign_plus(), f.sign_minus(), f.alternate(), f.sign_aware_zero_pad());
        maybe_panic("fmt");
        if fault("value-fails") {
            ev!("  value fails");
            return Err(fmt::Error);
        }
        match choose(6) {
            0 => f.pad(["", "x", "äöü text"][choose(3)]),
            1 => { f.write_char('<')?; num(&self.1, f)?; maybe_panic("fmt middle"); f.write_str(">") }
            2 => f.debug_struct("Dev").field("n", &self.1).field("v", &self.2).finish(),
            3 => f.debug_list().entries(self.2.iter()).finish(),
            4 => f.write_fmt(format_args!("{:>4}|{:<3}", self.1, what)),
            _ => num(&self.1, f),
        }
    }
}
macro_rules! fmts {
    ($($T:ident),*) => {$(
        impl<const V: usize> $T for Fm<V> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.body(stringify!($T), f, |n, f| $T::fmt(n, f)) }
        }
    )*};
}
fmts!(Debug, Display, Binary, Octal, LowerHex, UpperHex, LowerExp, UpperExp);
impl<const V: usize> Pointer for Fm<V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.body("Pointer", f, |n, f| Pointer::fmt(&(*n as usize as *const ()), f)) }
}
enum_shapes!(all_fmt, [Debug, Display, fmt::Binary, fmt::Octal, fmt::LowerHex, fmt::UpperHex, fmt::LowerExp, fmt::UpperExp, fmt::Pointer], Fm);
enum_shapes!(paths, [fmt::Debug, fmt::Display], Fm);
enum_shapes!(dbg, [Debug], Fm);
enum_shapes!(disp, [Display], Fm);

fn one(what: &str, a: fmt::Arguments<'_>) {
    let mut d = Dest(String::new());
    let r = d.write_fmt(a);
    ev!("{what} -> {r:?} {:?}", d.0);
}
macro_rules! each_spec {
    ($t:expr, $x:literal) => {{
        let (w, p) = (choose(14), choose(5));
        match choose(12) {
            0 => one("plain", format_args!(concat!("{0:", $x, "}"), $t)),
            1 => one("width", format_args!(concat!("{0:12", $x, "}"), $t)),
            2 => one("left", format_args!(concat!("{0:*<9", $x, "}"), $t)),
            3 => one("center", format_args!(concat!("{0:^11", $x, "}"), $t)),
            4 => one("right", format_args!(concat!("{0:->7", $x, "}"), $t)),
            5 => one("plus", format_args!(concat!("{0:+", $x, "}"), $t)),
            6 => one("alt", format_args!(concat!("{0:#", $x, "}"), $t)),
            7 => one("zero", format_args!(concat!("{0:#010", $x, "}"), $t)),
            8 => one("prec", format_args!(concat!("{0:.2", $x, "}"), $t)),
            9 => one("args", format_args!(concat!("{0:1$.2$", $x, "}"), $t, w, p)),
            10 => one("surrounded", format_args!(concat!("[{0:", $x, "}|{0:5", $x, "}]"), $t)),
            _ => one("everything", format_args!(concat!("{0:é>+#01$.2$", $x, "}"), $t, w, p)),
        }
    }};
}
fn drive_dbg<T: Debug>(t: T) {
    for i in 0..range(1, 5) {
        catch(&format!("op {i}"), || match choose(7) {
            0 => one("hexdebug", format_args!("{t:x?}")),
            1 => one("HEXdebug", format_args!("{t:#X?}")),
            2 => one("in option", format_args!("{:#?}", Some(&t))),
            3 => one("in vec", format_args!("{:?}", [(1, &t), (2, &t)])),
            _ => each_spec!(t, "?"),
        });
    }
}
fn drive_disp<T: Display>(t: T) {
    for i in 0..range(1, 5) {
        catch(&format!("op {i}"), || match choose(4) {
            0 => { let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.to_string())); ev!("to_string {:?}", r.map_err(|p| payload_str(&*p))) }
            _ => each_spec!(t, ""),
        });
    }
}
fn drive_paths<T: Debug + Display>(t: T) {
    if flip() { drive_dbg(t) } else { drive_disp(t) }
}
fn drive_all<T: Debug + Display + Binary + Octal + LowerHex + UpperHex + LowerExp + UpperExp + Pointer>(t: T) {
    for i in 0..range(1, 8) {
        catch(&format!("op {i}"), || match choose(9) {
            0 => each_spec!(t, ""),
            1 => each_spec!(t, "?"),
            2 => each_spec!(t, "b"),
            3 => each_spec!(t, "o"),
            4 => each_spec!(t, "x"),
            5 => each_spec!(t, "X"),
            6 => each_spec!(t, "e"),
            7 => each_spec!(t, "E"),
            _ => each_spec!(t, "p"),
        });
    }
}
/// anonymous enums over real values
#[auto_enums::auto_enum(Display, Debug)]
fn anon_disp(k: usize) -> impl Display + Debug {
    match k {
        0 => 12345u32,
        1 => "text",
        2 => String::from("owned"),
        3 => 3.25f64,
        4 => 'x',
        5 => std::net::Ipv4Addr::LOCALHOST,
        _ => Fm::<2>::mk(),
    }
}
fn s_anon_disp() {
    swarm(KINDS);
    let k = choose(7);
    if !is_ref() { return drive_paths(anon_disp(k)); }
    match k {
        0 => drive_paths(12345u32),
        1 => drive_paths("text"),
        2 => drive_paths(String::from("owned")),
        3 => drive_paths(3.25f64),
        4 => drive_paths('x'),
        5 => drive_paths(std::net::Ipv4Addr::LOCALHOST),
        _ => drive_paths(Fm::<2>::mk()),
    }
}
#[auto_enums::auto_enum(fmt::LowerHex, fmt::Binary, fmt::UpperHex, fmt::Octal, fmt::LowerExp, fmt::UpperExp)]
fn anon_num(k: usize) -> impl LowerHex + Binary + UpperHex + Octal + LowerExp + UpperExp {
    match k { 0 => 255u8, 1 => -3i32, 2 => 1u64 << 40, _ => 7i128 }
}
fn drive_num<T: Binary + Octal + LowerHex + UpperHex + LowerExp + UpperExp>(t: T) {
    for _ in 0..range(1, 4) {
        match choose(6) {
            0 => each_spec!(t, "b"),
            1 => each_spec!(t, "o"),
            2 => each_spec!(t, "x"),
            3 => each_spec!(t, "X"),
            4 => each_spec!(t, "e"),
            _ => each_spec!(t, "E"),
        }
    }
}
fn s_anon_num() {
    swarm(KINDS);
    let k = choose(4);
    if !is_ref() { return drive_num(anon_num(k)); }
    match k { 0 => drive_num(255u8), 1 => drive_num(-3i32), 2 => drive_num(1u64 << 40), _ => drive_num(7i128) }
}

// ------------------------------------------------------------------ fmt::Write

macro_rules! writers {
    ($($D:ident),*) => {$(
        pub struct $D<const V: usize>(Token, String);
        #[allow(dead_code)]
        impl<const V: usize> $D<V> {
            fn mk() -> Self { swarm(KINDS); $D(Token::new("writer"), String::new()) }
            fn write_str(&self) { violate("inherent-method-called", "write_str".into()) }
            fn write_char(&self) { violate("inherent-method-called", "write_char".into()) }
            fn write_fmt(&self) { violate("inherent-method-called", "write_fmt".into()) }
            fn put(&mut self, what: &str, s: &str) -> fmt::Result {
                tick();
                ev!("w{V}.{what} {s:?}");
                maybe_panic("writer");
                if fault("dest-fails") {
                    // a torn write: part of the text arrives
                    let mut n = choose(s.len() + 1);
                    while !s.is_char_boundary(n) { n -= 1 }
                    self.1.push_str(&s[..n]);
                    return Err(fmt::Error);
                }
                self.1.push_str(s);
                Ok(())
            }
        }
        impl<const V: usize> Drop for $D<V> {
            fn drop(&mut self) { ev!("w{V} holds {:?}", self.1) }
        }
    )*};
}
writers!(WMin, WFull);
impl<const V: usize> fmt::Write for WMin<V> {
    fn write_str(&mut self, s: &str) -> fmt::Result { self.put("write_str", s) }
}
impl<const V: usize> fmt::Write for WFull<V> {
    fn write_str(&mut self, s: &str) -> fmt::Result { self.put("write_str", s) }
    fn write_char(&mut self, c: char) -> fmt::Result { self.put("write_char", c.encode_utf8(&mut [0; 4])) }
    fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> fmt::Result {
        ev!("w{V}.write_fmt");
        let s = a.to_string();
        self.put("formatted", &s)
    }
}
enum_shapes!(wmin, [fmt::Write], WMin);
enum_shapes!(wfull, [fmt::Write], WFull);
fn drive_write<T: fmt::Write>(mut t: T) {
    let t = &mut t;
    for i in 0..range(1, 8) {
        catch(&format!("op {i}"), || {
            let r = match choose(6) {
                0 => t.write_str(["", "abc", "żółw"][choose(3)]),
                1 => t.write_char(['a', 'é', '🦀'][choose(3)]),
                2 => write!(t, "{}-{:>5}-{:?}", i, "x", Some(i)),
                3 => writeln!(t),
                4 => fmt::Write::write_fmt(t, format_args!("only text")),
                _ => ["p", "q"].iter().try_for_each(|s| t.write_str(s)),
            };
            ev!("-> {r:?}");
        });
    }
}

// ------------------------------------------------------------------ serde

#[derive(Debug)]
struct SerErr(String);
impl Display for SerErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for SerErr {}
impl ser::Error for SerErr {
    fn custom<T: Display>(m: T) -> Self { SerErr(format!("custom: {m}")) }
}
#[derive(Clone, Copy)]
struct Ser(bool);
fn step(what: String) -> Result<usize, SerErr> {
    tick();
    ev!("  ser {what}");
    if fault("dest-fails") {
        ev!("  serializer fails");
        return Err(SerErr("destination failed".into()));
    }
    Ok(what.len())
}
macro_rules! prim {
    ($($m:ident $T:ty),*) => {$( fn $m(self, v: $T) -> Result<usize, SerErr> { step(format!("{} {v:?}", stringify!($m))) } )*};
}
impl Serializer for Ser {
    type Ok = usize;
    type Error = SerErr;
    type SerializeSeq = Ser;
    type SerializeTuple = Ser;
    type SerializeTupleStruct = Ser;
    type SerializeTupleVariant = Ser;
    type SerializeMap = Ser;
    type SerializeStruct = Ser;
    type SerializeStructVariant = Ser;
    prim!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
        serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8],
        serialize_i128 i128, serialize_u128 u128, serialize_unit_struct &'static str);
    fn serialize_none(self) -> Result<usize, SerErr> { step("none".into()) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<usize, SerErr> { step("some".into())?; v.serialize(self) }
    fn serialize_unit(self) -> Result<usize, SerErr> { step("unit".into()) }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<usize, SerErr> { step(format!("unit_variant {n} {i} {v}")) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<usize, SerErr> { step(format!("newtype {n}"))?; v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, i: u32, v: &'static str, x: &T) -> Result<usize, SerErr> { step(format!("newtype_variant {n} {i} {v}"))?; x.serialize(self) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Ser, SerErr> { step(format!("seq {n:?}"))?; Ok(self) }
    fn serialize_tuple(self, n: usize) -> Result<Ser, SerErr> { step(format!("tuple {n}"))?; Ok(self) }
    fn serialize_tuple_struct(self, s: &'static str, n: usize) -> Result<Ser, SerErr> { step(format!("tuple_struct {s} {n}"))?; Ok(self) }
    fn serialize_tuple_variant(self, s: &'static str, i: u32, v: &'static str, n: usize) -> Result<Ser, SerErr> { step(format!("tuple_variant {s} {i} {v} {n}"))?; Ok(self) }
    fn serialize_map(self, n: Option<usize>) -> Result<Ser, SerErr> { step(format!("map {n:?}"))?; Ok(self) }
    fn serialize_struct(self, s: &'static str, n: usize) -> Result<Ser, SerErr> { step(format!("struct {s} {n}"))?; Ok(self) }
    fn serialize_struct_variant(self, s: &'static str, i: u32, v: &'static str, n: usize) -> Result<Ser, SerErr> { step(format!("struct_variant {s} {i} {v} {n}"))?; Ok(self) }
    fn is_human_readable(&self) -> bool { ev!("  human? {}", self.0); self.0 }
    fn collect_str<T: ?Sized + Display>(self, v: &T) -> Result<usize, SerErr> { step(format!("collect_str {v}")) }
}
macro_rules! compound {
    ($($Tr:ident $m:ident ($($k:ident: $K:ty)?)),*) => {$(
        impl ser::$Tr for Ser {
            type Ok = usize;
            type Error = SerErr;
            fn $m<T: ?Sized + Serialize>(&mut self, $($k: $K,)? v: &T) -> Result<(), SerErr> {
                $(ev!("  key {}", $k);)?
                v.serialize(*self).map(|_| ())
            }
            fn end(self) -> Result<usize, SerErr> { step(concat!("end ", stringify!($Tr)).into()) }
        }
    )*};
}
compound!(SerializeSeq serialize_element(), SerializeTuple serialize_element(), SerializeTupleStruct serialize_field(),
    SerializeTupleVariant serialize_field(), SerializeStruct serialize_field(k: &'static str), SerializeStructVariant serialize_field(k: &'static str));
impl ser::SerializeMap for Ser {
    type Ok = usize;
    type Error = SerErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), SerErr> { ev!("  map key"); k.serialize(*self).map(|_| ()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SerErr> { v.serialize(*self).map(|_| ()) }
    fn end(self) -> Result<usize, SerErr> { step("end map".into()) }
}

pub struct Val<const V: usize>(Token);
#[allow(dead_code)]
impl<const V: usize> Val<V> {
    fn mk() -> Self { swarm(KINDS); Val(Token::new("value")) }
    fn serialize(&self) { violate("inherent-method-called", "serialize".into()) }
}
struct Node(u32);
impl Serialize for Node {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { tree(s, self.0) }
}
/// a value of random shape
fn tree<S: Serializer>(s: S, depth: u32) -> Result<S::Ok, S::Error> {
    use ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple};
    tick();
    maybe_panic("serialize");
    if fault("value-fails") {
        return Err(ser::Error::custom("value refuses"));
    }
    let n = Node(depth.saturating_sub(1));
    match choose(if depth == 0 { 9 } else { 18 }) {
        0 => s.serialize_u32(7),
        1 => s.serialize_str("text"),
        2 => s.serialize_unit(),
        3 => s.serialize_none(),
        4 => s.serialize_bytes(b"by"),
        5 => s.serialize_unit_variant("E", 2, "Two"),
        6 => s.serialize_unit_struct("U"),
        7 => if s.is_human_readable() { s.serialize_str("readable") } else { s.serialize_u8(1) },
        8 => s.collect_str(&format_args!("{}", 5)),
        9 => s.serialize_some(&n),
        10 => s.serialize_newtype_struct("N", &n),
        11 => s.serialize_newtype_variant("E", 1, "V", &n),
        12 => { let mut q = s.serialize_seq(Some(2))?; q.serialize_element(&n)?; q.serialize_element(&n)?; q.end() }
        13 => { let mut q = s.serialize_tuple(2)?; q.serialize_element(&n)?; q.serialize_element(&1u8)?; q.end() }
        14 => { let mut q = s.serialize_map(None)?; q.serialize_entry("k", &n)?; q.serialize_key("l")?; q.serialize_value(&n)?; q.end() }
        15 => { let mut q = s.serialize_struct("S", 1)?; q.serialize_field("f", &n)?; q.end() }
        16 => { let mut q = s.serialize_struct_variant("E", 0, "V", 1)?; q.serialize_field("f", &n)?; q.end() }
        _ => s.collect_seq([1u8, 2]),
    }
}
impl<const V: usize> Serialize for Val<V> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        ev!("val{V}.serialize");
        self.0.check();
        tree(s, 3)
    }
}
enum_shapes!(sval, [serde::Serialize], Val);
fn drive_ser<T: Serialize>(t: T) {
    for i in 0..range(1, 3) {
        let human = flip();
        catch(&format!("op {i}"), || match choose(3) {
            0 => ev!("in struct -> {:?}", Some((1u8, &t)).serialize(Ser(human))),
            _ => ev!("-> {:?}", t.serialize(Ser(human))),
        });
    }
}
#[auto_enums::auto_enum(serde::Serialize)]
fn anon_ser(k: usize) -> impl Serialize {
    match k { 0 => 5u8, 1 => vec!["a", "b"], 2 => Some(1.5f32), 3 => ("t", 'c', [1u8; 2]), _ => Val::<1>::mk() }
}
fn s_anon_ser() {
    swarm(KINDS);
    let k = choose(5);
    if !is_ref() { return drive_ser(anon_ser(k)); }
    match k { 0 => drive_ser(5u8), 1 => drive_ser(vec!["a", "b"]), 2 => drive_ser(Some(1.5f32)), 3 => drive_ser(("t", 'c', [1u8; 2])), _ => drive_ser(Val::<1>::mk()) }
}

fn main() {
    main_with(&[
        Scenario { name: "Debug", run: || drive_shapes!(dbg, Fm, drive_dbg), weight: 2 },
        Scenario { name: "Display", run: || drive_shapes!(disp, Fm, drive_disp), weight: 2 },
        Scenario { name: "full paths", run: || drive_shapes!(paths, Fm, drive_paths), weight: 1 },
        Scenario { name: "all formats", run: || drive_shapes!(all_fmt, Fm, drive_all), weight: 4 },
        Scenario { name: "anonymous Display", run: s_anon_disp, weight: 1 },
        Scenario { name: "anonymous numbers", run: s_anon_num, weight: 1 },
        Scenario { name: "fmt::Write, required methods", run: || drive_shapes!(wmin, WMin, drive_write), weight: 2 },
        Scenario { name: "fmt::Write, own methods", run: || drive_shapes!(wfull, WFull, drive_write), weight: 2 },
        Scenario { name: "Serialize", run: || drive_shapes!(sval, Val, drive_ser), weight: 3 },
        Scenario { name: "anonymous Serialize", run: s_anon_ser, weight: 1 },
    ]);
}
