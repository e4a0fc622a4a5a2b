//! C02: tokio 0.1 asynchronous byte I/O.
#![allow(clippy::all)]
use futures::Async;
use simcore::io::*;
use simcore::*;
use simold01::*;
use std::io::{self, Read, Write};
use tokio::io::{AsyncRead, AsyncWrite};
use tokio::prelude::Poll;

struct Dev<const V: usize>(ACore, Parked);
struct Min<const V: usize>(ACore, Parked);
type P<T> = Poll<T, io::Error>;

fn to_poll<T>(p: std::task::Poll<io::Result<T>>, park: &mut Parked) -> P<T> {
    match p {
        std::task::Poll::Pending => {
            park.park();
            Ok(Async::NotReady)
        }
        std::task::Poll::Ready(r) => r.map(Async::Ready),
    }
}
fn to_io<T>(p: std::task::Poll<io::Result<T>>) -> io::Result<T> {
    match p {
        std::task::Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        std::task::Poll::Ready(r) => r,
    }
}
macro_rules! common {
    ($D:ident, {$($r:tt)*}, {$($w:tt)*}) => {
        #[allow(dead_code)]
        impl<const V: usize> $D<V> {
            fn mk() -> Self { ev!("{} {V}", stringify!($D)); $D(ACore::new(V), Parked::default()) }
            // decoys
            fn poll_read(&mut self) { violate("inherent-method-called", "poll_read".into()) }
            fn shutdown(&mut self) { violate("inherent-method-called", "shutdown".into()) }
        }
        impl<const V: usize> Read for $D<V> {
            fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                to_io(self.0.read("read", None, b.len()).map_ok(|r| { b[..r.len()].copy_from_slice(&r); r.len() }))
            }
        }
        impl<const V: usize> Write for $D<V> {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> { to_io(self.0.write("write", None, b)) }
            fn flush(&mut self) -> io::Result<()> { to_io(self.0.unit("flush", None)) }
        }
        impl<const V: usize> AsyncRead for $D<V> { $($r)* }
        impl<const V: usize> AsyncWrite for $D<V> {
            fn shutdown(&mut self) -> P<()> {
                if fault("wake-old") { self.1.wake(); }
                let p = self.0.unit("shutdown", None);
                to_poll(p, &mut self.1)
            }
            $($w)*
        }
    };
}
common!(Min, {}, {});
common!(Dev, {
    unsafe fn prepare_uninitialized_buffer(&self, buf: &mut [u8]) -> bool {
        ev!("dev{V}.prepare {}", buf.len());
        maybe_panic("prepare");
        if self.0.flag { for b in buf { *b = 0x55; } }
        self.0.flag
    }
    fn poll_read(&mut self, b: &mut [u8]) -> P<usize> {
        if fault("wake-old") { self.1.wake(); }
        let p = self.0.read("poll_read", None, b.len()).map_ok(|r| { b[..r.len()].copy_from_slice(&r); r.len() });
        to_poll(p, &mut self.1)
    }
}, {
    fn poll_write(&mut self, b: &[u8]) -> P<usize> {
        let p = self.0.write("poll_write", None, b);
        to_poll(p, &mut self.1)
    }
    fn poll_flush(&mut self) -> P<()> {
        if fault("wake-old") { self.1.wake(); }
        let p = self.0.unit("poll_flush", None);
        to_poll(p, &mut self.1)
    }
});

enum_shapes!(read_min, [Read, tokio01::AsyncRead], Min);
enum_shapes!(read_full, [tokio01::AsyncRead, Read], Dev);
enum_shapes!(write_min, [Write, tokio01::AsyncWrite], Min);
enum_shapes!(write_full, [io::Write, tokio01::AsyncWrite], Dev);
enum_shapes!(all, [Read, Write, tokio01::AsyncWrite, tokio01::AsyncRead], Dev);

fn show_p<T: std::fmt::Debug>(p: &P<T>) -> String {
    match p {
        Ok(Async::NotReady) => "NotReady".into(),
        Ok(Async::Ready(x)) => format!("Ready({x:?})"),
        Err(e) => format!("Err({})", show_err(e)),
    }
}
fn read_op<T: AsyncRead>(t: &mut T) {
    let w = choose(4);
    let mut b = vec![0xEE; choose(9)];
    match choose(3) {
        0 => {
            let r = in_task(w, || AsyncRead::poll_read(t, &mut b));
            ev!("poll_read -> {} {b:?}", show_p(&r));
        }
        1 => {
            let r = unsafe { t.prepare_uninitialized_buffer(&mut b) };
            ev!("prepare -> {r} {b:?}");
        }
        _ => {
            let r = t.read(&mut b);
            ev!("read -> {} {b:?}", show(&r));
        }
    }
}
fn write_op<T: AsyncWrite>(t: &mut T) {
    let w = choose(4);
    let b = vec![(choose(20) + 65) as u8; choose(7)];
    match choose(5) {
        0 => {
            let r = in_task(w, || AsyncWrite::poll_write(t, &b));
            ev!("poll_write -> {}", show_p(&r));
        }
        1 => {
            let r = in_task(w, || AsyncWrite::poll_flush(t));
            ev!("poll_flush -> {}", show_p(&r));
        }
        2 => {
            let r = in_task(w, || AsyncWrite::shutdown(t));
            ev!("shutdown -> {}", show_p(&r));
        }
        3 => ev!("write -> {}", show(&t.write(&b))),
        _ => ev!("flush -> {}", show(&t.flush())),
    }
}
fn history<T>(t: T, op: impl Fn(&mut T)) {
    let mut t = Box::new(t);
    for i in 0..range(1, 10) {
        catch(&format!("op {i}"), || op(&mut t));
    }
}
fn drive_read<T: AsyncRead>(t: T) {
    history(t, |t| read_op(t))
}
fn drive_write<T: AsyncWrite>(t: T) {
    history(t, |t| write_op(t))
}
fn drive_all<T: AsyncRead + AsyncWrite>(t: T) {
    if chance(1, 4) {
        // the library's own copy and split on top of the enum
        let (mut r, mut w) = AsyncRead::split(t);
        for i in 0..range(1, 6) {
            catch(&format!("op {i}"), || in_task(3, || if flip() { let mut b = [0; 4]; ev!("{}", show_p(&r.poll_read(&mut b))) } else { ev!("{}", show_p(&w.poll_write(b"xyz"))) }));
        }
        return;
    }
    history(t, |t| if flip() { read_op(t) } else { write_op(t) })
}
fn s_read_min() { drive_shapes!(read_min, Min, drive_read) }
fn s_read_full() { drive_shapes!(read_full, Dev, drive_read) }
fn s_write_min() { drive_shapes!(write_min, Min, drive_write) }
fn s_write_full() { drive_shapes!(write_full, Dev, drive_write) }
fn s_all() { drive_shapes!(all, Dev, drive_all) }

fn main() {
    main_with(&[
        Scenario { name: "tokio01 read min", run: s_read_min, weight: 1 },
        Scenario { name: "tokio01 read full", run: s_read_full, weight: 1 },
        Scenario { name: "tokio01 write min", run: s_write_min, weight: 1 },
        Scenario { name: "tokio01 write full", run: s_write_full, weight: 1 },
        Scenario { name: "tokio01 all", run: s_all, weight: 2 },
    ]);
}
