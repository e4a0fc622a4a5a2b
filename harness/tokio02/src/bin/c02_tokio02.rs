//! C02: poll-level transparency of async byte I/O (tokio 0.2).
#![allow(clippy::all)]
use simcore::io::*;
use simcore::*;
use std::io::{self, SeekFrom};
use std::pin::Pin;
use std::task::{Context, Poll};

macro_rules! device {
    ($($D:ident $name:literal),*) => {$(
        struct $D<const V: usize>(ACore);
        #[allow(dead_code)]
        impl<const V: usize> $D<V> {
            fn mk() -> Self { ev!(concat!($name, " {}"), V); $D(ACore::new(V)) }
            fn core(self: Pin<&mut Self>) -> &mut ACore { &mut unsafe { self.get_unchecked_mut() }.0 }
            // decoys
            fn poll_read(&self) { violate("inherent-method-called", "poll_read".into()) }
            fn poll_write(&self) { violate("inherent-method-called", "poll_write".into()) }
            fn poll_flush(&self) { violate("inherent-method-called", "poll_flush".into()) }
        }
    )*};
}
device!(TMin "tokio min", TFull "tokio full");

type PIo<T> = Poll<io::Result<T>>;

mod t2 {
    use super::*;
    use tokio::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
    macro_rules! imp {
        ($D:ident, { $($r:tt)* }) => {
            impl<const V: usize> AsyncRead for $D<V> {
                fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> PIo<usize> {
                    self.core().read("poll_read", Some(cx), buf.len()).map_ok(|b| { buf[..b.len()].copy_from_slice(&b); b.len() })
                }
                $($r)*
            }
            impl<const V: usize> AsyncWrite for $D<V> {
                fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> PIo<usize> {
                    self.core().write("poll_write", Some(cx), buf)
                }
                fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> PIo<()> { self.core().unit("poll_flush", Some(cx)) }
                fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> PIo<()> { self.core().unit("poll_shutdown", Some(cx)) }
            }
            impl<const V: usize> AsyncSeek for $D<V> {
                fn start_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, pos: SeekFrom) -> PIo<()> {
                    let c = self.core();
                    ev!("  seek {pos:?}");
                    match c.unit("start_seek", Some(cx)) {
                        Poll::Ready(Ok(())) => Poll::Ready(c.do_seek(pos).map(|_| ())),
                        x => x,
                    }
                }
                fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> PIo<u64> {
                    let c = self.core();
                    c.unit("poll_complete", Some(cx)).map_ok(|_| c.pos as u64)
                }
            }
            impl<const V: usize> AsyncBufRead for $D<V> {
                fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> PIo<&[u8]> {
                    let c = self.core();
                    let m = c.avail().min(8);
                    match c.outcome("poll_fill_buf", Some(cx), m) {
                        Poll::Ready(Ok(n)) => Poll::Ready(Ok(&c.data[c.pos..c.pos + n])),
                        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                        Poll::Pending => Poll::Pending,
                    }
                }
                fn consume(self: Pin<&mut Self>, amt: usize) {
                    let c = self.core();
                    ev!("dev{}.consume({amt})", c.v);
                    c.addr.pinned();
                    maybe_panic("consume");
                    c.pos += amt.min(c.avail());
                }
            }
        };
    }
    imp!(TMin, {});
    imp!(TFull, {
        unsafe fn prepare_uninitialized_buffer(&self, buf: &mut [std::mem::MaybeUninit<u8>]) -> bool {
            ev!("dev{V}.prepare_uninitialized_buffer({})", buf.len());
            maybe_panic("prepare");
            if self.0.flag {
                for b in buf { *b = std::mem::MaybeUninit::new(0x55); }
            }
            self.0.flag
        }
    });

    enum_shapes!(read_min, [tokio02::AsyncRead], TMin);
    enum_shapes!(read_full, [tokio02::AsyncRead], TFull);
    enum_shapes!(write_min, [tokio02::AsyncWrite], TMin);
        enum_shapes!(seek, [tokio02::AsyncSeek], TMin);
    enum_shapes!(bufread, [tokio02::AsyncBufRead, tokio02::AsyncRead], TMin);
    enum_shapes!(all, [tokio02::AsyncSeek, tokio02::AsyncRead, tokio02::AsyncWrite, tokio02::AsyncBufRead], TMin);

    fn read_op<T: AsyncRead>(t: Pin<&mut T>) {
        let w = choose(4);
        if flip() {
            let mut b = vec![0xEE; choose(9)];
            let r = waker::poll_with(w, |cx| t.poll_read(cx, &mut b));
            ev!("poll_read -> {} {b:?}", show_poll(&r));
        } else {
            let mut b = vec![std::mem::MaybeUninit::new(0xEEu8); choose(9)];
            let r = unsafe { t.prepare_uninitialized_buffer(&mut b) };
            ev!("prepare_uninitialized_buffer -> {r} {:?}", b.iter().map(|x| unsafe { x.assume_init() }).collect::<Vec<_>>());
        }
    }
    fn bufread_op<T: AsyncBufRead>(mut t: Pin<&mut T>) {
        let w = choose(4);
        let n = waker::poll_with(w, |cx| {
            let r = t.as_mut().poll_fill_buf(cx).map_ok(|b| b.to_vec());
            ev!("poll_fill_buf -> {}", show_poll(&r));
            match r { Poll::Ready(Ok(b)) => b.len(), _ => 0 }
        });
        let k = choose(n + 1);
        t.consume(k);
    }
    fn write_op<T: AsyncWrite>(t: Pin<&mut T>) {
        let w = choose(4);
        let tag = (choose(20) + 65) as u8;
        match choose(3) {
            0 => {
                let b = vec![tag; choose(7)];
                let r = waker::poll_with(w, |cx| AsyncWrite::poll_write(t, cx, &b));
                ev!("poll_write -> {}", show_poll(&r));
            }
            1 => {
                let r = waker::poll_with(w, |cx| AsyncWrite::poll_flush(t, cx));
                ev!("poll_flush -> {}", show_poll(&r));
            }
            _ => {
                let r = waker::poll_with(w, |cx| t.poll_shutdown(cx));
                ev!("poll_shutdown -> {}", show_poll(&r));
            }
        }
    }
    fn seek_op<T: AsyncSeek>(t: Pin<&mut T>) {
        let w = choose(4);
        if flip() {
            let p = any_seek();
            let r = waker::poll_with(w, |cx| t.start_seek(cx, p));
            ev!("start_seek({p:?}) -> {}", show_poll(&r));
        } else {
            let r = waker::poll_with(w, |cx| t.poll_complete(cx));
            ev!("poll_complete -> {}", show_poll(&r));
        }
    }
    fn drive_read<T: AsyncRead>(t: T) { history(t, |t| read_op(t)) }
    fn drive_bufread<T: AsyncBufRead + AsyncRead>(t: T) { history(t, |t| if flip() { read_op(t) } else { bufread_op(t) }) }
    fn drive_write<T: AsyncWrite>(t: T) { history(t, |t| write_op(t)) }
    fn drive_seek<T: AsyncSeek>(t: T) { history(t, |t| seek_op(t)) }
    fn drive_all<T: AsyncRead + AsyncWrite + AsyncSeek + AsyncBufRead>(t: T) {
        history(t, |t| match choose(4) { 0 => read_op(t), 1 => bufread_op(t), 2 => write_op(t), _ => seek_op(t) })
    }
    pub fn s_read_min() { drive_shapes!(read_min, TMin, drive_read) }
    pub fn s_read_full() { drive_shapes!(read_full, TFull, drive_read) }
    pub fn s_write_min() { drive_shapes!(write_min, TMin, drive_write) }
    pub fn s_seek() { drive_shapes!(seek, TMin, drive_seek) }
    pub fn s_bufread() { drive_shapes!(bufread, TMin, drive_bufread) }
    pub fn s_all() { drive_shapes!(all, TMin, drive_all) }

    #[auto_enums::auto_enum(tokio02::AsyncRead, tokio02::AsyncWrite)]
    fn anon(v: usize) -> impl AsyncRead + AsyncWrite {
        match v { 0 => TFull::<0>::mk(), 1 if v == 1 => TMin::<1>::mk(), _ => TFull::<2>::mk() }
    }
    fn drive_rw<T: AsyncRead + AsyncWrite>(t: T) { history(t, |t| if flip() { read_op(t) } else { write_op(t) }) }
    pub fn s_anon() {
        let v = choose(3);
        if is_ref() {
            match v { 0 => drive_rw(TFull::<0>::mk()), 1 => drive_rw(TMin::<1>::mk()), _ => drive_rw(TFull::<2>::mk()) }
        } else {
            drive_rw(anon(v))
        }
    }
}

fn history<T>(t: T, op: impl Fn(Pin<&mut T>)) {
    let mut t = Box::pin(t);
    for i in 0..range(1, 10) {
        catch(&format!("op {i}"), || op(t.as_mut()));
    }
    ev!("drop device");
    drop(t);
}

fn main() {
    main_with(&[
        Scenario { name: "tokio02 read min", run: t2::s_read_min, weight: 2 },
        Scenario { name: "tokio02 read full", run: t2::s_read_full, weight: 2 },
        Scenario { name: "tokio02 write min", run: t2::s_write_min, weight: 2 },
        Scenario { name: "tokio02 seek", run: t2::s_seek, weight: 2 },
        Scenario { name: "tokio02 bufread", run: t2::s_bufread, weight: 2 },
        Scenario { name: "tokio02 all", run: t2::s_all, weight: 4 },
        Scenario { name: "tokio02 anonymous", run: t2::s_anon, weight: 2 },
    ]);
}
