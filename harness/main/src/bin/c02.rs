//! C02: poll-level transparency of async byte I/O (futures 0.3, tokio 1).
#![allow(clippy::all)]
use simcore::io::*;
use simcore::*;
use std::io::{self, IoSlice, IoSliceMut, SeekFrom};
use std::pin::Pin;
use std::task::{Context, Poll};

macro_rules! device {
    ($($D:ident $name:literal),*) => {$(
        struct $D<const V: usize>(ACore);
        #[allow(dead_code)]
        impl<const V: usize> $D<V> {
            fn mk() -> Self { ev!(concat!($name, " {}"), V); $D(ACore::new(V)) }
            fn core(self: Pin<&mut Self>) -> &mut ACore { &mut unsafe { self.get_unchecked_mut() }.0 }
            // decoys
            fn poll_read(&self) { violate("inherent-method-called", "poll_read".into()) }
            fn poll_write(&self) { violate("inherent-method-called", "poll_write".into()) }
            fn poll_flush(&self) { violate("inherent-method-called", "poll_flush".into()) }
        }
    )*};
}
device!(FMin "futures min", FFull "futures full", TMin "tokio min", TFull "tokio full");

type PIo<T> = Poll<io::Result<T>>;

mod f03 {
    use super::*;
    use futures::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
    macro_rules! imp {
        ($D:ident, { $($r:tt)* }, { $($w:tt)* }) => {
            impl<const V: usize> AsyncRead for $D<V> {
                fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> PIo<usize> {
                    self.core().read("poll_read", Some(cx), buf.len()).map_ok(|b| { buf[..b.len()].copy_from_slice(&b); b.len() })
                }
                $($r)*
            }
            impl<const V: usize> AsyncWrite for $D<V> {
                fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> PIo<usize> {
                    self.core().write("poll_write", Some(cx), buf)
                }
                fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> PIo<()> { self.core().unit("poll_flush", Some(cx)) }
                fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> PIo<()> { self.core().unit("poll_close", Some(cx)) }
                $($w)*
            }
            impl<const V: usize> AsyncSeek for $D<V> {
                fn poll_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, pos: SeekFrom) -> PIo<u64> {
                    let c = self.core();
                    ev!("  seek {pos:?}");
                    match c.unit("poll_seek", Some(cx)) {
                        Poll::Ready(Ok(())) => Poll::Ready(c.do_seek(pos)),
                        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                        Poll::Pending => Poll::Pending,
                    }
                }
            }
            impl<const V: usize> AsyncBufRead for $D<V> {
                fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> PIo<&[u8]> {
                    let c = self.core();
                    let m = c.avail().min(8);
                    match c.outcome("poll_fill_buf", Some(cx), m) {
                        Poll::Ready(Ok(n)) => Poll::Ready(Ok(&c.data[c.pos..c.pos + n])),
                        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                        Poll::Pending => Poll::Pending,
                    }
                }
                fn consume(self: Pin<&mut Self>, amt: usize) {
                    let c = self.core();
                    ev!("dev{}.consume({amt})", c.v);
                    c.addr.pinned();
                    maybe_panic("consume");
                    c.pos += amt.min(c.avail());
                }
            }
        };
    }
    imp!(FMin, {}, {});
    imp!(FFull, {
        fn poll_read_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> PIo<usize> {
            ev!("  bufs {:?}", bufs.iter().map(|b| b.len()).collect::<Vec<_>>());
            let want = bufs.iter().map(|b| b.len()).sum();
            self.core().read("poll_read_vectored", Some(cx), want).map_ok(|r| {
                let mut off = 0;
                for b in bufs {
                    let n = b.len().min(r.len() - off);
                    b[..n].copy_from_slice(&r[off..off + n]);
                    off += n;
                }
                r.len()
            })
        }
    }, {
        fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> PIo<usize> {
            ev!("  bufs {:?}", bufs.iter().map(|b| b.len()).collect::<Vec<_>>());
            let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
            self.core().write("poll_write_vectored", Some(cx), &all)
        }
    });

    enum_shapes!(read_min, [futures03::AsyncRead], FMin);
    enum_shapes!(read_full, [futures03::AsyncRead], FFull);
    enum_shapes!(write_min, [futures03::AsyncWrite], FMin);
    enum_shapes!(write_full, [futures03::AsyncWrite], FFull);
    enum_shapes!(seek, [futures03::AsyncSeek], FFull);
    enum_shapes!(bufread, [futures03::AsyncRead, futures03::AsyncBufRead], FFull);
    enum_shapes!(all, [futures03::AsyncWrite, futures03::AsyncBufRead, futures03::AsyncRead, futures03::AsyncSeek], FFull);

    fn read_op<T: AsyncRead>(t: Pin<&mut T>) {
        let w = choose(4);
        if flip() {
            let mut b = vec![0xEE; choose(9)];
            let r = waker::poll_with(w, |cx| AsyncRead::poll_read(t, cx, &mut b));
            ev!("poll_read -> {} {b:?}", show_poll(&r));
        } else {
            let mut bs: Vec<Vec<u8>> = (0..choose(4)).map(|_| vec![0xEE; choose(5)]).collect();
            let r = {
                let mut sl: Vec<IoSliceMut<'_>> = bs.iter_mut().map(|b| IoSliceMut::new(b)).collect();
                waker::poll_with(w, |cx| t.poll_read_vectored(cx, &mut sl))
            };
            ev!("poll_read_vectored -> {} {bs:?}", show_poll(&r));
        }
    }
    fn bufread_op<T: AsyncBufRead>(mut t: Pin<&mut T>) {
        let w = choose(4);
        let n = waker::poll_with(w, |cx| {
            let r = t.as_mut().poll_fill_buf(cx).map_ok(|b| b.to_vec());
            ev!("poll_fill_buf -> {}", show_poll(&r));
            match r { Poll::Ready(Ok(b)) => b.len(), _ => 0 }
        });
        let k = choose(n + 1);
        t.consume(k);
    }
    fn write_op<T: AsyncWrite>(t: Pin<&mut T>) {
        let w = choose(4);
        let tag = (choose(20) + 65) as u8;
        match choose(4) {
            0 => {
                let b = vec![tag; choose(7)];
                let r = waker::poll_with(w, |cx| AsyncWrite::poll_write(t, cx, &b));
                ev!("poll_write -> {}", show_poll(&r));
            }
            1 => {
                let bs: Vec<Vec<u8>> = (0..choose(4)).map(|i| vec![tag + i as u8; choose(4)]).collect();
                let sl: Vec<IoSlice<'_>> = bs.iter().map(|b| IoSlice::new(b)).collect();
                let r = waker::poll_with(w, |cx| t.poll_write_vectored(cx, &sl));
                ev!("poll_write_vectored -> {}", show_poll(&r));
            }
            2 => {
                let r = waker::poll_with(w, |cx| AsyncWrite::poll_flush(t, cx));
                ev!("poll_flush -> {}", show_poll(&r));
            }
            _ => {
                let r = waker::poll_with(w, |cx| t.poll_close(cx));
                ev!("poll_close -> {}", show_poll(&r));
            }
        }
    }
    fn seek_op<T: AsyncSeek>(t: Pin<&mut T>) {
        let w = choose(4);
        let p = any_seek();
        let r = waker::poll_with(w, |cx| t.poll_seek(cx, p));
        ev!("poll_seek({p:?}) -> {}", show_poll(&r));
    }
    fn drive_read<T: AsyncRead>(t: T) { history(t, |t| read_op(t)) }
    fn drive_bufread<T: AsyncBufRead + AsyncRead>(t: T) { history(t, |t| if flip() { read_op(t) } else { bufread_op(t) }) }
    fn drive_write<T: AsyncWrite>(t: T) { history(t, |t| write_op(t)) }
    fn drive_seek<T: AsyncSeek>(t: T) { history(t, |t| seek_op(t)) }
    fn drive_all<T: AsyncRead + AsyncWrite + AsyncSeek + AsyncBufRead>(t: T) {
        history(t, |t| match choose(4) { 0 => read_op(t), 1 => bufread_op(t), 2 => write_op(t), _ => seek_op(t) })
    }
    pub fn s_read_min() { drive_shapes!(read_min, FMin, drive_read) }
    pub fn s_read_full() { drive_shapes!(read_full, FFull, drive_read) }
    pub fn s_write_min() { drive_shapes!(write_min, FMin, drive_write) }
    pub fn s_write_full() { drive_shapes!(write_full, FFull, drive_write) }
    pub fn s_seek() { drive_shapes!(seek, FFull, drive_seek) }
    pub fn s_bufread() { drive_shapes!(bufread, FFull, drive_bufread) }
    pub fn s_all() { drive_shapes!(all, FFull, drive_all) }

    #[auto_enums::auto_enum(futures03::AsyncRead, futures03::AsyncWrite)]
    fn anon(v: usize) -> impl AsyncRead + AsyncWrite {
        if v == 0 { return FFull::<0>::mk(); }
        match v { 1 => FMin::<1>::mk(), _ => FFull::<2>::mk() }
    }
    fn drive_rw<T: AsyncRead + AsyncWrite>(t: T) { history(t, |t| if flip() { read_op(t) } else { write_op(t) }) }
    pub fn s_anon() {
        let v = choose(3);
        if is_ref() {
            match v { 0 => drive_rw(FFull::<0>::mk()), 1 => drive_rw(FMin::<1>::mk()), _ => drive_rw(FFull::<2>::mk()) }
        } else {
            drive_rw(anon(v))
        }
    }
}

mod t1 {
    use super::*;
    use tokio::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite, ReadBuf};
    macro_rules! imp {
        ($D:ident, { $($w:tt)* }) => {
            impl<const V: usize> AsyncRead for $D<V> {
                fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> PIo<()> {
                    ev!("  readbuf filled {} init {} cap {}", buf.filled().len(), buf.initialized().len(), buf.capacity());
                    self.core().read("poll_read", Some(cx), buf.remaining()).map_ok(|b| {
                        if b.len() % 2 == 0 { buf.put_slice(&b); } else {
                            buf.initialize_unfilled()[..b.len()].copy_from_slice(&b);
                            buf.advance(b.len());
                        }
                    })
                }
            }
            impl<const V: usize> AsyncWrite for $D<V> {
                fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> PIo<usize> {
                    self.core().write("poll_write", Some(cx), buf)
                }
                fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> PIo<()> { self.core().unit("poll_flush", Some(cx)) }
                fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> PIo<()> { self.core().unit("poll_shutdown", Some(cx)) }
                $($w)*
            }
            impl<const V: usize> AsyncSeek for $D<V> {
                fn start_seek(self: Pin<&mut Self>, pos: SeekFrom) -> io::Result<()> {
                    let c = self.core();
                    ev!("dev{V}.start_seek {pos:?}");
                    c.addr.pinned();
                    maybe_panic("start_seek");
                    if let Some(e) = c.err() { return Err(e); }
                    c.do_seek(pos).map(|_| ())
                }
                fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> PIo<u64> {
                    let c = self.core();
                    c.unit("poll_complete", Some(cx)).map_ok(|_| c.pos as u64)
                }
            }
            impl<const V: usize> AsyncBufRead for $D<V> {
                fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> PIo<&[u8]> {
                    let c = self.core();
                    let m = c.avail().min(8);
                    match c.outcome("poll_fill_buf", Some(cx), m) {
                        Poll::Ready(Ok(n)) => Poll::Ready(Ok(&c.data[c.pos..c.pos + n])),
                        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                        Poll::Pending => Poll::Pending,
                    }
                }
                fn consume(self: Pin<&mut Self>, amt: usize) {
                    let c = self.core();
                    ev!("dev{}.consume({amt})", c.v);
                    c.addr.pinned();
                    maybe_panic("consume");
                    c.pos += amt.min(c.avail());
                }
            }
        };
    }
    imp!(TMin, {});
    imp!(TFull, {
        fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> PIo<usize> {
            ev!("  bufs {:?}", bufs.iter().map(|b| b.len()).collect::<Vec<_>>());
            let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
            self.core().write("poll_write_vectored", Some(cx), &all)
        }
        fn is_write_vectored(&self) -> bool {
            ev!("dev{V}.is_write_vectored");
            maybe_panic("is_write_vectored");
            self.0.flag
        }
    });

    enum_shapes!(read, [tokio1::AsyncRead], TFull);
    enum_shapes!(write_min, [tokio1::AsyncWrite], TMin);
    enum_shapes!(write_full, [tokio1::AsyncWrite], TFull);
    enum_shapes!(seek, [tokio1::AsyncSeek], TFull);
    enum_shapes!(bufread, [tokio1::AsyncBufRead, tokio1::AsyncRead], TFull);
    enum_shapes!(all, [tokio1::AsyncSeek, tokio1::AsyncRead, tokio1::AsyncWrite, tokio1::AsyncBufRead], TFull);

    fn read_op<T: AsyncRead>(t: Pin<&mut T>) {
        let w = choose(4);
        let mut space = vec![std::mem::MaybeUninit::new(0xEEu8); choose(12)];
        let uninit = flip();
        let pre = choose(space.len() + 1);
        let mut plain = vec![0xEEu8; space.len()];
        let mut b = if uninit { ReadBuf::uninit(&mut space) } else { ReadBuf::new(&mut plain) };
        b.put_slice(&vec![7u8; pre]);
        let r = waker::poll_with(w, |cx| t.poll_read(cx, &mut b));
        ev!("poll_read -> {} {:?} init {}", show_poll(&r), b.filled(), b.initialized().len());
    }
    fn bufread_op<T: AsyncBufRead>(mut t: Pin<&mut T>) {
        let w = choose(4);
        let n = waker::poll_with(w, |cx| {
            let r = t.as_mut().poll_fill_buf(cx).map_ok(|b| b.to_vec());
            ev!("poll_fill_buf -> {}", show_poll(&r));
            match r { Poll::Ready(Ok(b)) => b.len(), _ => 0 }
        });
        let k = choose(n + 1);
        t.consume(k);
    }
    fn write_op<T: AsyncWrite>(t: Pin<&mut T>) {
        let w = choose(4);
        let tag = (choose(20) + 65) as u8;
        match choose(5) {
            0 => {
                let b = vec![tag; choose(7)];
                let r = waker::poll_with(w, |cx| AsyncWrite::poll_write(t, cx, &b));
                ev!("poll_write -> {}", show_poll(&r));
            }
            1 => {
                let bs: Vec<Vec<u8>> = (0..choose(4)).map(|i| vec![tag + i as u8; choose(4)]).collect();
                let sl: Vec<IoSlice<'_>> = bs.iter().map(|b| IoSlice::new(b)).collect();
                let r = waker::poll_with(w, |cx| t.poll_write_vectored(cx, &sl));
                ev!("poll_write_vectored -> {}", show_poll(&r));
            }
            2 => {
                let r = waker::poll_with(w, |cx| AsyncWrite::poll_flush(t, cx));
                ev!("poll_flush -> {}", show_poll(&r));
            }
            3 => ev!("is_write_vectored -> {}", t.is_write_vectored()),
            _ => {
                let r = waker::poll_with(w, |cx| t.poll_shutdown(cx));
                ev!("poll_shutdown -> {}", show_poll(&r));
            }
        }
    }
    fn seek_op<T: AsyncSeek>(t: Pin<&mut T>) {
        let w = choose(4);
        if flip() {
            let p = any_seek();
            let r = t.start_seek(p);
            ev!("start_seek({p:?}) -> {}", show(&r));
        } else {
            let r = waker::poll_with(w, |cx| t.poll_complete(cx));
            ev!("poll_complete -> {}", show_poll(&r));
        }
    }
    fn drive_read<T: AsyncRead>(t: T) { history(t, |t| read_op(t)) }
    fn drive_bufread<T: AsyncBufRead + AsyncRead>(t: T) { history(t, |t| if flip() { read_op(t) } else { bufread_op(t) }) }
    fn drive_write<T: AsyncWrite>(t: T) { history(t, |t| write_op(t)) }
    fn drive_seek<T: AsyncSeek>(t: T) { history(t, |t| seek_op(t)) }
    fn drive_all<T: AsyncRead + AsyncWrite + AsyncSeek + AsyncBufRead>(t: T) {
        history(t, |t| match choose(4) { 0 => read_op(t), 1 => bufread_op(t), 2 => write_op(t), _ => seek_op(t) })
    }
    pub fn s_read() { drive_shapes!(read, TFull, drive_read) }
    pub fn s_write_min() { drive_shapes!(write_min, TMin, drive_write) }
    pub fn s_write_full() { drive_shapes!(write_full, TFull, drive_write) }
    pub fn s_seek() { drive_shapes!(seek, TFull, drive_seek) }
    pub fn s_bufread() { drive_shapes!(bufread, TFull, drive_bufread) }
    pub fn s_all() { drive_shapes!(all, TFull, drive_all) }

    #[auto_enums::auto_enum(tokio1::AsyncRead, tokio1::AsyncWrite)]
    fn anon(v: usize) -> impl AsyncRead + AsyncWrite {
        match v { 0 => TFull::<0>::mk(), 1 if v == 1 => TMin::<1>::mk(), _ => TFull::<2>::mk() }
    }
    fn drive_rw<T: AsyncRead + AsyncWrite>(t: T) { history(t, |t| if flip() { read_op(t) } else { write_op(t) }) }
    pub fn s_anon() {
        let v = choose(3);
        if is_ref() {
            match v { 0 => drive_rw(TFull::<0>::mk()), 1 => drive_rw(TMin::<1>::mk()), _ => drive_rw(TFull::<2>::mk()) }
        } else {
            drive_rw(anon(v))
        }
    }
}

fn history<T>(t: T, op: impl Fn(Pin<&mut T>)) {
    let mut t = Box::pin(t);
    for i in 0..range(1, 10) {
        catch(&format!("op {i}"), || op(t.as_mut()));
    }
    ev!("drop device");
    drop(t);
}

fn main() {
    main_with(&[
        Scenario { name: "futures03 read min", run: f03::s_read_min, weight: 1 },
        Scenario { name: "futures03 read full", run: f03::s_read_full, weight: 1 },
        Scenario { name: "futures03 write min", run: f03::s_write_min, weight: 1 },
        Scenario { name: "futures03 write full", run: f03::s_write_full, weight: 1 },
        Scenario { name: "futures03 seek", run: f03::s_seek, weight: 1 },
        Scenario { name: "futures03 bufread", run: f03::s_bufread, weight: 1 },
        Scenario { name: "futures03 all", run: f03::s_all, weight: 2 },
        Scenario { name: "futures03 anonymous", run: f03::s_anon, weight: 1 },
        Scenario { name: "tokio1 read", run: t1::s_read, weight: 1 },
        Scenario { name: "tokio1 write min", run: t1::s_write_min, weight: 1 },
        Scenario { name: "tokio1 write full", run: t1::s_write_full, weight: 1 },
        Scenario { name: "tokio1 seek", run: t1::s_seek, weight: 1 },
        Scenario { name: "tokio1 bufread", run: t1::s_bufread, weight: 1 },
        Scenario { name: "tokio1 all", run: t1::s_all, weight: 2 },
        Scenario { name: "tokio1 anonymous", run: t1::s_anon, weight: 1 },
    ]);
}
