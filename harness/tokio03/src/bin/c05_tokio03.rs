//! C05 for the tokio 0.3 traits: pinned values stay where they are; Unpin exactly when every field is.
#![allow(clippy::all)]
use simcore::*;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};

type PIo<T> = Poll<io::Result<T>>;

macro_rules! imp {
    ([$($g:tt)*] $T:ty) => {
        impl<$($g)*> $T {
            #[allow(dead_code)]
            fn t(self: Pin<&mut Self>, what: &str) -> bool { unsafe { self.get_unchecked_mut() }.0.touch(what) }
        }
        impl<$($g)*> tokio::io::AsyncRead for $T {
            fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> PIo<()> { let _ = &buf; if self.t("poll_read") { Poll::Pending } else { Poll::Ready(Ok(())) } }
        }
        impl<$($g)*> tokio::io::AsyncBufRead for $T {
            fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> PIo<&[u8]> { if self.t("poll_fill_buf") { Poll::Pending } else { Poll::Ready(Ok(b"x")) } }
            fn consume(self: Pin<&mut Self>, _: usize) { self.t("consume"); }
        }
        impl<$($g)*> tokio::io::AsyncWrite for $T {
            fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> PIo<usize> { if self.t("poll_write") { Poll::Pending } else { Poll::Ready(Ok(b.len())) } }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> PIo<()> { if self.t("poll_flush") { Poll::Pending } else { Poll::Ready(Ok(())) } }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> PIo<()> { if self.t("poll_shutdown") { Poll::Pending } else { Poll::Ready(Ok(())) } }
        }
        impl<$($g)*> tokio::io::AsyncSeek for $T {
            fn start_seek(self: Pin<&mut Self>, _: io::SeekFrom) -> io::Result<()> { self.t("start_seek"); Ok(()) }
            fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> PIo<u64> { if self.t("poll_complete") { Poll::Pending } else { Poll::Ready(Ok(3)) } }
        }
    };
}
pin_devices!(imp);

fn p<R: std::fmt::Debug>(f: impl FnOnce(&mut Context<'_>) -> R) {
    let r = waker::poll_with(choose(3), f);
    ev!("-> {r:?}");
}
fn op_tread<T: tokio::io::AsyncRead>(t: Pin<&mut T>) { p(|cx| t.poll_read(cx, &mut tokio::io::ReadBuf::new(&mut [0; 3]))) }
fn op_tbuf<T: tokio::io::AsyncBufRead>(t: Pin<&mut T>) {
    match choose(2) { 0 => p(|cx| t.poll_fill_buf(cx).map_ok(|b| b.len())), _ => t.consume(1) }
}
fn op_twrite<T: tokio::io::AsyncWrite>(t: Pin<&mut T>) {
    match choose(3) { 0 => p(|cx| t.poll_write(cx, b"abc")), 1 => p(|cx| t.poll_flush(cx)), _ => p(|cx| t.poll_shutdown(cx)) }
}
fn op_tseek<T: tokio::io::AsyncSeek>(t: Pin<&mut T>) {
    match choose(2) { 0 => ev!("{:?}", t.start_seek(io::SeekFrom::Start(1)).is_ok()), _ => p(|cx| t.poll_complete(cx)) }
}

macro_rules! shapes {
    ($m:ident, [$($d:tt)*], $op:ident, $($b:tt)*) => {
        pin_shapes!($m, [$($d)*], $op, {
            #[auto_enums::auto_enum($($d)*)]
            fn anon(b: bool) -> impl $($b)* { if b { D::mk() } else { L::mk() } }
            #[auto_enums::auto_enum($($d)*)]
            fn anon2(b: bool) -> impl $($b)* { if b { L::mk() } else { L::mk() } }
        });
    };
}
shapes!(tread, [tokio03::AsyncRead], op_tread, tokio::io::AsyncRead);
shapes!(tbuf, [tokio03::AsyncRead, tokio03::AsyncBufRead], op_tbuf, tokio::io::AsyncBufRead);
shapes!(twrite, [tokio03::AsyncWrite], op_twrite, tokio::io::AsyncWrite);
shapes!(tseek, [tokio03::AsyncSeek], op_tseek, tokio::io::AsyncSeek);

fn main() {
    main_with(&[
        Scenario { name: "tokio AsyncRead", run: tread::run, weight: 1 },
        Scenario { name: "tokio AsyncBufRead", run: tbuf::run, weight: 1 },
        Scenario { name: "tokio AsyncWrite", run: twrite::run, weight: 1 },
        Scenario { name: "tokio AsyncSeek", run: tseek::run, weight: 1 },
    ]);
}
