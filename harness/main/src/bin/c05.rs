//! C05: pinned values stay where they are; Unpin exactly when every field is.
#![feature(coroutine_trait)]
#![allow(clippy::all)]
use simcore::*;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};

type PIo<T> = Poll<io::Result<T>>;

macro_rules! imp {
    ([$($g:tt)*] $T:ty) => {
        impl<$($g)*> $T {
            #[allow(dead_code)]
            fn t(self: Pin<&mut Self>, what: &str) -> bool { unsafe { self.get_unchecked_mut() }.0.touch(what) }
        }
        impl<$($g)*> Future for $T {
            type Output = u8;
            fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u8> { if self.t("poll") { Poll::Pending } else { Poll::Ready(1) } }
        }
        impl<$($g)*> futures::Stream for $T {
            type Item = u8;
            fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<u8>> { if self.t("poll_next") { Poll::Pending } else { Poll::Ready(Some(1)) } }
        }
        impl<$($g)*> futures::Sink<u8> for $T {
            type Error = ();
            fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> { if self.t("poll_ready") { Poll::Pending } else { Poll::Ready(Ok(())) } }
            fn start_send(self: Pin<&mut Self>, _: u8) -> Result<(), ()> { self.t("start_send"); Ok(()) }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> { if self.t("poll_flush") { Poll::Pending } else { Poll::Ready(Ok(())) } }
            fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> { if self.t("poll_close") { Poll::Pending } else { Poll::Ready(Ok(())) } }
        }
        impl<$($g)*> futures::io::AsyncRead for $T {
            fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> PIo<usize> { if self.t("poll_read") { Poll::Pending } else { Poll::Ready(Ok(b.len())) } }
        }
        impl<$($g)*> futures::io::AsyncBufRead for $T {
            fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> PIo<&[u8]> { if self.t("poll_fill_buf") { Poll::Pending } else { Poll::Ready(Ok(b"x")) } }
            fn consume(self: Pin<&mut Self>, _: usize) { self.t("consume"); }
        }
        impl<$($g)*> futures::io::AsyncWrite for $T {
            fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> PIo<usize> { if self.t("poll_write") { Poll::Pending } else { Poll::Ready(Ok(b.len())) } }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> PIo<()> { if self.t("poll_flush") { Poll::Pending } else { Poll::Ready(Ok(())) } }
            fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> PIo<()> { if self.t("poll_close") { Poll::Pending } else { Poll::Ready(Ok(())) } }
        }
        impl<$($g)*> futures::io::AsyncSeek for $T {
            fn poll_seek(self: Pin<&mut Self>, _: &mut Context<'_>, _: io::SeekFrom) -> PIo<u64> { if self.t("poll_seek") { Poll::Pending } else { Poll::Ready(Ok(3)) } }
        }
        impl<$($g)*> tokio::io::AsyncRead for $T {
            fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut tokio::io::ReadBuf<'_>) -> PIo<()> { if self.t("poll_read") { Poll::Pending } else { Poll::Ready(Ok(())) } }
        }
        impl<$($g)*> tokio::io::AsyncBufRead for $T {
            fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> PIo<&[u8]> { if self.t("poll_fill_buf") { Poll::Pending } else { Poll::Ready(Ok(b"x")) } }
            fn consume(self: Pin<&mut Self>, _: usize) { self.t("consume"); }
        }
        impl<$($g)*> tokio::io::AsyncWrite for $T {
            fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> PIo<usize> { if self.t("poll_write") { Poll::Pending } else { Poll::Ready(Ok(b.len())) } }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> PIo<()> { if self.t("poll_flush") { Poll::Pending } else { Poll::Ready(Ok(())) } }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> PIo<()> { if self.t("poll_shutdown") { Poll::Pending } else { Poll::Ready(Ok(())) } }
            fn poll_write_vectored(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[io::IoSlice<'_>]) -> PIo<usize> { if self.t("poll_write_vectored") { Poll::Pending } else { Poll::Ready(Ok(b.len())) } }
        }
        impl<$($g)*> tokio::io::AsyncSeek for $T {
            fn start_seek(self: Pin<&mut Self>, _: io::SeekFrom) -> io::Result<()> { self.t("start_seek"); Ok(()) }
            fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> PIo<u64> { if self.t("poll_complete") { Poll::Pending } else { Poll::Ready(Ok(3)) } }
        }
        impl<$($g)*> http_body::Body for $T {
            type Data = &'static [u8];
            type Error = ();
            fn poll_frame(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Result<http_body::Frame<&'static [u8]>, ()>>> { if self.t("poll_frame") { Poll::Pending } else { Poll::Ready(None) } }
        }
        impl<$($g)*> std::ops::Coroutine<u8> for $T {
            type Yield = u8;
            type Return = u8;
            fn resume(self: Pin<&mut Self>, arg: u8) -> std::ops::CoroutineState<u8, u8> { if self.t("resume") { std::ops::CoroutineState::Yielded(arg) } else { std::ops::CoroutineState::Complete(arg) } }
        }
    };
}
pin_devices!(imp);

fn p<R: std::fmt::Debug>(f: impl FnOnce(&mut Context<'_>) -> R) {
    let r = waker::poll_with(choose(3), f);
    ev!("-> {r:?}");
}
fn op_future<T: Future<Output = u8>>(t: Pin<&mut T>) { p(|cx| t.poll(cx)) }
fn op_stream<T: futures::Stream<Item = u8>>(t: Pin<&mut T>) { p(|cx| t.poll_next(cx)) }
fn op_sink<T: futures::Sink<u8, Error = ()>>(t: Pin<&mut T>) {
    match choose(4) { 0 => p(|cx| t.poll_ready(cx)), 1 => ev!("{:?}", t.start_send(1)), 2 => p(|cx| t.poll_flush(cx)), _ => p(|cx| t.poll_close(cx)) }
}
fn op_fread<T: futures::io::AsyncRead>(t: Pin<&mut T>) {
    match choose(2) { 0 => p(|cx| t.poll_read(cx, &mut [0; 3])), _ => p(|cx| t.poll_read_vectored(cx, &mut [io::IoSliceMut::new(&mut [0; 2])])) }
}
fn op_fbuf<T: futures::io::AsyncBufRead>(t: Pin<&mut T>) {
    match choose(2) { 0 => p(|cx| t.poll_fill_buf(cx).map_ok(|b| b.len())), _ => t.consume(1) }
}
fn op_fwrite<T: futures::io::AsyncWrite>(t: Pin<&mut T>) {
    match choose(4) { 0 => p(|cx| t.poll_write(cx, b"abc")), 1 => p(|cx| t.poll_flush(cx)), 2 => p(|cx| t.poll_close(cx)), _ => p(|cx| t.poll_write_vectored(cx, &[io::IoSlice::new(b"ab")])) }
}
fn op_fseek<T: futures::io::AsyncSeek>(t: Pin<&mut T>) { p(|cx| t.poll_seek(cx, io::SeekFrom::Start(1))) }
fn op_tread<T: tokio::io::AsyncRead>(t: Pin<&mut T>) { p(|cx| t.poll_read(cx, &mut tokio::io::ReadBuf::new(&mut [0; 3]))) }
fn op_tbuf<T: tokio::io::AsyncBufRead>(t: Pin<&mut T>) {
    match choose(2) { 0 => p(|cx| t.poll_fill_buf(cx).map_ok(|b| b.len())), _ => t.consume(1) }
}
fn op_twrite<T: tokio::io::AsyncWrite>(t: Pin<&mut T>) {
    match choose(4) { 0 => p(|cx| t.poll_write(cx, b"abc")), 1 => p(|cx| t.poll_flush(cx)), 2 => p(|cx| t.poll_shutdown(cx)), _ => p(|cx| t.poll_write_vectored(cx, &[io::IoSlice::new(b"ab")])) }
}
fn op_tseek<T: tokio::io::AsyncSeek>(t: Pin<&mut T>) {
    match choose(2) { 0 => ev!("{:?}", t.start_seek(io::SeekFrom::Start(1)).is_ok()), _ => p(|cx| t.poll_complete(cx)) }
}
fn op_body<T: http_body::Body>(t: Pin<&mut T>) { p(|cx| t.poll_frame(cx).map(|x| x.is_some())) }
fn op_cor<T: std::ops::Coroutine<u8, Yield = u8, Return = u8>>(t: Pin<&mut T>) { let a = choose(5) as u8; ev!("{:?}", t.resume(a)) }
fn op_all<T: Future<Output = u8> + futures::Stream<Item = u8> + futures::io::AsyncRead + tokio::io::AsyncWrite>(t: Pin<&mut T>) {
    match choose(4) { 0 => op_future(t), 1 => op_stream(t), 2 => op_fread(t), _ => op_twrite(t) }
}

macro_rules! shapes {
    ($m:ident, [$($d:tt)*], $op:ident, $($b:tt)*) => {
        pin_shapes!($m, [$($d)*], $op, {
            #[auto_enums::auto_enum($($d)*)]
            fn anon(b: bool) -> impl $($b)* { if b { D::mk() } else { L::mk() } }
            #[auto_enums::auto_enum($($d)*)]
            fn anon2(b: bool) -> impl $($b)* { if b { L::mk() } else { L::mk() } }
        });
    };
}
shapes!(future, [Future], op_future, Future<Output = u8>);
shapes!(stream, [futures03::Stream], op_stream, futures::Stream<Item = u8>);
shapes!(sink, [futures03::Sink], op_sink, futures::Sink<u8, Error = ()>);
shapes!(fread, [futures03::AsyncRead], op_fread, futures::io::AsyncRead);
shapes!(fbuf, [futures03::AsyncRead, futures03::AsyncBufRead], op_fbuf, futures::io::AsyncBufRead);
shapes!(fwrite, [futures03::AsyncWrite], op_fwrite, futures::io::AsyncWrite);
shapes!(fseek, [futures03::AsyncSeek], op_fseek, futures::io::AsyncSeek);
shapes!(tread, [tokio1::AsyncRead], op_tread, tokio::io::AsyncRead);
shapes!(tbuf, [tokio1::AsyncRead, tokio1::AsyncBufRead], op_tbuf, tokio::io::AsyncBufRead);
shapes!(twrite, [tokio1::AsyncWrite], op_twrite, tokio::io::AsyncWrite);
shapes!(tseek, [tokio1::AsyncSeek], op_tseek, tokio::io::AsyncSeek);
shapes!(body, [http_body1::Body], op_body, http_body::Body<Data = &'static [u8], Error = ()>);
shapes!(cor, [Coroutine], op_cor, std::ops::Coroutine<u8, Yield = u8, Return = u8>);
shapes!(all, [Future, futures03::Stream, futures03::AsyncRead, tokio1::AsyncWrite], op_all,
    Future<Output = u8> + futures::Stream<Item = u8> + futures::io::AsyncRead + tokio::io::AsyncWrite);

fn main() {
    main_with(&[
        Scenario { name: "Future", run: future::run, weight: 1 },
        Scenario { name: "futures Stream", run: stream::run, weight: 1 },
        Scenario { name: "futures Sink", run: sink::run, weight: 1 },
        Scenario { name: "futures AsyncRead", run: fread::run, weight: 1 },
        Scenario { name: "futures AsyncBufRead", run: fbuf::run, weight: 1 },
        Scenario { name: "futures AsyncWrite", run: fwrite::run, weight: 1 },
        Scenario { name: "futures AsyncSeek", run: fseek::run, weight: 1 },
        Scenario { name: "tokio AsyncRead", run: tread::run, weight: 1 },
        Scenario { name: "tokio AsyncBufRead", run: tbuf::run, weight: 1 },
        Scenario { name: "tokio AsyncWrite", run: twrite::run, weight: 1 },
        Scenario { name: "tokio AsyncSeek", run: tseek::run, weight: 1 },
        Scenario { name: "Body", run: body::run, weight: 1 },
        Scenario { name: "Coroutine", run: cor::run, weight: 1 },
        Scenario { name: "several pinned traits", run: all::run, weight: 1 },
    ]);
}
