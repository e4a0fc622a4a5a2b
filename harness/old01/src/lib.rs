//! Task contexts of futures 0.1 under simulator control.
use futures::executor::{Notify, NotifyHandle, Spawn};
use simcore::*;
use std::sync::Arc;

struct Notifier;
impl Notify for Notifier {
    fn notify(&self, id: usize) {
        ev!("notify n{id}");
    }
}
pub fn handle() -> NotifyHandle {
    Arc::new(Notifier).into()
}
/// Runs `f` inside a task whose wake-ups are logged with `id`.
pub fn in_task<R>(id: usize, f: impl FnOnce() -> R) -> R {
    tick();
    struct F<G>(Option<G>);
    impl<R, G: FnOnce() -> R> futures::Future for F<G> {
        type Item = R;
        type Error = ();
        fn poll(&mut self) -> futures::Poll<R, ()> {
            Ok(futures::Async::Ready((self.0.take().unwrap())()))
        }
    }
    let mut s: Spawn<F<_>> = futures::executor::spawn(F(Some(f)));
    match s.poll_future_notify(&handle(), id) {
        Ok(futures::Async::Ready(r)) => r,
        _ => unreachable!(),
    }
}
/// A simulated source: stores the task when not ready and notifies it later.
#[derive(Default)]
pub struct Parked(Vec<futures::task::Task>);
impl Parked {
    pub fn park(&mut self) {
        let t = futures::task::current();
        if fault("self-wake") {
            t.notify();
        } else {
            self.0.push(t);
        }
    }
    pub fn wake(&mut self) {
        for t in self.0.drain(..) {
            t.notify();
        }
    }
}
