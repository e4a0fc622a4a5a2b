//! Simulated wakers: a waker is an id; waking is an event in the log and in the wake queue.
use crate::{tick, with};
use std::task::{Context, RawWaker, RawWakerVTable, Waker};

fn clone(p: *const ()) -> RawWaker {
    with(|s| s.waker_live += 1);
    if crate::alloc::armed() {
        // cloning is work of its own: both sides do it at the same places
        crate::ev!("clone waker w{}", p as usize);
    }
    RawWaker::new(p, &VTABLE)
}
fn wake(p: *const ()) {
    wake_by_ref(p);
    drop_(p);
}
fn wake_by_ref(p: *const ()) {
    let id = p as usize;
    with(|s| s.wakes.push(id));
    crate::ev!("wake w{id}");
}
fn drop_(_p: *const ()) {
    if crate::running() {
        with(|s| s.waker_live -= 1);
    }
}
static VTABLE: RawWakerVTable = RawWakerVTable::new(clone, wake, wake_by_ref, drop_);

pub fn waker(id: usize) -> Waker {
    with(|s| s.waker_live += 1);
    unsafe { Waker::from_raw(RawWaker::new(id as *const (), &VTABLE)) }
}

/// The identity of the waker in a context (usize::MAX when it is not one of the simulator's).
pub fn id_of(cx: &Context<'_>) -> usize {
    if std::ptr::eq(cx.waker().vtable(), &VTABLE) {
        cx.waker().data() as usize
    } else {
        usize::MAX
    }
}

pub fn poll_with<R>(id: usize, f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    tick();
    let w = waker(id);
    let mut cx = Context::from_waker(&w);
    f(&mut cx)
}
