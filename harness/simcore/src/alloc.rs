//! The allocator is a seam as well: it notes where in a run memory is allocated, and can fail.
//!
//! Only allocations made by the code under test count (not those of the simulator), and only while a
//! side runs with option `alloc`. A place in a run is the number of events logged and choices made
//! so far; both sides have to allocate at the same places.
use crate::*;
use std::alloc::{GlobalAlloc, Layout, System};

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static FALLIBLE: Cell<bool> = const { Cell::new(false) };
    static LIMIT: Cell<bool> = const { Cell::new(false) };
}
pub(crate) type Place = (u64, u32);

pub struct Counting;
/// false: the allocation fails
#[inline]
fn note() -> bool {
    if !ARMED.try_with(|a| a.get()).unwrap_or(false) || IN_HARNESS.with(|h| h.get()) != 0 {
        return true;
    }
    noted()
}
#[cold]
fn noted() -> bool {
    if FALLIBLE.with(|f| f.get()) && fault("alloc-fail") {
        ev!("allocation fails");
        return false;
    }
    with(|s| {
        let place = (s.events, s.recorded.len() as u32);
        s.allocs.push(place);
        if !LIMIT.with(|l| l.get()) || s.side == Side::Ref {
            return true;
        }
        // on the generated side every allocation the direct use does not make fails
        s.expected_allocs.get(s.allocs.len() - 1) == Some(&place)
    })
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if note() { System.alloc(l) } else { std::ptr::null_mut() }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if note() { System.alloc_zeroed(l) } else { std::ptr::null_mut() }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if note() { System.realloc(p, l, n) } else { std::ptr::null_mut() }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[cfg(feature = "alloc")]
#[global_allocator]
static COUNTING: Counting = Counting;

pub(crate) fn armed() -> bool {
    ARMED.with(|a| a.get())
}
pub(crate) fn arm(on: bool, limit: bool) {
    ARMED.with(|a| a.set(on));
    LIMIT.with(|l| l.set(limit));
}
/// Until the next return from `fallible`, or the next catch, allocations succeed.
pub(crate) fn infallible() {
    FALLIBLE.with(|x| x.set(false));
}
/// Within `f` allocations fail at the rate of fault kind "alloc-fail"; `f` has to cope with that.
pub fn fallible<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool, bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            FALLIBLE.with(|x| x.set(self.0));
            ARMED.with(|x| x.set(self.1));
        }
    }
    let _r = Reset(FALLIBLE.with(|x| x.replace(true)), ARMED.with(|x| x.replace(true)));
    f()
}
