//! Seeded single-threaded executor with simulated time: the scheduler picks which
//! ready task runs next, delays wakes, injects spurious wakes and cancels tasks.
use crate::{advance_clock, choose, count_fault, ev, fault, now, tick, waker, with};
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;

pub struct Task {
    pub name: String,
    pub fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    pub ready: bool,
    pub polls: u64,
    pub cancellable: bool,
}

/// Events that fire at a simulated time.
type Timer = (u64, u64, Box<dyn FnOnce()>);

#[derive(Default)]
pub struct Exec {
    pub tasks: Vec<Task>,
    pub seq: u64,
    pub deadlocked: bool,
}

thread_local! {
    static TIMERS: std::cell::RefCell<(u64, Vec<Timer>)> = const { std::cell::RefCell::new((0, Vec::new())) };
}

/// Schedules `f` to run at now + delay.
pub fn after(delay: u64, f: Box<dyn FnOnce()>) {
    TIMERS.with(|t| {
        let mut t = t.borrow_mut();
        t.0 += 1;
        let seq = t.0;
        t.1.push((now() + delay, seq, f));
    });
}
pub fn reset_timers() {
    let old = TIMERS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    drop(old);
}
fn next_timer() -> Option<Timer> {
    TIMERS.with(|t| {
        let mut t = t.borrow_mut();
        let i = (0..t.1.len()).min_by_key(|&i| (t.1[i].0, t.1[i].1))?;
        Some(t.1.remove(i))
    })
}
fn due_timer() -> Option<Timer> {
    TIMERS.with(|t| {
        let mut t = t.borrow_mut();
        let n = now();
        let i = (0..t.1.len()).filter(|&i| t.1[i].0 <= n).min_by_key(|&i| (t.1[i].0, t.1[i].1))?;
        Some(t.1.remove(i))
    })
}

impl Exec {
    pub fn new() -> Exec {
        reset_timers();
        Exec::default()
    }
    pub fn spawn(&mut self, name: impl Into<String>, cancellable: bool, fut: Pin<Box<dyn Future<Output = ()>>>) -> usize {
        self.tasks.push(Task { name: name.into(), fut: Some(fut), ready: true, polls: 0, cancellable });
        self.tasks.len() - 1
    }
    fn absorb_wakes(&mut self) {
        let w = with(|s| std::mem::take(&mut s.wakes));
        for id in w {
            if fault("late-wake") {
                let d = 1 + choose(20) as u64;
                after(d, Box::new(move || with(|s| s.wakes.push(id | (1 << 40)))));
                continue;
            }
            let id = id & ((1 << 40) - 1);
            if let Some(t) = self.tasks.get_mut(id) {
                t.ready = true;
            }
        }
    }
    /// Runs until all tasks finished or nothing can make progress (deadlock) .
    /// `quiesce_after`: number of scheduling steps after which faults stop.
    pub fn run(&mut self, quiesce_after: u64) {
        let mut steps = 0u64;
        loop {
            tick();
            steps += 1;
            if steps == quiesce_after {
                crate::clear_rates();
                ev!("faults stop");
            }
            while let Some((_, _, f)) = due_timer() {
                f();
            }
            // delayed wakes carry a marker so that they are not delayed twice
            let w = with(|s| std::mem::take(&mut s.wakes));
            let (delayed, fresh): (Vec<_>, Vec<_>) = w.into_iter().partition(|x| x >> 40 != 0);
            for id in delayed {
                let id = id & ((1 << 40) - 1);
                if let Some(t) = self.tasks.get_mut(id) {
                    t.ready = true;
                }
            }
            with(|s| s.wakes = fresh);
            self.absorb_wakes();
            let live: Vec<usize> = (0..self.tasks.len()).filter(|&i| self.tasks[i].fut.is_some()).collect();
            if live.is_empty() {
                return;
            }
            let mut ready: Vec<usize> = live.iter().copied().filter(|&i| self.tasks[i].ready).collect();
            if ready.is_empty() {
                if let Some((at, _, f)) = next_timer() {
                    let n = now();
                    if at > n {
                        advance_clock(at - n);
                    }
                    f();
                    continue;
                }
                self.deadlocked = true;
                ev!("deadlock: {:?}", live.iter().map(|&i| self.tasks[i].name.clone()).collect::<Vec<_>>());
                return;
            }
            if fault("cancel") {
                let c: Vec<usize> = live.iter().copied().filter(|&i| self.tasks[i].cancellable).collect();
                if !c.is_empty() {
                    let i = c[choose(c.len())];
                    ev!("cancel {}", self.tasks[i].name);
                    self.tasks[i].fut = None;
                    continue;
                }
            }
            if fault("spurious-wake") {
                let i = live[choose(live.len())];
                ready = vec![i];
            }
            let i = ready[choose(ready.len())];
            self.seq += 1;
            let name = self.tasks[i].name.clone();
            ev!("run {name}");
            let t = &mut self.tasks[i];
            t.ready = false;
            t.polls += 1;
            let mut fut = t.fut.take().unwrap();
            let w = waker::waker(i);
            let mut cx = std::task::Context::from_waker(&w);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
            match r {
                Ok(Poll::Pending) => self.tasks[i].fut = Some(fut),
                Ok(Poll::Ready(())) => {
                    ev!("{name} finished");
                    drop(fut);
                }
                Err(p) => {
                    if p.is::<crate::BudgetExceeded>() {
                        std::panic::resume_unwind(p);
                    }
                    ev!("{name} panicked: {}", crate::payload_str(&*p));
                    drop(fut);
                }
            }
        }
    }
    pub fn cancel_all(&mut self) {
        for i in 0..self.tasks.len() {
            if self.tasks[i].fut.is_some() {
                ev!("drop task {}", self.tasks[i].name);
                self.tasks[i].fut = None;
            }
        }
        reset_timers();
        with(|s| s.wakes.clear());
    }
}

pub fn count(kind: &'static str) {
    count_fault(kind)
}
