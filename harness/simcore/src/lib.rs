//! Deterministic simulation core.
//!
//! One run = one sequence of bounded choices.  The choices come either from a seeded PRNG
//! (search) or from a list (replay / minimisation).  Nothing else that can vary is read:
//! no clock, no address, no hash order, no thread.
//!
//! Every scenario is executed twice from the same choices: `Side::Ref` uses the inner
//! values directly, `Side::Enum` uses the generated enum / annotated program.  The event logs have to be
//! identical and the model invariants have to hold on both sides.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub mod alloc;
pub mod exec;
pub mod io;
pub mod pinning;
pub mod runner;
pub mod shapes;
pub mod waker;
pub use runner::{main_with, Scenario};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Side {
    Ref,
    Enum,
}

// ---------------------------------------------------------------- PRNG

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = h;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}
pub const FNV0: u64 = 0xcbf2_9ce4_8422_2325;

enum Source {
    Rng(u64),
    List(Vec<u32>, usize),
}

/// Payload of a panic injected by the simulator.
#[derive(Debug)]
pub struct SimPanic(pub String);
/// Payload used when a run exceeds its step budget (livelock).
pub struct BudgetExceeded;

pub struct Sim {
    pub side: Side,
    source: Source,
    recorded: Vec<(u32, u32)>,
    pub log: String,
    pub events: u64,
    pub budget: u64,
    pub steps: u64,
    pub clock: u64,
    pub violations: Vec<(String, String)>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<String, u64>,
    rates: BTreeMap<&'static str, u32>,
    /// token ledger: state of every tracked value (1 = live, 2 = dropped)
    pub tokens: Vec<(u8, &'static str)>,
    pub wakes: Vec<usize>,
    pub waker_live: i64,
    pub quiet: bool,
    pub panics_left: u32,
    pub(crate) allocs: Vec<alloc::Place>,
    pub(crate) expected_allocs: Vec<alloc::Place>,
}

impl Sim {
    fn new(side: Side, source: Source) -> Sim {
        Sim {
            side,
            source,
            recorded: Vec::new(),
            log: String::with_capacity(4096),
            events: 0,
            budget: 20_000,
            steps: 0,
            clock: 0,
            violations: Vec::new(),
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            rates: BTreeMap::new(),
            tokens: Vec::new(),
            wakes: Vec::new(),
            waker_live: 0,
            quiet: false,
            panics_left: 1,
            allocs: Vec::new(),
            expected_allocs: Vec::new(),
        }
    }
}

thread_local! {
    static SIM: RefCell<Option<Sim>> = const { RefCell::new(None) };
    pub static IN_HARNESS: Cell<u32> = const { Cell::new(0) };
}

pub struct HarnessGuard;
impl Drop for HarnessGuard {
    fn drop(&mut self) {
        IN_HARNESS.with(|c| c.set(c.get() - 1));
    }
}
pub fn harness() -> HarnessGuard {
    IN_HARNESS.with(|c| c.set(c.get() + 1));
    HarnessGuard
}

pub fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    let _g = harness();
    SIM.with(|s| f(s.borrow_mut().as_mut().expect("no simulation running")))
}

/// whether a run is on (its values can outlive it when a drop panics)
pub fn running() -> bool {
    SIM.try_with(|s| s.try_borrow().map(|s| s.is_some()).unwrap_or(false)).unwrap_or(false)
}
pub fn side() -> Side {
    with(|s| s.side)
}
pub fn is_ref() -> bool {
    side() == Side::Ref
}

/// A bounded choice in `0..n`; by convention 0 is the benign / smallest option.
pub fn choose(n: usize) -> usize {
    assert!(n > 0);
    with(|s| {
        let n32 = n as u32;
        let v = match &mut s.source {
            Source::Rng(st) => (splitmix(st) % n32 as u64) as u32,
            Source::List(l, i) => {
                let v = l.get(*i).copied().unwrap_or(0);
                *i += 1;
                if v < n32 { v } else { v % n32 }
            }
        };
        s.recorded.push((v, n32));
        v as usize
    })
}

/// inclusive range
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choose(hi - lo + 1)
}
pub fn flip() -> bool {
    choose(2) == 1
}
/// true with probability num/den (0 = false)
pub fn chance(num: usize, den: usize) -> bool {
    choose(den) >= den - num
}
pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[choose(xs.len())].clone()
}
pub fn weighted(ws: &[u32]) -> usize {
    let total: u32 = ws.iter().sum();
    let mut v = choose(total as usize) as u32;
    for (i, w) in ws.iter().enumerate() {
        if v < *w {
            return i;
        }
        v -= *w;
    }
    0
}

/// Swarm configuration: draws a rate (per 256) for each fault kind for this run.
pub fn swarm(kinds: &[&'static str]) {
    for k in kinds {
        let r = [0u32, 0, 6, 20, 50, 100][choose(6)];
        with(|s| {
            s.rates.insert(k, r);
        });
    }
}
pub fn set_rate(kind: &'static str, r: u32) {
    with(|s| {
        s.rates.insert(kind, r);
    });
}
pub fn clear_rates() {
    with(|s| s.rates.clear());
}
/// Injects fault `kind` with the rate of this run; counts it when it fires.
pub fn fault(kind: &'static str) -> bool {
    let r = with(|s| s.rates.get(kind).copied().unwrap_or(0));
    if r == 0 {
        return false;
    }
    let fired = choose(256) >= 256 - r as usize;
    if fired {
        count_fault(kind);
    }
    fired
}
pub fn count_fault(kind: &'static str) {
    with(|s| *s.faults.entry(kind).or_default() += 1);
}
/// how often the fault kind fired in this run so far
pub fn fault_count(kind: &'static str) -> u64 {
    with(|s| s.faults.get(kind).copied().unwrap_or(0))
}
pub fn probe(name: &str) {
    with(|s| {
        if let Some(x) = s.probes.get_mut(name) {
            *x += 1;
        } else {
            s.probes.insert(name.to_string(), 1);
        }
    });
}

pub fn log(ev: &str) {
    with(|s| {
        if s.quiet {
            return;
        }
        s.events += 1;
        s.log.push_str(ev);
        s.log.push('\n');
    });
}
pub fn logf(args: std::fmt::Arguments<'_>) {
    let _g = harness();
    // format first: the arguments' Display impls may use the simulator
    let text = {
        let mut t = String::new();
        let _ = t.write_fmt(args);
        t
    };
    log(&text);
}
#[macro_export]
macro_rules! ev {
    ($($t:tt)*) => { $crate::logf(format_args!($($t)*)) };
}

/// Records a violation of a model invariant.
pub fn violate(class: &str, msg: String) {
    with(|s| s.violations.push((class.to_string(), msg)));
}
#[macro_export]
macro_rules! invariant {
    ($c:expr, $class:expr, $($t:tt)*) => {
        if !$c { $crate::violate($class, format!($($t)*)); }
    };
}

/// One simulated step; aborts the run (panic) when the step budget is exhausted.
pub fn tick() {
    let over = with(|s| {
        s.steps += 1;
        s.clock += 1;
        s.steps > s.budget
    });
    if over && !std::thread::panicking() {
        std::panic::panic_any(BudgetExceeded);
    }
}
pub fn set_budget(n: u64) {
    with(|s| s.budget = n);
}
pub fn advance_clock(d: u64) {
    with(|s| s.clock += d);
}
pub fn now() -> u64 {
    with(|s| s.clock)
}

/// Injects a panic (fault kind "panic") at this point, at most `panics_left` times per run.
pub fn maybe_panic(place: &str) {
    if std::thread::panicking() || with(|s| s.panics_left == 0) {
        return;
    }
    if fault("panic") {
        with(|s| s.panics_left -= 1);
        ev!("inject panic at {place}");
        // the panic itself needs memory
        alloc::infallible();
        std::panic::panic_any(SimPanic(place.to_string()));
    }
}

pub fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<SimPanic>() {
        format!("sim:{}", s.0)
    } else if p.is::<BudgetExceeded>() {
        "budget-exceeded".to_string()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        format!("msg:{s}")
    } else if let Some(s) = p.downcast_ref::<String>() {
        format!("msg:{s}")
    } else {
        "other".to_string()
    }
}

/// Runs `f`, logging and swallowing a panic (so that a history can go on after it).
/// A budget exhaustion is passed on.
pub fn catch<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(p) => {
            if p.is::<BudgetExceeded>() {
                std::panic::resume_unwind(p);
            }
            ev!("{what} panicked: {}", payload_str(&*p));
            None
        }
    }
}

// ---------------------------------------------------------------- ownership ledger

/// A tracked value: must be dropped exactly once; logs its drop.
pub struct Token {
    pub id: usize,
    alive: u64,
}
const ALIVE: u64 = 0x5EED_A11C_E0DE_0001;

impl Token {
    pub fn new(kind: &'static str) -> Token {
        let id = with(|s| {
            s.tokens.push((1, kind));
            s.tokens.len() - 1
        });
        Token { id, alive: ALIVE }
    }
    pub fn check(&self) {
        if self.alive != ALIVE {
            violate("use-of-dead-value", format!("token {} used while not alive", self.id));
        }
    }
}
impl std::fmt::Debug for Token {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.check();
        write!(f, "T{}", self.id)
    }
}
impl PartialEq for Token {
    fn eq(&self, o: &Token) -> bool {
        self.id == o.id
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        if !running() {
            return;
        }
        if self.alive != ALIVE {
            violate("double-drop", format!("token memory {} dropped while not alive", self.id));
            return;
        }
        self.alive = 0xDEAD;
        let id = self.id;
        let (st, kind) = with(|s| {
            let e = &mut s.tokens[id];
            let r = *e;
            e.0 = 2;
            r
        });
        if st == 2 {
            violate("double-drop", format!("token {id} ({kind}) dropped twice"));
        }
        ev!("drop {kind} T{id}");
        if options().drop_panic && !std::thread::panicking() && with(|s| s.panics_left > 0) && fault("drop-panic") {
            with(|s| s.panics_left -= 1);
            ev!("inject panic at drop of T{id}");
            std::panic::panic_any(SimPanic("drop".into()));
        }
    }
}

// ---------------------------------------------------------------- address stability

/// Logs a violation when it is observed at two different addresses after `pin`.
#[derive(Default)]
pub struct AddrProbe {
    at: Cell<usize>,
    pub name: &'static str,
}
impl AddrProbe {
    pub const fn new(name: &'static str) -> Self {
        AddrProbe { at: Cell::new(0), name }
    }
    /// Called from a method which receives `Pin<&mut Self>`: from now on the value is pinned.
    pub fn pinned(&self) {
        let here = self as *const Self as usize;
        if self.at.get() == 0 {
            self.at.set(here);
        } else if self.at.get() != here {
            violate("moved-while-pinned", format!("{} moved after it had been pinned", self.name));
            self.at.set(here);
        }
    }
    pub fn is_pinned(&self) -> bool {
        self.at.get() != 0
    }
    /// call from Drop: a pinned value has to be dropped in place
    pub fn dropped(&self) {
        let here = self as *const Self as usize;
        if self.at.get() != 0 && self.at.get() != here {
            violate("moved-while-pinned", format!("{} moved before it was dropped", self.name));
        }
    }
}

// ---------------------------------------------------------------- single run

/// What a search does besides what the scenario asks for.
#[derive(Clone, Copy, Default)]
pub struct Options {
    /// values may panic when dropped (fault kind "drop-panic")
    pub drop_panic: bool,
    /// both sides have to allocate at the same places
    pub alloc: bool,
    /// on the generated side all other allocations fail
    pub alloc_limit: bool,
}
thread_local! {
    static OPTIONS: Cell<Options> = const { Cell::new(Options { drop_panic: false, alloc: false, alloc_limit: false }) };
}
pub fn options() -> Options {
    OPTIONS.with(|o| o.get())
}
pub fn set_options(o: Options) {
    OPTIONS.with(|x| x.set(o))
}

pub struct Outcome {
    pub log: String,
    pub violations: Vec<(String, String)>,
    pub recorded: Vec<(u32, u32)>,
    pub events: u64,
    pub steps: u64,
    pub clock: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<String, u64>,
    pub end: String,
    allocs: Vec<alloc::Place>,
}

pub enum Choices<'a> {
    Seed(u64),
    List(&'a [u32]),
}

pub fn run_side(side: Side, ch: &Choices<'_>, f: fn()) -> Outcome {
    run_side_with(side, ch, f, Vec::new())
}
fn run_side_with(side: Side, ch: &Choices<'_>, f: fn(), expected_allocs: Vec<alloc::Place>) -> Outcome {
    let o = options();
    let src = match ch {
        Choices::Seed(s) => Source::Rng(*s),
        Choices::List(l) => Source::List(l.to_vec(), 0),
    };
    SIM.with(|s| *s.borrow_mut() = Some(Sim::new(side, src)));
    with(|s| s.expected_allocs = expected_allocs);
    if o.drop_panic {
        set_rate("drop-panic", [0, 4, 12, 40][choose(4)]);
    }
    alloc::arm(o.alloc, o.alloc_limit);
    let r = catch_unwind(AssertUnwindSafe(f));
    alloc::arm(false, false);
    let end = match r {
        Ok(()) => "end".to_string(),
        Err(p) => {
            let t = payload_str(&*p);
            if p.is::<BudgetExceeded>() {
                violate("no-progress", "the run does not end within its step budget".into());
            }
            // dropping the payload may touch the simulator
            drop(p);
            format!("end by panic: {t}")
        }
    };
    ev!("{end}");
    exec::reset_timers();
    let mut sim = SIM.with(|s| s.borrow_mut().take()).unwrap();
    // std leaks on purpose in some places when a drop panics: then only the logs are compared
    let may_leak = sim.faults.contains_key("drop-panic");
    for (i, (st, kind)) in sim.tokens.iter().enumerate() {
        if *st != 2 && !may_leak {
            sim.violations.push(("leak".into(), format!("token {i} ({kind}) was never dropped")));
        }
    }
    if sim.waker_live != 0 && !may_leak {
        sim.violations.push((
            "waker-leak".into(),
            format!("{} waker clones outstanding at the end of the run", sim.waker_live),
        ));
    }
    Outcome {
        log: sim.log,
        violations: sim.violations,
        recorded: sim.recorded,
        events: sim.events,
        steps: sim.steps,
        clock: sim.clock,
        faults: sim.faults,
        probes: sim.probes,
        end,
        allocs: sim.allocs,
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub struct TwinResult {
    pub violation: Option<Violation>,
    pub reference: Outcome,
    pub subject: Outcome,
    /// problem of the harness itself: reference side breaks the model
    pub harness_error: Option<String>,
}

fn first_diff(a: &str, b: &str) -> String {
    let (la, lb): (Vec<_>, Vec<_>) = (a.lines().collect(), b.lines().collect());
    let mut i = 0;
    while i < la.len() && i < lb.len() && la[i] == lb[i] {
        i += 1;
    }
    let lo = i.saturating_sub(6);
    let mut o = String::new();
    for l in &la[lo..i] {
        let _ = writeln!(o, "    {l}");
    }
    for l in la[i..].iter().take(4) {
        let _ = writeln!(o, "  expected: {l}");
    }
    for l in lb[i..].iter().take(4) {
        let _ = writeln!(o, "  observed: {l}");
    }
    if i == la.len() {
        let _ = writeln!(o, "  expected: <end of log>");
    }
    if i == lb.len() {
        let _ = writeln!(o, "  observed: <end of log>");
    }
    o
}

/// runs done by this process; see `watchdog`
static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Ends the process when a run hangs (a lock, a loop outside the step budget).
pub(crate) fn watchdog() {
    use std::sync::atomic::Ordering::SeqCst;
    std::thread::spawn(|| {
        let (mut last, mut still) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = PROGRESS.load(SeqCst);
            still = if now == last { still + 1 } else { 0 };
            last = now;
            if still >= 30 {
                eprintln!("a run hangs");
                std::process::abort();
            }
        }
    });
}

pub fn run_twin(ch: &Choices<'_>, f: fn()) -> TwinResult {
    let r = run_twin_once(ch, f);
    if matches!(&r.violation, Some(v) if v.class == "allocation") {
        // not when something was allocated once and for all
        return run_twin_once(ch, f);
    }
    r
}
fn run_twin_once(ch: &Choices<'_>, f: fn()) -> TwinResult {
    PROGRESS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let reference = run_side(Side::Ref, ch, f);
    let subject = run_side_with(Side::Enum, ch, f, reference.allocs.clone());
    let mut harness_error = None;
    if let Some((c, m)) = reference.violations.first() {
        harness_error = Some(format!("reference side violates the model: {c}: {m}"));
    }
    let mut violation = None;
    if let Some((c, m)) = subject.violations.first() {
        violation = Some(Violation { class: c.clone(), detail: m.clone() });
    } else if reference.log != subject.log {
        violation = Some(Violation {
            class: "divergence".into(),
            detail: format!(
                "generated code and inner value behave differently\n{}",
                first_diff(&reference.log, &subject.log)
            ),
        });
    } else if reference.allocs != subject.allocs {
        let n = reference.allocs.iter().zip(&subject.allocs).take_while(|(a, b)| a == b).count();
        let more = subject.allocs.len() as i64 - reference.allocs.len() as i64;
        let at = match (reference.allocs.get(n), subject.allocs.get(n)) {
            (Some(r), Some(s)) => r.0.min(s.0),
            (r, s) => r.or(s).unwrap().0,
        };
        let log: Vec<&str> = subject.log.lines().collect();
        let at = (at as usize).min(log.len());
        violation = Some(Violation {
            class: "allocation".into(),
            detail: format!(
                "generated code allocates {} times, the direct use {} times ({more:+}); first difference after\n    {}",
                subject.allocs.len(),
                reference.allocs.len(),
                log[at.saturating_sub(8)..at].join("\n    ")
            ),
        });
    }
    TwinResult { violation, reference, subject, harness_error }
}

pub(crate) type Seen = HashSet<u64>;

pub fn install_quiet_hook() {
    std::panic::set_hook(Box::new(|info| {
        // injected panics are expected; anything else is shown for diagnosis when asked for
        if std::env::var_os("SIM_VERBOSE").is_some() {
            let _ = writeln!(std::io::stderr(), "{info}");
        }
    }));
}
