//! Command line of every scenario binary.
use crate::*;

pub struct Scenario {
    pub name: &'static str,
    pub run: fn(),
    /// relative share of the runs
    pub weight: u32,
}

struct Args {
    seed: u64,
    start: u64,
    count: u64,
    mode: String,
    scenario: Option<String>,
    choices: Vec<u32>,
    max_secs: u64,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn parse_args() -> Args {
    let mut a = Args {
        seed: 1,
        start: 0,
        count: 1,
        mode: "search".into(),
        scenario: None,
        choices: vec![],
        max_secs: 600,
    };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < v.len() {
        let val = v.get(i + 1).cloned().unwrap_or_default();
        match v[i].as_str() {
            "--seed" => a.seed = val.parse().unwrap(),
            "--start" => a.start = val.parse().unwrap(),
            "--count" => a.count = val.parse().unwrap(),
            "--mode" => a.mode = val,
            "--scenario" => a.scenario = Some(val),
            "--choices" => {
                a.choices = val.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()
            }
            "--opt" => {
                let mut o = options();
                match val.as_str() {
                    "drop-panic" => o.drop_panic = true,
                    "alloc" => o.alloc = true,
                    "alloc-limit" => (o.alloc, o.alloc_limit) = (true, true),
                    x => panic!("unknown option {x}"),
                }
                set_options(o);
            }
            "--max-secs" => a.max_secs = val.parse().unwrap(),
            x => panic!("unknown argument {x}"),
        }
        i += 2;
    }
    a
}

pub fn run_seed(seed: u64, scenario: &str, run: u64) -> u64 {
    let mut h = fnv(FNV0, scenario.as_bytes());
    h = fnv(h, &seed.to_le_bytes());
    h = fnv(h, &run.to_le_bytes());
    splitmix(&mut h)
}

fn scenario_of<'a>(scs: &'a [Scenario], run: u64) -> &'a Scenario {
    let total: u64 = scs.iter().map(|s| s.weight as u64).sum();
    let mut v = run % total;
    for s in scs {
        if v < s.weight as u64 {
            return s;
        }
        v -= s.weight as u64;
    }
    unreachable!()
}

fn same_class(v: &Option<Violation>, class: &str) -> bool {
    v.as_ref().is_some_and(|v| v.class == class)
}

/// Shrinks the choice list while a violation of the same class persists.
fn minimise(sc: &Scenario, start: Vec<u32>, class: &str, budget: usize) -> Vec<u32> {
    let mut best = start;
    let mut left = budget;
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let mut test = |c: &[u32]| -> bool {
        if left == 0 || std::time::Instant::now() > deadline {
            return false;
        }
        left -= 1;
        let r = run_twin(&Choices::List(c), sc.run);
        same_class(&r.violation, class) && r.harness_error.is_none()
    };
    // truncate the tail (zeros are implied)
    let mut lo = 0;
    let mut hi = best.len();
    while lo < hi {
        let mid = (lo + hi) / 2;
        if test(&best[..mid]) {
            hi = mid;
        } else {
            lo = mid + 1;
        }
    }
    if hi < best.len() && test(&best[..hi]) {
        best.truncate(hi);
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if test(&c) {
                    best = c;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks, then lower single values
        for i in 0..best.len() {
            if best[i] != 0 {
                let old = best[i];
                for v in [0, old / 2, old - 1] {
                    if v < best[i] {
                        let mut c = best.clone();
                        c[i] = v;
                        if test(&c) {
                            best = c;
                            break;
                        }
                    }
                }
            }
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before {
            return best;
        }
    }
}

fn violation_json(sc: &Scenario, run: u64, choices: &[u32], full_len: usize, v: &Violation, log: &str, reference: &str) -> String {
    format!(
        "{{\"type\":\"violation\",\"scenario\":{},\"run\":{},\"class\":{},\"detail\":{},\"choices\":{:?},\"unminimised_len\":{},\"log\":{},\"expected_log\":{},\"digest\":\"{:016x}\"}}",
        esc(sc.name),
        run,
        esc(&v.class),
        esc(&v.detail),
        choices,
        full_len,
        esc(log),
        esc(reference),
        fnv(fnv(FNV0, log.as_bytes()), v.class.as_bytes()),
    )
}

pub fn main_with(scs: &[Scenario]) {
    install_quiet_hook();
    let a = parse_args();
    watchdog();
    let out = std::io::stdout();
    let mut out = out.lock();
    match a.mode.as_str() {
        "list" => {
            for s in scs {
                let _ = writeln!(out, "{}", s.name);
            }
        }
        "replay" => {
            let sc = scs.iter().find(|s| Some(s.name) == a.scenario.as_deref()).expect("scenario");
            let r = run_twin(&Choices::List(&a.choices), sc.run);
            if let Some(h) = r.harness_error {
                let _ = writeln!(out, "{{\"type\":\"harness_error\",\"detail\":{}}}", esc(&h));
            }
            if let Some(v) = r.violation {
                let _ = writeln!(
                    out,
                    "{}",
                    violation_json(sc, 0, &a.choices, a.choices.len(), &v, &r.subject.log, &r.reference.log)
                );
            } else {
                let _ = writeln!(out, "{{\"type\":\"ok\",\"log\":{}}}", esc(&r.subject.log));
            }
        }
        // prints one digest per run: used for the determinism self-check
        "digest" => {
            for run in a.start..a.start + a.count {
                let sc = scenario_of(scs, run);
                let ch = Choices::Seed(run_seed(a.seed, sc.name, run));
                let r = run_twin(&ch, sc.run);
                let _ = writeln!(
                    out,
                    "{run} {:016x}",
                    fnv(fnv(FNV0, r.subject.log.as_bytes()), r.reference.log.as_bytes())
                );
            }
        }
        // announces each run before it starts: used to attribute crashes and hangs
        "trace" => {
            for run in a.start..a.start + a.count {
                let sc = scenario_of(scs, run);
                let _ = writeln!(out, "START {run} {}", sc.name);
                let _ = out.flush();
                let ch = Choices::Seed(run_seed(a.seed, sc.name, run));
                let _ = run_twin(&ch, sc.run);
            }
            let _ = writeln!(out, "DONE");
        }
        // runs one seeded run and prints its recorded reference choices
        "record" => {
            let sc = scenario_of(scs, a.start);
            let r = run_side(Side::Ref, &Choices::Seed(run_seed(a.seed, sc.name, a.start)), sc.run);
            let c: Vec<u32> = r.recorded.iter().map(|x| x.0).collect();
            let _ = writeln!(out, "{{\"type\":\"record\",\"scenario\":{},\"choices\":{:?},\"log\":{}}}", esc(sc.name), c, esc(&r.log));
        }
        "search" => {
            let t0 = std::time::Instant::now();
            let mut seen = Seen::new();
            let mut faults: BTreeMap<String, u64> = BTreeMap::new();
            let mut probes: BTreeMap<String, u64> = BTreeMap::new();
            let mut per: BTreeMap<&str, u64> = BTreeMap::new();
            let (mut runs, mut events, mut steps, mut clock, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64);
            let mut sample = Vec::new();
            let mut capped = false;
            for run in a.start..a.start + a.count {
                if run % 64 == 0 && t0.elapsed().as_secs() >= a.max_secs {
                    capped = true;
                    break;
                }
                let sc = scenario_of(scs, run);
                if let Some(s) = &a.scenario {
                    if s != sc.name {
                        continue;
                    }
                }
                let seed = run_seed(a.seed, sc.name, run);
                let r = run_twin(&Choices::Seed(seed), sc.run);
                runs += 1;
                *per.entry(sc.name).or_default() += 1;
                events += r.subject.events;
                steps += r.subject.steps;
                clock += r.subject.clock;
                for (k, v) in &r.subject.faults {
                    *faults.entry(k.to_string()).or_default() += v;
                }
                for (k, v) in &r.subject.probes {
                    *probes.entry(k.clone()).or_default() += v;
                }
                let new = seen.insert(fnv(fnv(FNV0, sc.name.as_bytes()), r.subject.log.as_bytes()));
                if new && r.subject.events >= 4 {
                    nontrivial += 1;
                }
                if sample.len() < 2 && r.subject.events >= 6 && r.subject.events < 60 {
                    sample.push(format!("run {run} of {}:\n{}", sc.name, r.subject.log));
                }
                if let Some(h) = r.harness_error {
                    let _ = writeln!(out, "{{\"type\":\"harness_error\",\"detail\":{},\"run\":{run},\"scenario\":{}}}", esc(&h), esc(sc.name));
                    break;
                }
                if let Some(v) = r.violation {
                    let mut best: Option<(Vec<u32>, Violation, String, String, usize)> = None;
                    for rec in [&r.subject.recorded, &r.reference.recorded] {
                        let c: Vec<u32> = rec.iter().map(|x| x.0).collect();
                        let n = c.len();
                        let rr = run_twin(&Choices::List(&c), sc.run);
                        if same_class(&rr.violation, &v.class) {
                            let m = minimise(sc, c, &v.class, 4000);
                            let rr = run_twin(&Choices::List(&m), sc.run);
                            if let Some(v2) = rr.violation {
                                best = Some((m, v2, rr.subject.log, rr.reference.log, n));
                                break;
                            }
                        }
                    }
                    let (c, v, log, rlog, n) = best.unwrap_or_else(|| {
                        let c: Vec<u32> = r.subject.recorded.iter().map(|x| x.0).collect();
                        let n = c.len();
                        (c, v.clone(), r.subject.log.clone(), r.reference.log.clone(), n)
                    });
                    let _ = writeln!(out, "{}", violation_json(sc, run, &c, n, &v, &log, &rlog));
                    break;
                }
            }
            let mut o = format!(
                "{{\"type\":\"stats\",\"runs\":{runs},\"distinct\":{},\"nontrivial\":{nontrivial},\"events\":{events},\"steps\":{steps},\"sim_time\":{clock},\"capped\":{capped},\"elapsed\":{:.3}",
                seen.len(),
                t0.elapsed().as_secs_f64()
            );
            for (name, m) in [("faults", &faults), ("probes", &probes)] {
                let _ = write!(o, ",\"{name}\":{{");
                for (i, (k, v)) in m.iter().enumerate() {
                    let _ = write!(o, "{}{}:{v}", if i > 0 { "," } else { "" }, esc(k));
                }
                o.push('}');
            }
            let _ = write!(o, ",\"scenarios\":{{");
            for (i, (k, v)) in per.iter().enumerate() {
                let _ = write!(o, "{}{}:{v}", if i > 0 { "," } else { "" }, esc(k));
            }
            o.push('}');
            let _ = write!(o, ",\"samples\":[");
            for (i, s) in sample.iter().enumerate() {
                let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, esc(s));
            }
            o.push_str("]}");
            let _ = writeln!(out, "{o}");
        }
        m => panic!("unknown mode {m}"),
    }
}
