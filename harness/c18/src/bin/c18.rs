//! C18: expansion is a deterministic, isolated, crash-free function of its input.
//!
//! One run is one life of a compiler process: a history of expansions (valid, mutated and truncated
//! items, repeats) on one to three threads. Real threads hand over at allocations chosen by the seed
//! (the allocator is the seam), so one seed is one interleaving. The reference of every expansion is
//! the same expansion made alone, as the first one, in a process of its own forked from a zygote that
//! has never expanded anything.
#![allow(clippy::all)]
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use simcore::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

const KINDS: &[&str] = &["mutate", "truncate", "none-group", "soup", "preempt", "env", "arguments"];

// ------------------------------------------------------------------ the scheduler behind the allocator

struct Sched {
    current: usize,
    live: u32,
    /// handovers to come: (allocation number, which of the other live threads)
    plan: Vec<(u32, usize)>,
    seen: u32,
    made: u32,
}
static SCHED: Mutex<Sched> = Mutex::new(Sched { current: 0, live: 0, plan: Vec::new(), seen: 0, made: 0 });
static TURN: Condvar = Condvar::new();
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}
fn next_live(s: &Sched, after: usize, n: usize) -> Option<usize> {
    let others: u32 = s.live & !(1 << after);
    if others == 0 {
        return None;
    }
    let k = n as u32 % others.count_ones();
    (0..32).filter(|b| others >> b & 1 == 1).nth(k as usize)
}
fn wait_turn(me: usize, mut s: std::sync::MutexGuard<'static, Sched>) {
    while s.current != me {
        let (g, t) = TURN.wait_timeout(s, Duration::from_millis(400)).unwrap_or_else(|e| e.into_inner());
        s = g;
        if t.timed_out() && s.current != me {
            // the thread whose turn it is waits for something only another thread can give
            s.current = me;
        }
    }
}
/// an allocation made inside an expansion
fn point() {
    let me = ME.with(|m| m.replace(usize::MAX));
    if me == usize::MAX {
        return;
    }
    {
        let mut s = SCHED.lock().unwrap_or_else(|e| e.into_inner());
        s.seen += 1;
        let hit = matches!(s.plan.last(), Some(&(at, _)) if at <= s.seen);
        if hit {
            let (_, n) = *s.plan.last().unwrap();
            let l = s.plan.len();
            unsafe { s.plan.set_len(l - 1) }; // (u32, usize): nothing to drop
            if let Some(o) = next_live(&s, me, n) {
                s.made += 1;
                s.current = o;
                TURN.notify_all();
                wait_turn(me, s);
            }
        } else if s.current != me {
            wait_turn(me, s);
        }
    }
    ME.with(|m| m.set(me));
}
struct Seam;
unsafe impl GlobalAlloc for Seam {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static SEAM: Seam = Seam;

// ------------------------------------------------------------------ expansion

#[derive(Clone)]
struct Job {
    kind: &'static str,
    args: String,
    input: String,
    /// an item of the corpus as it is: its expansion has to parse
    valid: bool,
}
const NONE: &str = "__none_group__";
/// text of a token stream; groups without delimiters are spelled out
fn spell(ts: TokenStream) -> String {
    fn conv(ts: TokenStream) -> TokenStream {
        ts.into_iter()
            .flat_map(|t| match t {
                TokenTree::Group(g) if g.delimiter() == Delimiter::None => {
                    vec![TokenTree::Ident(Ident::new(NONE, Span::call_site())), TokenTree::Group(Group::new(Delimiter::Parenthesis, conv(g.stream())))]
                }
                TokenTree::Group(g) => vec![TokenTree::Group(Group::new(g.delimiter(), conv(g.stream())))],
                t => vec![t],
            })
            .collect()
    }
    conv(ts).to_string()
}
fn read(s: &str) -> Option<TokenStream> {
    fn conv(ts: TokenStream) -> TokenStream {
        let mut out = vec![];
        let mut none = false;
        for t in ts {
            match t {
                TokenTree::Ident(i) if i == NONE => none = true,
                TokenTree::Group(g) => {
                    let d = if none && g.delimiter() == Delimiter::Parenthesis { Delimiter::None } else { g.delimiter() };
                    none = false;
                    let mut n = Group::new(d, conv(g.stream()));
                    n.set_span(g.span());
                    out.push(TokenTree::Group(n));
                }
                t => {
                    none = false;
                    out.push(t)
                }
            }
        }
        out.into_iter().collect()
    }
    s.parse::<TokenStream>().ok().map(conv)
}
/// `enum_derive` attributes in generated code, with their enums: what the compiler expands next
fn derived(ts: &TokenStream, out: &mut Vec<(TokenStream, TokenStream)>) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket {
                let a: Vec<TokenTree> = g.stream().into_iter().collect();
                let name = a.iter().filter_map(|t| if let TokenTree::Ident(i) = t { Some(i.to_string()) } else { None }).last();
                if name.as_deref() == Some("enum_derive") {
                    let args = match a.last() { Some(TokenTree::Group(g)) => g.stream(), _ => TokenStream::new() };
                    let mut item = vec![];
                    let mut j = i + 2;
                    while j < v.len() {
                        item.push(v[j].clone());
                        j += 1;
                        if matches!(item.last(), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace) {
                            break;
                        }
                    }
                    out.push((args, item.into_iter().collect()));
                    i = j;
                    continue;
                }
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            derived(&g.stream(), out);
        }
        i += 1;
    }
}
fn macro_of(kind: &str, args: TokenStream, input: TokenStream) -> Result<TokenStream, String> {
    catch_unwind(AssertUnwindSafe(|| if kind == "auto_enum" { subject::auto_enum(args, input) } else { subject::enum_derive(args, input) }))
        .map_err(|p| format!("PANIC {}", payload_str(&*p)))
}
fn well_formed(kind: &str, out: &TokenStream) -> bool {
    use syn::parse::Parser;
    if kind == "enum_derive" {
        return syn::parse2::<syn::File>(out.clone()).is_ok();
    }
    syn::Block::parse_within.parse2(out.clone()).is_ok()
}
/// Everything the expansion of one item gives, as text. First line: the outcome.
fn expand(job: &Job) -> String {
    let (Some(a), Some(i)) = (read(&job.args), read(&job.input)) else { return "unreadable\n".into() };
    let o = match macro_of(job.kind, a, i) {
        Ok(o) => o,
        Err(p) => return format!("{p}\n"),
    };
    let text = spell(o.clone());
    let class = if text.contains("compile_error") {
        "error"
    } else if well_formed(job.kind, &o) {
        "code"
    } else {
        "MALFORMED"
    };
    let mut res = format!("{class}\n{text}\n");
    if class == "code" && job.kind == "auto_enum" {
        let mut d = vec![];
        derived(&o, &mut d);
        for (a, i) in d {
            match macro_of("enum_derive", a, i) {
                Ok(o) => {
                    let t = spell(o.clone());
                    if !t.contains("compile_error") && !well_formed("enum_derive", &o) {
                        return format!("MALFORMED derive\n{t}\n");
                    }
                    res += &t;
                    res.push('\n');
                }
                Err(p) => return format!("{p}\n"),
            }
        }
    }
    res
}

// ------------------------------------------------------------------ fresh processes

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
use std::fs::File;
use std::io::{Read as _, Write as _};
use std::os::fd::FromRawFd;

fn send(f: &mut File, parts: &[&str]) {
    let mut b = vec![];
    for p in parts {
        b.extend((p.len() as u32).to_le_bytes());
        b.extend(p.as_bytes());
    }
    let _ = f.write_all(&b);
}
fn recv(f: &mut File) -> Option<String> {
    let mut n = [0; 4];
    f.read_exact(&mut n).ok()?;
    let mut b = vec![0; u32::from_le_bytes(n) as usize];
    f.read_exact(&mut b).ok()?;
    String::from_utf8(b).ok()
}
fn pair() -> (File, File) {
    let mut p = [0i32; 2];
    unsafe {
        assert_eq!(pipe(p.as_mut_ptr()), 0);
        (File::from_raw_fd(p[0]), File::from_raw_fd(p[1]))
    }
}
/// answers (kind, args, input) with the expansion made in a fork of this process
fn zygote(mut rx: File, mut tx: File) -> ! {
    while let (Some(k), Some(args), Some(input)) = (recv(&mut rx), recv(&mut rx), recv(&mut rx)) {
        let (mut r, mut w) = pair();
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { alarm(60) };
            let kind = if k == "auto_enum" { "auto_enum" } else { "enum_derive" };
            let o = std::thread::Builder::new().stack_size(16 << 20).spawn(move || expand(&Job { kind, args, input, valid: false })).unwrap().join().unwrap_or_default();
            send(&mut w, &[&o]);
            unsafe { _exit(0) };
        }
        drop(w);
        let o = recv(&mut r);
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        send(&mut tx, &[&o.unwrap_or_else(|| format!("CRASH {st}\n"))]);
    }
    unsafe { _exit(0) }
}
thread_local! {
    static ZYGOTE: std::cell::RefCell<Option<(File, File)>> = const { std::cell::RefCell::new(None) };
    static CACHE: std::cell::RefCell<BTreeMap<(bool, String, String), String>> = const { std::cell::RefCell::new(BTreeMap::new()) };
}
fn alone(job: &Job) -> String {
    let key = (job.kind == "auto_enum", job.args.clone(), job.input.clone());
    if let Some(r) = CACHE.with(|c| c.borrow().get(&key).cloned()) {
        return r;
    }
    let r = ZYGOTE.with(|z| {
        let mut z = z.borrow_mut();
        let (tx, rx) = z.as_mut().expect("zygote");
        send(tx, &[job.kind, &job.args, &job.input]);
        recv(rx)
    });
    let Some(r) = r else { std::process::abort() };
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 4000 {
            c.clear();
        }
        c.insert(key, r.clone());
    });
    r
}

// ------------------------------------------------------------------ inputs

fn corpus() -> &'static [(&'static str, &'static str, &'static str)] {
    static C: std::sync::OnceLock<Vec<(&'static str, &'static str, &'static str)>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        include_str!("../../corpus.txt").lines().filter_map(|l| { let mut p = l.split('\t'); Some((p.next()?, p.next()?, p.next().unwrap_or(""))) }).collect()
    })
}
const WORDS: &[&str] = &[
    "#[nested]", "#[never]", "#[rec]", "#[auto_enum(Iterator)]", "#[auto_enum]", "#[auto_enum(marker = m, Read)]", "#[auto_enum = 1]", "#[auto_enum(marker = marker)]",
    "#[nested(x)]", "#[never = 2]", "#[cfg(x)]", "marker!(x)", "marker!()", "marker!{}", "m!(1)", "return", "return x", "return marker!(x)", "break", "break 'a x", "break 1", "?", "x?",
    "marker!(x)?", "else", "else { 1 }", "=>", "match x { 0 => 1, _ => 2 }", "match x {}", "if a { 1 } else { 2 }", "if", "loop { break 1 }", "'a: loop { break 'a 1 }", "loop {}",
    "'a: {}", "while x {}", "for a in b {}", "impl", "impl Iterator<Item = u32>", "-> impl Read", "-> Result<u32, impl Error>", ": impl Iterator", "async move { x? }", "async", "unsafe { 1 }",
    "try { x? }", "const { 1 }", "let x", "let x = 1;", "let x: impl Iterator = 1;", "fn f() {}", "fn f() -> impl Read { if a { 1 } else { 2 } }", "|x| x", "|| return 1", "move ||", "struct S;",
    "enum E<A, B> { A(A), B(B) }", "{}", "()", "[]", "(x)", "{ x }", ";", ",", ".", "::", ":", "=", "..", "&", "&mut", "*", "!", "<", ">", "#", "$", "@", "_", "'a", "self", "Self", "crate", "super",
    "r#try", "r#match", "x", "0", "1u32", "\"s\"", "b\"s\"", "'c'", "1.5", "panic!()", "unreachable!()", "x.await", ".f(|| 1)", "as u32", "where T: Copy", "<T>", "<'a, T: ?Sized>", "dyn Fn()",
    "union U { a: u32 }", "macro_rules! m { () => {} }", "static X: u32 = 1;", "yield 1", "box x", "become f()", "auto trait T {}", "extern \"C\" {}", "use a::b;", "A", "A(A)", "A {}", "A = 1",
    "_ => unreachable!(),", "Ok(x)", "Err(x)?", "Err(e)", "return Err(e)", "#![inner]", "/// doc\n",
];
const TRAITS: &[&str] = &[
    "Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen", "Extend", "Debug", "fmt::Debug", "Display", "fmt::Display", "fmt::Binary", "fmt::Pointer", "fmt::Write", "Deref",
    "DerefMut", "Index", "IndexMut", "RangeBounds", "AsRef", "AsMut", "Fn", "FnMut", "FnOnce", "Coroutine", "Future", "Read", "io::Read", "BufRead", "Write", "io::Write", "Seek", "Error", "error::Error",
    "futures03::Stream", "futures03::Sink", "futures03::AsyncRead", "futures03::AsyncBufRead", "futures01::Future", "futures01::Sink", "tokio1::AsyncRead", "tokio1::AsyncBufRead", "tokio03::AsyncWrite",
    "tokio02::AsyncSeek", "tokio01::AsyncRead", "rayon::ParallelIterator", "rayon::IndexedParallelIterator", "rayon::ParallelExtend", "serde::Serialize", "http_body1::Body", "Transpose", "Clone", "Copy",
    "Ord", "Eq", "std::io::Read", "a::b::C<D>", "marker = m", "marker = marker", "marker = r#match", "marker", "marker =", "= m", ",", "Fn(A) -> B", "<A as B>::C", "\"Iterator\"", "#[a]", "dyn", "1", "!Unpin",
    "'a", "?Sized", "~const A", "r#Iterator", "crate::Iterator", "self", "(Iterator)", "{Iterator}", "Iterator::<>",
];
fn count(ts: &[TokenTree]) -> usize {
    ts.iter().map(|t| 1 + if let TokenTree::Group(g) = t { count(&g.stream().into_iter().collect::<Vec<_>>()) } else { 0 }).sum()
}
/// edits the sequence that holds the n-th token (depth first)
fn edit(ts: TokenStream, n: &mut usize, f: &mut dyn FnMut(&mut Vec<TokenTree>, usize)) -> TokenStream {
    let mut v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if *n == 0 {
            *n = usize::MAX;
            f(&mut v, i);
            return v.into_iter().collect();
        }
        if *n == usize::MAX {
            break;
        }
        *n -= 1;
        if let TokenTree::Group(g) = &v[i] {
            let before = *n;
            let inner = edit(g.stream(), n, f);
            if *n == usize::MAX {
                v[i] = TokenTree::Group(Group::new(g.delimiter(), inner));
                return v.into_iter().collect();
            }
            let _ = before;
        }
        i += 1;
    }
    v.into_iter().collect()
}
fn word(ws: &[&str]) -> Vec<TokenTree> {
    let w = ws[choose(ws.len())];
    match w.parse::<TokenStream>() {
        Ok(t) => t.into_iter().collect(),
        Err(_) => vec![TokenTree::Punct(Punct::new('\'', Spacing::Joint)), TokenTree::Literal(Literal::u8_unsuffixed(0))],
    }
}
fn subtree() -> Vec<TokenTree> {
    let c = corpus();
    let (_, _, i) = c[choose(c.len())];
    let Ok(ts) = i.parse::<TokenStream>() else { return vec![] };
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let total = count(&v).max(1);
    let mut n = choose(total);
    let take = 1 + choose(6);
    let mut got = vec![];
    edit(ts, &mut n, &mut |v, i| got = v[i..(i + take).min(v.len())].to_vec());
    got
}
/// a path grown from one the macros know, as some kind of expression
fn path_expr() -> Vec<TokenTree> {
    const KNOWN: &[&str] = &["option::Option::None", "option::Option::Some", "result::Result::Err", "result::Result::Ok", "panic", "unreachable", "marker", "result::Result", "io::Read", "fmt::Debug", "future::Future"];
    const SEG: &[&str] = &["None", "Err", "Result", "Option", "x", "panic", "unreachable", "marker", "core", "r#try", "Self", "self", "super", "A"];
    let k: Vec<&str> = KNOWN[choose(KNOWN.len())].split("::").collect();
    let mut v: Vec<String> = vec![];
    if choose(4) > 0 { v.push(["std", "core", "alloc", "crate", "", "x"][choose(6)].into()) }
    v.extend(k[if choose(4) == 0 { choose(k.len()) } else { 0 }..].iter().map(|x| x.to_string()));
    if choose(4) == 0 { v.remove(choose(v.len())); }
    for _ in 0..[0, 0, 1, 1, 2, 3][choose(6)] { v.push(SEG[choose(SEG.len())].into()) }
    if choose(5) == 0 { v.push("<T>".into()) }
    if choose(4) == 0 { v.insert(0, "".into()) }
    let p = v.join("::");
    let t = match choose(9) {
        0 | 1 | 2 => format!("{p}?"),
        3 | 4 => format!("{p}(x)?"),
        5 | 6 => format!("{p}!(x)"),
        7 => format!("{p}"),
        _ => format!("return {p}(x)"),
    };
    t.parse::<TokenStream>().map(|t| t.into_iter().collect()).unwrap_or_default()
}
fn is_punct(t: &TokenTree, c: char) -> bool { matches!(t, TokenTree::Punct(p) if p.as_char() == c) }
/// replaces the body of a match arm, or the tail of a block
fn rebody(v: &mut Vec<TokenTree>, i: usize, new: Vec<TokenTree>) {
    let arrow = (i..v.len().saturating_sub(1)).find(|&k| is_punct(&v[k], '=') && is_punct(&v[k + 1], '>'));
    let (a, b) = match arrow {
        Some(k) => (k + 2, (k + 2..v.len()).find(|&j| is_punct(&v[j], ',')).unwrap_or(v.len())),
        None => ((0..v.len()).rev().find(|&j| is_punct(&v[j], ';')).map_or(i, |j| j + 1), v.len()),
    };
    drop(v.splice(a..b, new).collect::<Vec<_>>());
}
fn mutate(ts: TokenStream, ws: &[&str]) -> TokenStream {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let total = count(&v);
    if total == 0 {
        return word(ws).into_iter().collect();
    }
    let mut n = choose(total);
    let what = if fault("truncate") { 0 } else if fault("none-group") { 1 } else { 2 + choose(13) };
    edit(ts, &mut n, &mut |v, i| match what {
        0 => v.truncate(i),
        1 => {
            let k = (i + 1 + choose(4)).min(v.len());
            let g = Group::new(Delimiter::None, v[i..k].iter().cloned().collect());
            v.splice(i..k, [TokenTree::Group(g)]);
        }
        2 => drop(v.remove(i)),
        3 => {
            let t = v[i].clone();
            v.insert(i, t)
        }
        4 if i + 1 < v.len() => v.swap(i, i + 1),
        5 => drop(v.splice(i..i + 1, word(ws)).collect::<Vec<_>>()),
        6 | 7 => drop(v.splice(i..i, word(ws)).collect::<Vec<_>>()),
        8 => {
            if let TokenTree::Group(g) = v[i].clone() {
                let d = [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket, Delimiter::None][choose(4)];
                v[i] = TokenTree::Group(Group::new(d, g.stream()));
            } else {
                drop(v.splice(i + 1..i + 1, word(ws)).collect::<Vec<_>>())
            }
        }
        9 => {
            if let TokenTree::Group(g) = v[i].clone() {
                if flip() {
                    drop(v.splice(i..i + 1, g.stream()).collect::<Vec<_>>());
                } else {
                    v[i] = TokenTree::Group(Group::new(g.delimiter(), TokenStream::new()));
                }
            } else {
                v.truncate(i + 1)
            }
        }
        12 => drop(v.splice(i..i + 1, path_expr()).collect::<Vec<_>>()),
        13 => rebody(v, i, path_expr()),
        14 => rebody(v, i, if flip() { word(ws) } else { subtree() }),
        10 => drop(v.splice(i..i, subtree()).collect::<Vec<_>>()),
        _ => drop(v.splice(i..i + 1, subtree()).collect::<Vec<_>>()),
    })
}
fn job() -> Job {
    let c = corpus();
    // sorted by length: mostly short ones
    let (k, a, i) = c[if chance(1, 4) { choose(c.len()) } else { choose(c.len() / 2) }];
    let mut kind = if k == "auto_enum" { "auto_enum" } else { "enum_derive" };
    let (Ok(mut args), Ok(mut input)) = (a.parse::<TokenStream>(), i.parse::<TokenStream>()) else { panic!("corpus: {a} | {i}") };
    if fault("soup") {
        input = (0..1 + choose(20)).flat_map(|_| word(WORDS)).collect();
        kind = ["auto_enum", "enum_derive"][choose(2)];
    }
    while fault("mutate") {
        input = mutate(input, WORDS);
    }
    if fault("arguments") {
        for _ in 0..1 + choose(3) {
            args = if flip() { mutate(args, TRAITS) } else { args.into_iter().chain(", ".parse::<TokenStream>().unwrap()).chain(word(TRAITS)).collect() };
        }
    }
    let j = Job { kind, args: spell(args), valid: spell(input.clone()) == i, input: spell(input) };
    // some edits leave what is not a token stream (a lone quote): use the item as it was
    if read(&j.args).is_none() || read(&j.input).is_none() {
        return Job { kind: if k == "auto_enum" { "auto_enum" } else { "enum_derive" }, args: a.into(), input: i.into(), valid: true };
    }
    j
}

// ------------------------------------------------------------------ a run

fn run() {
    swarm(KINDS);
    set_rate("mutate", [0, 60, 120, 180][choose(4)]);
    set_rate("soup", [0, 0, 20][choose(3)]);
    set_rate("preempt", [0, 128, 220][choose(3)]);
    let njobs = 1 + choose(4);
    let jobs: Vec<Job> = (0..njobs).map(|_| job()).collect();
    let nthreads = 1 + choose(3);
    // who expands what, in which order; jobs may come again
    let plan: Vec<Vec<usize>> = (0..nthreads).map(|_| (0..1 + choose(4)).map(|_| choose(njobs)).collect()).collect();
    let mut preempt: Vec<(u32, usize)> = vec![];
    let mut at = 0;
    while nthreads > 1 && preempt.len() < 12 && fault("preempt") {
        at += 1 + [choose(30), choose(300), choose(3000)][choose(3)] as u32;
        preempt.push((at, choose(2)));
    }
    let env = if fault("env") { choose(6) } else { 6 };
    for (n, j) in jobs.iter().enumerate() {
        ev!("item {n}: {} [{}] {}", j.kind, j.args, j.input);
    }
    let mut results: Vec<(usize, usize, usize, String)> = vec![];
    if is_ref() {
        for (t, l) in plan.iter().enumerate() {
            for (k, &n) in l.iter().enumerate() {
                results.push((t, k, n, alone(&jobs[n])));
            }
        }
    } else {
        let old = set_env(env);
        preempt.reverse();
        {
            let mut s = SCHED.lock().unwrap();
            *s = Sched { current: 0, live: (1 << nthreads) - 1, plan: preempt.clone(), seen: 0, made: 0 };
        }
        let jobs = Arc::new(jobs.clone());
        let hs: Vec<_> = plan
            .iter()
            .cloned()
            .enumerate()
            .map(|(t, l)| {
                let jobs = jobs.clone();
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .name(format!("expander {t}"))
                    .spawn(move || {
                        wait_turn(t, SCHED.lock().unwrap());
                        let mut out = vec![];
                        for (k, &n) in l.iter().enumerate() {
                            ME.with(|m| m.set(t));
                            let r = expand(&jobs[n]);
                            ME.with(|m| m.set(usize::MAX));
                            out.push((t, k, n, r));
                        }
                        let mut s = SCHED.lock().unwrap();
                        s.live &= !(1 << t);
                        if let Some(o) = next_live(&s, t, 0) {
                            if s.current == t {
                                s.current = o;
                            }
                        }
                        TURN.notify_all();
                        drop(s);
                        out
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            results.extend(h.join().expect("expander thread"));
        }
        restore_env(old);
        let made = SCHED.lock().unwrap().made;
        probe(&format!("handovers inside expansions: {}", if made > 3 { "more".into() } else { made.to_string() }));
        for r in &results {
            probe(&format!("outcome: {}", r.3.split(|c| c == '\n' || c == ' ').next().unwrap_or("")));
        }
    }
    for (t, k, n, r) in &results {
        tick();
        let first = r.lines().next().unwrap_or("");
        if !is_ref() && first.starts_with("PANIC") {
            violate("panic", format!("expansion of item {n} panics: {first}\n  {} [{}] {}", jobs[*n].kind, jobs[*n].args, jobs[*n].input));
        }
        if !is_ref() && jobs[*n].valid && first.starts_with("MALFORMED") {
            violate("malformed", format!("expansion of item {n} is neither code nor an error\n  {} [{}] {}\n  {r}", jobs[*n].kind, jobs[*n].args, jobs[*n].input));
        }
        ev!("thread {t} step {k}: item {n} -> {first} {:016x} {}", fnv(FNV0_, r.as_bytes()), r.len());
    }
}
const FNV0_: u64 = 0xcbf29ce484222325;
const ENVS: [(&str, &str); 6] = [("CARGO_PKG_NAME", "other"), ("CARGO_MANIFEST_DIR", "/nonexistent"), ("RUST_BACKTRACE", "1"), ("AUTO_ENUMS_DEBUG", "1"), ("SOURCE_DATE_EPOCH", "0"), ("CARGO_CRATE_NAME", "zzz")];
fn set_env(n: usize) -> Option<(&'static str, Option<String>)> {
    let (k, v) = *ENVS.get(n)?;
    let old = std::env::var(k).ok();
    std::env::set_var(k, v);
    Some((k, old))
}
fn restore_env(o: Option<(&'static str, Option<String>)>) {
    match o {
        Some((k, Some(v))) => std::env::set_var(k, v),
        Some((k, None)) => std::env::remove_var(k),
        None => {}
    }
}

fn main() {
    // the zygote is forked before anything is expanded or any thread exists
    let (zr, mytx) = pair();
    let (myrx, zt) = pair();
    unsafe {
        if fork() == 0 {
            prctl(1, 9, 0, 0, 0); // PR_SET_PDEATHSIG
            drop(mytx);
            drop(myrx);
            std::panic::set_hook(Box::new(|_| {}));
            zygote(zr, zt);
        }
    }
    drop(zr);
    drop(zt);
    ZYGOTE.with(|z| *z.borrow_mut() = Some((mytx, myrx)));
    main_with(&[Scenario { name: "expansion", run, weight: 1 }]);
}
