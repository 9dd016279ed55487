//! mc run PROP TIER | mc replay FILE | mc one ENTRY (text on stdin) | mc selftest
#[cfg(not(feature = "sched"))]
mod comb;
#[cfg(feature = "sched")]
mod cost;
mod dict;
mod eng;
mod gram;
mod hist;
mod props;
mod props2;
mod tok;
mod walk;

use eng::*;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicBool, AtomicUsize};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    pub fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    pub fn fork() -> i32;
    pub fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    pub fn kill(p: i32, s: i32) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    pub fn _exit(c: i32) -> !;
}

pub fn map_shared(len: usize) -> usize {
    unsafe {
        // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
        let p = mmap(std::ptr::null_mut(), len, 3, 0x1 | 0x20 | 0x4000, -1, 0);
        assert!(p as isize != -1, "mmap");
        p as usize
    }
}
fn limits() {
    unsafe {
        let l = [24u64 << 30, 24u64 << 30];
        setrlimit(9, &l); // RLIMIT_AS
        let c = [0u64, 0];
        setrlimit(4, &c); // RLIMIT_CORE
    }
}

fn root_dir() -> std::path::PathBuf {
    std::env::var_os("MC_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into())
}

fn quiet_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !IN_CODE.with(|c| c.get()) {
            old(i);
        }
    }));
}

/// `known: property=<id> entry=<entry> text=<escaped>` lines of the known-findings file
fn known(prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root_dir().join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={} entry=", prop)) {
                if let Some((e, t)) = r.split_once(" text=") {
                    v.push((e.to_string(), unescape(t)));
                }
            }
        }
    }
    v
}
fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some(x) => o.push(x),
            None => o.push('\\'),
        }
    }
    o
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// read back a string field of a replay file (our own flat format)
fn json_get(s: &str, k: &str) -> String {
    let pat = format!("\"{}\": \"", k);
    let i = s.find(&pat).map(|i| i + pat.len()).unwrap_or_else(|| panic!("no field {}", k));
    let mut o = String::new();
    let mut it = s[i..].chars();
    loop {
        match it.next().expect("unterminated") {
            '"' => return o,
            '\\' => match it.next().unwrap() {
                'n' => o.push('\n'),
                'r' => o.push('\r'),
                't' => o.push('\t'),
                'u' => {
                    let h: String = (0..4).map(|_| it.next().unwrap()).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
}

fn write_replay(prop: &str, v: &Violation) -> String {
    let dir = root_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let clip = |s: &str| if s.len() > 200_000 { s.chars().take(200_000).collect::<String>() } else { s.to_string() };
    let body = format!(
        "{{\n \"property\": {},\n \"entry\": {},\n \"text\": {},\n \"what\": {},\n \"expected\": {},\n \"observed\": {},\n \"family\": {}\n}}\n",
        json_str(prop), json_str(&v.entry), json_str(&v.text), json_str(&v.what), json_str(&clip(&v.expected)), json_str(&clip(&v.observed)), json_str(&v.family)
    );
    let p = dir.join(format!("{}-{:016x}.json", prop, ev_hash(&(v.entry.clone() + "\0" + &v.text))));
    std::fs::write(&p, body).expect("write replay");
    p.display().to_string()
}

fn write_evidence(prop: &str, tier: &str, st: &Stats, notes: &[String], wall: f64, nviol: usize, complete: bool) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut s = String::new();
    s.push_str(&format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", json_str(prop), json_str(tier), seed));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", st.states, st.transitions, st.traces));
    s.push_str(&format!("  \"accepted_by_impl\": {},\n  \"rejected_by_impl\": {},\n  \"left_open_by_model\": {},\n  \"distinct_accepted_trees\": {},\n", st.accepted, st.rejected, st.open, st.outcomes.len()));
    s.push_str(&format!("  \"exhaustive\": {},\n", complete));
    s.push_str("  \"families\": {\n");
    let f: Vec<String> = st.families.iter().map(|(k, v)| format!("   {}: {{\"executions\": {}, \"accepted\": {}, \"rejected\": {}, \"open\": {}}}", json_str(k), v.0, v.1, v.2, v.3)).collect();
    s.push_str(&f.join(",\n"));
    s.push_str("\n  },\n  \"bounds\": [\n");
    s.push_str(&notes.iter().map(|n| format!("   {}", json_str(n))).collect::<Vec<_>>().join(",\n"));
    s.push_str("\n  ],\n  \"samples\": [\n");
    let sm: Vec<String> = st.samples.iter().flat_map(|(k, v)| v.iter().take(2).map(move |x| format!("   {}", json_str(&format!("{}: {}", k, x))))).collect();
    s.push_str(&sm.join(",\n"));
    s.push_str("\n  ]\n },\n \"assumptions\": [\n");
    let a = [
        "the reference grammar and lexer in mc/src/gram.rs and mc/src/tok.rs state the documented WebIDL grammar (hand-written; cross-checked against the sample files and by `mc selftest`)",
        "nothing is claimed for inputs outside the enumerated families and bounds",
        "inputs the grammar leaves open (reserved words as names, empty lists) are executed but only checked for the parts the property fixes",
    ];
    s.push_str(&a.iter().map(|x| format!("  {}", json_str(x))).collect::<Vec<_>>().join(",\n"));
    s.push_str(&format!("\n ],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, nviol));
    let dir = root_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", prop)), s).expect("write evidence");
}

fn report(prop: &str, v: &Violation) {
    let p = write_replay(prop, v);
    let clip = |s: &str| s.chars().take(600).collect::<String>();
    println!("{}: {} [{}]", v.entry, v.what, v.family);
    println!("  input    {}", clip(&format!("{:?}", v.text)));
    println!("  expected {}", clip(&v.expected));
    println!("  observed {}", clip(&v.observed));
    println!("VIOLATION property={} replay={}", prop, p);
    let _ = std::io::stdout().flush();
}

fn worker(prop: &str, tier: &str, slots: usize) -> i32 {
    limits();
    quiet_panics();
    let sh = Shared {
        prop: prop.into(), tier: tier.into(), stop: AtomicBool::new(false), viol: Mutex::new(vec![]),
        stats: Mutex::new(Stats::default()), slots,
        threads: std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).min(32),
        next_slot: AtomicUsize::new(0), start: Instant::now(), known: known(prop), notes: Mutex::new(vec![]),
        known_hit: Mutex::new(Default::default()), stack: AtomicUsize::new(512),
    };
    let f = props2::check(prop).unwrap_or_else(|| panic!("unknown property {}", prop));
    f(&sh);
    let mut viol = sh.viol.lock().unwrap().clone();
    let st = sh.stats.lock().unwrap().clone();
    write_evidence(prop, tier, &st, &sh.notes.lock().unwrap(), sh.start.elapsed().as_secs_f64(), viol.len(), viol.is_empty());
    for k in sh.known_hit.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {} on {:?}", prop, k.0, k.1);
    }
    if viol.is_empty() {
        println!("{} {}: held on {} executions, {} states, {} transitions, {} distinct trees, {:.1}s", prop, tier, st.traces, st.states, st.transitions, st.outcomes.len(), sh.start.elapsed().as_secs_f64());
        return 0;
    }
    viol.sort_by_key(|v| (v.text.len(), v.text.clone()));
    report(prop, &viol[0]);
    1
}

fn slot_info(slots: usize, i: usize) -> (u64, String, String, bool, usize) {
    unsafe {
        let p = (slots + i * SLOT) as *const u8;
        let q = p as *const u64;
        let seq = q.read_volatile();
        let n = (q.add(1).read_volatile() as usize).min(255);
        let real = q.add(2).read_volatile() as usize;
        let m = real.min(SLOT - 512);
        let e = String::from_utf8_lossy(std::slice::from_raw_parts(p.add(64), n)).into_owned();
        let t = String::from_utf8_lossy(std::slice::from_raw_parts(p.add(512), m)).into_owned();
        let stack = q.add(3).read_volatile() as usize;
        (seq, e, t, real <= SLOT - 512, stack)
    }
}

/// the building blocks of C20 are named by their types
fn run_block(_e: &str, _t: &str, _say: bool) -> bool {
    #[cfg(not(feature = "sched"))]
    if let Some(b) = comb::find(_e) {
        let r = (b.run)(_t);
        if _say {
            println!("now      {:?}", r);
        }
        return true;
    }
    false
}
/// run one input in a process of its own; Some(description) if it dies or hangs
fn probe(entry: &str, text: &str, secs: u64, stack: usize) -> Option<String> {
    unsafe {
        let pid = fork();
        if pid == 0 {
            limits();
            let (e, t) = (entry.to_string(), text.to_string());
            let h = std::thread::Builder::new().stack_size(stack << 20).spawn(move || {
                let _ = std::panic::catch_unwind(|| {
                    if !run_block(&e, &t, false) {
                        let _ = (walk::entry(&e).run)(&t, false);
                    }
                });
            });
            let _ = h.unwrap().join();
            _exit(0);
        }
        let t0 = Instant::now();
        loop {
            let mut st = 0;
            let r = waitpid(pid, &mut st, 1);
            if r == pid {
                return if st == 0 { None } else { Some(format!("process died, wait status {:#x}", st)) };
            }
            if t0.elapsed() > Duration::from_secs(secs) {
                kill(pid, 9);
                waitpid(pid, &mut st, 0);
                return Some(format!("no answer within {} s", secs));
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
}

const HANG: u64 = 60;

fn supervise(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let slots = map_shared(SLOT * NSLOT);
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        let r = std::panic::catch_unwind(|| worker(prop, tier, slots)).unwrap_or(3);
        let _ = std::io::stdout().flush();
        unsafe { _exit(r) }
    }
    let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); NSLOT];
    let mut suspects: Vec<(String, String, bool, usize)> = vec![];
    let why;
    loop {
        let mut st = 0;
        let r = unsafe { waitpid(pid, &mut st, 1) };
        if r == pid {
            if st & 0x7f == 0 {
                let code = (st >> 8) & 0xff;
                if code == 0 || code == 1 {
                    return code;
                }
                eprintln!("worker failed with exit code {}", code);
                return 2;
            }
            why = format!("killed by signal {}", st & 0x7f);
            for i in 0..NSLOT {
                let (seq, e, t, whole, stack) = slot_info(slots, i);
                if seq & 1 == 1 {
                    suspects.push((e, t, whole, stack));
                }
            }
            break;
        }
        let mut hung = false;
        for (i, s) in seen.iter_mut().enumerate() {
            let q = unsafe { ((slots + i * SLOT) as *const u64).read_volatile() };
            if q != s.0 {
                *s = (q, Instant::now());
            } else if q & 1 == 1 && s.1.elapsed() > Duration::from_secs(HANG) {
                let (_, e, t, whole, stack) = slot_info(slots, i);
                suspects.push((e, t, whole, stack));
                hung = true;
            }
        }
        if hung {
            why = format!("no answer within {} s", HANG);
            unsafe {
                kill(pid, 9);
                waitpid(pid, &mut st, 0);
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    suspects.sort_by_key(|s| s.1.len());
    for (e, t, whole, stack) in &suspects {
        eprintln!("worker {}; retrying {} on {} bytes with {} MiB of stack", why, e, t.len(), stack);
        if !*whole {
            continue;
        }
        if let Some(how) = probe(e, t, 30, *stack) {
            let v = Violation { entry: e.clone(), text: t.clone(), what: "the parser does not return".into(), expected: "Ok or Err".into(), observed: how, family: "crash or hang".into() };
            let st = Stats { traces: 1, states: 1, transitions: 1, ..Default::default() };
            write_evidence(prop, tier, &st, &[format!("aborted: {}", why)], t0.elapsed().as_secs_f64(), 1, false);
            report(prop, &v);
            return 1;
        }
    }
    eprintln!("worker {} and no single input reproduces it", why);
    2
}

fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let (e, t, what) = (json_get(&s, "entry"), json_get(&s, "text"), json_get(&s, "what"));
    println!("property {}  entry {}\ninput    {:?}\nclaim    {}\nexpected {}\nrecorded {}", json_get(&s, "property"), e, t, what, json_get(&s, "expected"), json_get(&s, "observed"));
    if let Some(i) = e.find('#') {
        println!("(a multi-step case: {})", &e[i + 1..]);
        return 0;
    }
    if let Some(x) = probe(&e, &t, 30, 512) {
        println!("now      {}", x);
        return 1;
    }
    quiet_panics();
    IN_CODE.with(|c| c.set(true));
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        IN_CODE.with(|c| c.set(true));
        if let Ok(true) = std::panic::catch_unwind(|| run_block(&e, &t, true)) {
            return;
        }
        let en = walk::entry(&e);
        match std::panic::catch_unwind(|| show(&(en.run)(&t, true))) {
            Ok(x) => println!("now      {}", x),
            Err(p) => println!("now      {}", panic_msg(p)),
        }
        let mut toks = vec![];
        tok::lex(&t, &mut toks);
        if !en.name.starts_with("term::") {
            match Judge::default().judge(en.node, &toks) {
                Verdict::Accept(ev) => println!("model    accept {}", ev),
                Verdict::Reject => println!("model    reject (as a whole text)"),
                Verdict::Open => println!("model    open"),
            }
        }
    });
    h.unwrap().join().unwrap();
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => supervise(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick")),
        Some("replay") => replay(&a[2]),
        Some("one") => {
            let mut t = String::new();
            std::io::stdin().read_to_string(&mut t).unwrap();
            println!("{}", show(&(walk::entry(&a[2]).run)(&t, true)));
            0
        }
        #[cfg(feature = "sched")]
        Some("instr") => {
            cost::instr_child(a[2] == "quick", a[3].parse().unwrap(), a[4].parse().unwrap());
            0
        }
        Some("dict") => {
            let d = dict::dict();
            println!("{} words\nmagic {:?}\nstrings {:?}\nints {:?}", d.words.len(), d.magic, d.strings, d.ints);
            0
        }
        Some("selftest") => props2::selftest(),
        _ => {
            eprintln!("usage: mc run PROP quick|thorough | replay FILE | one ENTRY < text | selftest");
            2
        }
    };
    std::process::exit(code);
}
