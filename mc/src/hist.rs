//! C17: parsing is a pure function of its text.  Histories of calls are explored as a tree of
//! forked processes (each node of the tree is a real process state), interleavings of two calls
//! by a controlled scheduler with a scheduling point at every basic block of the library.
use crate::eng::*;
use crate::tok::*;
use crate::walk::*;
use crate::{fork, kill, map_shared, mprotect, waitpid, _exit};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};

#[derive(Clone, Copy)]
pub struct Op {
    pub e: &'static str,
    pub t: &'static str,
}
const fn op(e: &'static str, t: &'static str) -> Op {
    Op { e, t }
}
/// the alphabet of calls: accepted and rejected texts, at the document and at node parsers
const OPS: &[Op] = &[
    op("parse", "a includes b;"),
    op("parse", "interface a {"),
    op("parse", "typedef sequence<sequence<(long or sequence<any>)?>> t;"),
    op("parse", "typedef sequence<sequence<sequence<sequence<(a or sequence<;"),
    op("parse", "[A(long b,any... c),D=(e,f)] dictionary g:h{required long i=0x1F;[J] any k=\"l\";};"),
    op("parse", "[A([B([C(long"),
    op("parse", ""),
    op("parse", "@"),
    op("parse", "/* open"),
    op("parse", "enum a{\"b\",\"c\",};// end"),
    op("parse", "enum a{\"b"),
    op("parse", "interface a:b{readonly attribute long? c;static any d(optional DOMString e=null);iterable<f>;};"),
    op("parse", "interface a{long b(optional long c=);};"),
    op("Type", "sequence<long> x"),
    op("Type", "sequence<"),
    op("Identifier", "_a b"),
    op("StringLit", "\"x"),
    op("parse", "a includes b;c implements d;/**/partial namespace e{};callback f=undefined(g...h);"),
    op("parse", "interface mixin a{stringifier;const byte b=-1;long c();};"),
    op("term::Or", "or"),
    op("term::Or", "order"),
    op("ConstValue", "-1.5e+3;"),
    op("ArgumentList", "long a,optional any b=[]"),
    op("parse", " // only\n /* comments */ "),
    op("parse", "interface a{};;"),
    op("parse", "interface a{async iterable<b,c>(d e);constructor();maplike<f,g>;};"),
    op("parse", "((((((((((((((((((((((((((((((((((((((((((((((((((("),
    op("parse", "typedef record<DOMString,Promise<undefined>>? r;typedef unsigned long long u;typedef unrestricted double? v;"),
    op("parse", "typedef sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<a>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>> b;"),
    op("parse", "typedef sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<sequence<a> b;"),
];
const DEEP: &str = "typedef sequence<sequence<sequence<sequence<sequence<sequence<";

fn outcome(o: Op, text: &str) -> String {
    let e = entry(o.e);
    match catch_unwind(AssertUnwindSafe(|| {
        let r = (e.run)(text, true);
        let inside = r.out.ys.iter().all(|y| match y {
            Y::Name(s) | Y::Lit(_, s) => {
                let (a, b) = (s.as_ptr() as usize, text.as_ptr() as usize);
                a >= b && a + s.len() <= b + text.len()
            }
            _ => true,
        });
        let suffix = is_suffix(r.rest, text);
        let mut s = show(&r);
        if !inside || (!suffix && r.kind != Kind::Incomplete) {
            s.push_str(" (text not borrowed from this input)");
        }
        s
    })) {
        Ok(s) => s,
        Err(p) => panic_msg(p),
    }
}

// ------------------------------------------------------------------ jobs in processes

/// shared between the processes of one exploration
struct Board {
    base: usize,
}
const MSG: usize = 1 << 16;
impl Board {
    fn new() -> Board {
        Board { base: map_shared(4096 + MSG + 8 * 4096) }
    }
    fn ctr(&self, i: usize) -> &AtomicU64 {
        unsafe { &*((self.base + i * 64) as *const AtomicU64) }
    }
    fn next(&self) -> u64 {
        self.ctr(0).fetch_add(1, SeqCst)
    }
    fn runs(&self, n: u64) {
        self.ctr(1).fetch_add(n, Relaxed);
    }
    fn states(&self, n: u64) {
        self.ctr(2).fetch_add(n, Relaxed);
    }
    fn aux(&self) -> &AtomicU64 {
        self.ctr(4)
    }
    fn failed(&self) -> bool {
        self.ctr(3).load(Relaxed) != 0
    }
    fn fail(&self, hist: &str, exp: &str, got: &str) {
        if self.ctr(3).compare_exchange(0, 1, SeqCst, SeqCst).is_ok() {
            let s = format!("{}\u{0}{}\u{0}{}", hist, exp, got);
            let n = s.len().min(MSG - 16);
            unsafe {
                ((self.base + 4096) as *mut u64).write_volatile(n as u64);
                std::ptr::copy_nonoverlapping(s.as_ptr(), (self.base + 4096 + 16) as *mut u8, n);
            }
            self.ctr(3).store(2, SeqCst);
        }
    }
    fn message(&self) -> Option<(String, String, String)> {
        if self.ctr(3).load(SeqCst) == 0 {
            return None;
        }
        let s = unsafe {
            let n = ((self.base + 4096) as *const u64).read_volatile() as usize;
            String::from_utf8_lossy(std::slice::from_raw_parts((self.base + 4096 + 16) as *const u8, n)).into_owned()
        };
        let mut it = s.split('\0').map(|x| x.to_string());
        Some((it.next().unwrap_or_default(), it.next().unwrap_or_default(), it.next().unwrap_or_default()))
    }
}
/// run jobs 0..n in `procs` processes forked from this (single-threaded) one
fn fork_jobs(sh: &Shared, family: &'static str, n: u64, procs: usize, f: &dyn Fn(&Board, u64)) {
    if !sh.viol.lock().unwrap().is_empty() {
        return;
    }
    let b = Board::new();
    let mut pids = vec![];
    for _ in 0..procs {
        let pid = unsafe { fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let r = catch_unwind(AssertUnwindSafe(|| loop {
                let j = b.next();
                if j >= n || b.failed() {
                    break;
                }
                f(&b, j);
            }));
            unsafe { _exit(if r.is_ok() { 0 } else { 77 }) }
        }
        pids.push(pid);
    }
    let mut bad = None;
    let t0 = std::time::Instant::now();
    let lim = std::time::Duration::from_secs(if sh.thorough() { 3600 } else { 420 });
    while !pids.is_empty() {
        pids.retain(|p| {
            let mut st = 0;
            let r = unsafe { waitpid(*p, &mut st, 1) };
            if r == *p && st != 0 {
                bad = Some(st);
            }
            r != *p
        });
        if t0.elapsed() > lim {
            for p in &pids {
                unsafe { kill(*p, 9); }
            }
            panic!("{}: out of time", family);
        }
        std::thread::sleep(std::time::Duration::from_micros(500));
    }
    let mut c = Ctx::new(sh);
    c.family = family;
    let runs = b.ctr(1).load(SeqCst);
    c.st.traces += runs;
    c.st.states += b.ctr(2).load(SeqCst);
    c.st.transitions += runs;
    c.st.families.entry(family.to_string()).or_default().0 += runs;
    if let Some((h, e, g)) = b.message() {
        c.violate("parse#history", &h, "the outcome of a call depends on something other than its text", &e, &g);
    } else if let Some(st) = bad {
        if st == 77 << 8 {
            panic!("{}: a worker failed", family);
        }
        c.violate("parse#history", &format!("family {}", family), "a process running a history of calls died", "", &format!("wait status {:#x}", st));
    }
    unsafe {
        extern "C" {
            fn munmap(a: *mut u8, l: usize) -> i32;
        }
        munmap(b.base as *mut u8, 4096 + MSG + 8 * 4096);
    }
}
fn in_child(b: &Board, what: &dyn Fn() -> String, f: &dyn Fn()) {
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        let r = catch_unwind(AssertUnwindSafe(f));
        unsafe { _exit(if r.is_ok() { 0 } else { 77 }) }
    }
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0) };
    if st == 77 << 8 {
        unsafe { _exit(77) }
    }
    if st != 0 {
        b.fail(&what(), "the process survives", &format!("wait status {:#x}", st));
    }
}

fn describe(h: &[usize]) -> String {
    h.iter().map(|i| format!("{}({:?})", OPS[*i].e, OPS[*i].t)).collect::<Vec<_>>().join(" ; ")
}

pub fn c17(sh: &Shared) {
    IN_CODE.with(|c| c.set(true)); // panics of the library are observations here
    let procs = sh.threads;
    // reference: each call in a fresh process; and the model where it decides
    let refs: Vec<String> = {
        let mem = map_shared(OPS.len() * MSG);
        for (i, o) in OPS.iter().enumerate() {
            let pid = unsafe { fork() };
            if pid == 0 {
                let s = outcome(*o, o.t);
                unsafe {
                    let p = mem + i * MSG;
                    (p as *mut u64).write_volatile(s.len() as u64);
                    std::ptr::copy_nonoverlapping(s.as_ptr(), (p + 8) as *mut u8, s.len().min(MSG - 8));
                    _exit(0)
                }
            }
            let mut st = 0;
            unsafe { waitpid(pid, &mut st, 0) };
        }
        (0..OPS.len())
            .map(|i| unsafe {
                let p = mem + i * MSG;
                let n = (p as *const u64).read_volatile() as usize;
                String::from_utf8_lossy(std::slice::from_raw_parts((p + 8) as *const u8, n)).into_owned()
            })
            .collect()
    };
    {
        let mut c = Ctx::new(sh);
        c.family = "alphabet";
        c.st.traces += OPS.len() as u64;
        c.st.families.entry("alphabet".into()).or_default().0 += OPS.len() as u64;
        let v: Vec<String> = OPS.iter().zip(&refs).map(|(o, r)| format!("{}({:?}) -> {}", o.e, o.t, r.chars().take(60).collect::<String>())).collect();
        c.st.samples.insert("alphabet".into(), v);
        for r in &refs {
            c.outcome(r);
        }
    }
    let n = OPS.len();
    let check = |b: &Board, h: &[usize], text: &str| {
        let i = *h.last().unwrap();
        let got = outcome(OPS[i], text);
        b.runs(1);
        if got != refs[i] {
            b.fail(&describe(h), &refs[i], &got);
        }
    };
    // all histories up to the bound, as a tree of processes
    let depth = sh.q(3, 4);
    fn grow(b: &Board, n: usize, depth: usize, h: &mut Vec<usize>, check: &dyn Fn(&Board, &[usize], &str)) {
        // this process has executed h
        if h.len() == depth || b.failed() {
            return;
        }
        for i in 0..n {
            h.push(i);
            let hh = h.clone();
            in_child(b, &|| describe(&hh), &|| {
                let t = OPS[i].t.to_string();
                b.states(1);
                check(b, &hh, &t);
                grow(b, n, depth, &mut hh.clone(), check);
            });
            h.pop();
        }
    }
    let nn = if sh.thorough() { 16 } else { n };
    fork_jobs(sh, "histories", (nn * nn) as u64, procs, &|b, j| {
        let (i, k) = (j as usize / nn, j as usize % nn);
        in_child(b, &|| describe(&[i, k]), &|| {
            check(b, &[i], &OPS[i].t.to_string());
            check(b, &[i, k], &OPS[k].t.to_string());
            b.states(2);
            grow(b, nn, depth, &mut vec![i, k], &check);
        });
    });
    sh.note(format!("histories: all sequences of {} calls over {} calls, each prefix a process of its own", depth, nn));
    // one long history containing every sequence of 3 calls, without any reset (de Bruijn)
    let db = de_bruijn(n, 3);
    fork_jobs(sh, "one long history", 1, 1, &|b, _| {
        let mut last = vec![];
        for i in &db {
            last.push(*i);
            if last.len() > 4 {
                last.remove(0);
            }
            b.states(1);
            check(b, &last, &OPS[*i].t.to_string());
        }
    });
    sh.note(format!("one long history: {} calls containing every triple", db.len()));
    // pumping: one call repeated many times, every other call observed at ladder points
    let marks: Vec<u64> = crate::dict::sizes(200_000).map(|n| n as u64).collect();
    let top = sh.q(20_000u64, 200_000).max(marks.iter().max().map_or(0, |m| m + 2));
    fork_jobs(sh, "repetition", n as u64, procs, &|b, j| {
        let i = j as usize;
        let t = OPS[i].t.to_string();
        // nested attribute lists are re-read once per level: fewer repetitions of that one
        let top = if t.starts_with("[A([B") { top / 20 } else { top };
        for k in 1..=top {
            if b.failed() {
                return;
            }
            b.states(1);
            let got = outcome(OPS[i], &t);
            b.runs(1);
            if got != refs[i] {
                return b.fail(&format!("{} x {}", describe(&[i]), k), &refs[i], &got);
            }
            if k <= 40 || k.is_power_of_two() || (k + 1).is_power_of_two() || k % (top / 10) == 0 || [99, 100, 999, 1000, 9999, 10000].contains(&k) || marks.contains(&k) {
                in_child(b, &|| format!("{} x {}, then others", describe(&[i]), k), &|| {
                    for x in 0..n {
                        let got = outcome(OPS[x], &OPS[x].t.to_string());
                        b.runs(1);
                        if got != refs[x] {
                            b.fail(&format!("{} x {} ; then {}", describe(&[i]), k, describe(&(0..=x).collect::<Vec<_>>())), &refs[x], &got);
                        }
                    }
                });
            }
        }
    });
    sh.note(format!("repetition: each call up to {} times, all others observed in between", top));
    // buffers: alignment, surroundings, guard pages, reuse of one buffer
    fork_jobs(sh, "buffers", n as u64, procs, &|b, j| {
        let i = j as usize;
        let t = OPS[i].t;
        for off in 0..64 {
            for (pre, post) in [(" ", " "), ("a", "b"), ("/*", "*/"), ("\"", "\""), ("_", "_"), ("<", ">"), ("//", "\n"), ("0", "1"), ("}", ";")] {
                let mut s = String::new();
                while s.len() < off {
                    s.push_str(pre);
                }
                s.truncate(off.max(s.len().min(off)));
                let at = s.len();
                s.push_str(t);
                for _ in 0..8 {
                    s.push_str(post);
                }
                let got = outcome(OPS[i], &s[at..at + t.len()]);
                b.runs(1);
                b.states(1);
                if got != refs[i] {
                    return b.fail(&format!("{} as the middle of {:?}", describe(&[i]), s), &refs[i], &got);
                }
            }
        }
        // text ending right before, or starting right after, an unreadable page
        unsafe {
            let m = map_shared(3 * 4096);
            mprotect((m + 8192) as *mut u8, 4096, 0);
            mprotect(m as *mut u8, 4096, 0);
            for at in [m + 8192 - t.len(), m + 4096] {
                std::ptr::copy_nonoverlapping(t.as_ptr(), at as *mut u8, t.len());
                let s = std::str::from_utf8(std::slice::from_raw_parts(at as *const u8, t.len())).unwrap();
                let got = outcome(OPS[i], s);
                b.runs(1);
                b.states(1);
                if got != refs[i] {
                    return b.fail(&format!("{} at a page boundary", describe(&[i])), &refs[i], &got);
                }
            }
        }
        // the same address and length, other content in between
        for k in 0..n {
            let len = t.len().max(OPS[k].t.len());
            let mut buf = vec![b' '; len];
            for who in [i, k, i, i, k] {
                let x = OPS[who].t.as_bytes();
                // same length only where trailing blanks are immaterial; otherwise exact slices
                for y in buf.iter_mut() {
                    *y = b' ';
                }
                buf[..x.len()].copy_from_slice(x);
                let s = std::str::from_utf8(&buf[..x.len()]).unwrap();
                let got = outcome(OPS[who], s);
                b.runs(1);
                b.states(1);
                if got != refs[who] {
                    return b.fail(&format!("one buffer holding in turn {}", describe(&[i, k, i, i, k])), &refs[who], &got);
                }
            }
        }
    });
    // texts of equal length: any two, one after the other, in one reused buffer and in fresh ones;
    // the reference is the outcome in a process that parsed nothing else
    let width = 24;
    let mut texts: Vec<String> = vec![];
    {
        let pieces = ["", " ", "/**/", "/*a*/", "/* bc */", "//x\n", "//", "a", "ab", "_a", "@", "\"s\"", "a includes b;", "enum a{\"b\"};", "typedef a b;", "typedef long b;", "typedef long long b;",
            "interface a{};", "[A]", "[AB]", "a{", "};", "partial ", "callback ", "unsigned ", "sequence<", "/* a */a", "/* bc*/b", "0x1", "1.5"];
        let mut put = |s: String| {
            if s.len() <= width {
                let pad = " ".repeat(width - s.len());
                texts.push(format!("{}{}", s, pad));
                texts.push(format!("{}{}", pad, s));
            }
        };
        for a in pieces {
            for b in pieces {
                put(format!("{}{}", a, b));
                if sh.thorough() {
                    for c in ["/**/", "/*ab*/", "a", ";", "{};", "//y\n"] {
                        put(format!("{}{}{}", a, b, c));
                    }
                }
            }
        }
        texts.sort();
        texts.dedup();
    }
    let nt = texts.len();
    let fresh: Vec<String> = {
        const W: usize = 4096;
        let mem = map_shared(nt * W);
        let per = 16;
        fork_jobs(sh, "equal lengths/reference", ((nt + per - 1) / per) as u64, procs, &|b, j| {
            for i in j as usize * per..(nt.min((j as usize + 1) * per)) {
                in_child(b, &|| texts[i].clone(), &|| {
                    let s = outcome(op("parse", ""), &texts[i].to_string());
                    assert!(s.len() < W - 8);
                    b.runs(1);
                    unsafe {
                        ((mem + i * W) as *mut u64).write_volatile(s.len() as u64);
                        std::ptr::copy_nonoverlapping(s.as_ptr(), (mem + i * W + 8) as *mut u8, s.len());
                    }
                });
            }
        });
        (0..nt).map(|i| unsafe {
            let p = mem + i * W;
            String::from_utf8_lossy(std::slice::from_raw_parts((p + 8) as *const u8, (p as *const u64).read_volatile() as usize)).into_owned()
        }).collect()
    };
    fork_jobs(sh, "equal lengths", nt as u64, procs, &|b, j| {
        let x = j as usize;
        let mut buf = vec![b' '; width];
        let mut see = |who: usize, with: usize, same: bool| -> bool {
            let got = if same {
                buf.copy_from_slice(texts[who].as_bytes());
                outcome(op("parse", ""), std::str::from_utf8(&buf).unwrap())
            } else {
                outcome(op("parse", ""), &texts[who].to_string())
            };
            if got != fresh[who] {
                b.fail(&format!("{:?} before or after {:?}, {}", texts[who], texts[with], if same { "in the same buffer" } else { "in other buffers" }), &fresh[who], &got);
            }
            !b.failed()
        };
        for y in 0..nt {
            for same in [true, false] {
                if !(see(x, y, same) && see(y, x, same)) {
                    return;
                }
            }
            b.runs(4);
            b.states(2);
        }
    });
    sh.note(format!("equal lengths: all ordered pairs of {} texts of {} bytes, in one buffer and in fresh ones", nt, width));
    // near misses of each other: a list of documents and all their single-character replacements,
    // in one order and in the opposite order, in processes of their own
    let lists: Vec<Vec<String>> = crate::props::bases(1, false).iter().step_by(sh.q(3, 1)).map(|d| {
        let s = layout(&d.toks, Layout::Min);
        let cs: Vec<char> = s.chars().collect();
        let mut v = vec![s.clone()];
        for i in 0..cs.len() {
            for r in ['a', 'b', 'Z', '_', '0', ' ', ';', '"', '/'] {
                if cs[i] != r {
                    let mut x = cs.clone();
                    x[i] = r;
                    v.push(x.into_iter().collect());
                }
            }
            if i + 1 < cs.len() && cs[i] != cs[i + 1] {
                let mut x = cs.clone();
                x.swap(i, i + 1);
                v.push(x.into_iter().collect());
            }
        }
        v
    }).collect();
    {
        let total: usize = lists.iter().map(|l| l.len()).sum();
        let mem = map_shared(total * 16);
        let at: Vec<usize> = lists.iter().scan(0, |s, l| { let r = *s; *s += l.len(); Some(r) }).collect();
        fork_jobs(sh, "near misses", 2, 2, &|b, j| {
            let go = |k: usize, i: usize| {
                let s = outcome(op("parse", ""), &lists[k][i].to_string());
                b.runs(1);
                b.states(1);
                unsafe { ((mem + (at[k] + i) * 16 + j as usize * 8) as *mut u64).write_volatile(ev_hash(&s) | 1) };
            };
            if j == 0 {
                for k in 0..lists.len() { for i in 0..lists[k].len() { go(k, i) } }
            } else {
                for k in (0..lists.len()).rev() { for i in (0..lists[k].len()).rev() { go(k, i) } }
            }
        });
        fork_jobs(sh, "near misses", lists.len() as u64, procs, &|b, j| {
            let k = j as usize;
            for i in 0..lists[k].len() {
                let p = mem + (at[k] + i) * 16;
                let (f, r) = unsafe { ((p as *const u64).read_volatile(), ((p + 8) as *const u64).read_volatile()) };
                if f != r {
                    let s = outcome(op("parse", ""), &lists[k][i].to_string());
                    return b.fail(&format!("{:?} among its near misses, in one order and in the opposite order", lists[k][i]), &format!("one outcome (here {})", s), "two outcomes");
                }
            }
        });
        sh.note(format!("near misses: {} texts (all replacements by 9 characters and transpositions in {} documents), in both orders, in two processes", total, lists.len()));
    }
    sh.note("buffers: 64 alignments x 9 surroundings, guard pages, reuse of one buffer with every pair".into());
    // results already obtained
    fork_jobs(sh, "earlier results", n as u64, procs, &|b, j| {
        let i = j as usize;
        if OPS[i].e != "parse" {
            return;
        }
        let t = OPS[i].t.to_string();
        if let Ok(d) = weedle::parse(&t) {
            let ev = |d: &weedle::Definitions| {
                let mut o = Out::default();
                d.walk(&mut o);
                o.ev
            };
            let first = ev(&d);
            let copy = d.clone();
            for k in 0..n {
                for l in 0..n {
                    let (x, y) = (OPS[k].t.to_string(), OPS[l].t.to_string());
                    outcome(OPS[k], &x);
                    drop(x);
                    outcome(OPS[l], &y);
                    b.runs(2);
                    b.states(1);
                    if ev(&d) != first || d != copy {
                        return b.fail(&format!("result of {} after {}", describe(&[i]), describe(&[k, l])), &first, &ev(&d));
                    }
                }
            }
        }
    });
    // threads: each call of a history on the main, one of two long-lived, or a fresh thread
    fork_jobs(sh, "histories over threads", (n * n) as u64, procs, &|b, j| {
        let (i, k) = (j as usize / n, j as usize % n);
        for assign in 0..16 {
            let h = [i, k, i, k];
            in_child(b, &|| format!("{} over threads, assignment {}", describe(&h), assign), &|| {
                let (tx1, rx1) = std::sync::mpsc::channel::<usize>();
                let (tx2, rx2) = std::sync::mpsc::channel::<usize>();
                let (rtx, rrx) = std::sync::mpsc::channel::<String>();
                let spawn = |rx: std::sync::mpsc::Receiver<usize>, r: std::sync::mpsc::Sender<String>| {
                    std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                        IN_CODE.with(|c| c.set(true));
                        for i in rx {
                            let _ = r.send(outcome(OPS[i], &OPS[i].t.to_string()));
                        }
                    }).unwrap()
                };
                let _a = spawn(rx1, rtx.clone());
                let _b = spawn(rx2, rtx.clone());
                // positions 0..2 from `assign`, the rest alternate
                for (pos, &x) in h.iter().enumerate() {
                    let who = match pos { 0 => assign % 4, 1 => assign / 4, 2 => (assign + 1) % 4, _ => (assign / 4 + 2) % 4 };
                    let got = match who {
                        0 => outcome(OPS[x], &OPS[x].t.to_string()),
                        1 => { tx1.send(x).unwrap(); rrx.recv().unwrap() }
                        2 => { tx2.send(x).unwrap(); rrx.recv().unwrap() }
                        _ => std::thread::spawn(move || { IN_CODE.with(|c| c.set(true)); outcome(OPS[x], &OPS[x].t.to_string()) }).join().unwrap(),
                    };
                    b.runs(1);
                    b.states(1);
                    if got != refs[x] {
                        b.fail(&format!("{} over threads, assignment {}", describe(&h[..=pos]), assign), &refs[x], &got);
                    }
                }
            });
        }
    });
    sh.note("histories over threads: every pair of calls, twice, over 16 assignments to main, two long-lived and fresh threads".into());
    again(sh, procs);
    within(sh, procs, &refs);
    long_misses(sh, procs);
    ambient(sh, procs);
    #[cfg(feature = "sched")]
    sched::explore(sh, &refs);
    IN_CODE.with(|c| c.set(false));
    let _ = kind_of;
}

// ------------------------------------------------------------------ what surrounds the process

/// 0: the real clock; 1: every reading an hour after the last; 2: stopped at zero; 3: far in the future
static CLOCK: AtomicU64 = AtomicU64::new(0);
static READINGS: AtomicU64 = AtomicU64::new(0);
/// 0: the kernel's random bytes; 1: zeros; 2: ones; 3: counting
static RANDOM: AtomicU64 = AtomicU64::new(0);
extern "C" {
    fn syscall(n: i64, a: usize, b: usize, c: usize) -> i64;
}
/// stands in for the C library's function in this program
#[cfg(all(feature = "sched", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    match CLOCK.load(Relaxed) {
        0 => syscall(228, id as usize, ts as usize, 0) as i32,
        m => {
            let k = READINGS.fetch_add(1, Relaxed) as i64;
            *ts = match m { 1 => [1_000_000_000 + k * 3600, 0], 2 => [0, 0], _ => [4_200_000_000, 999_999_999] };
            0
        }
    }
}
#[cfg(all(feature = "sched", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    match RANDOM.load(Relaxed) {
        0 => syscall(318, buf as usize, n, flags as usize) as isize,
        m => {
            for i in 0..n {
                let k = READINGS.fetch_add(1, Relaxed);
                *buf.add(i) = match m { 1 => 0, 2 => 255, _ => k as u8 };
            }
            n as isize
        }
    }
}
/// environment, working directory, clock, random source, thread name and unwinding are no inputs
fn ambient(sh: &Shared, procs: usize) {
    let mut texts: Vec<(Op, String)> = OPS.iter().map(|o| (*o, o.t.to_string())).collect();
    for d in crate::props::bases(1, true) {
        for l in [Layout::Min, Layout::Mixed] {
            texts.push((op("parse", ""), layout(&d.toks, l)));
        }
        if sh.thorough() || d.toks.len() < 12 {
            for i in 0..d.toks.len() {
                let t: Vec<Tok> = d.toks.iter().enumerate().filter(|x| x.0 != i).map(|x| *x.1).collect();
                texts.push((op("parse", ""), layout(&t, Layout::Space)));
            }
        }
    }
    texts.extend(crate::props2::confusables().into_iter().map(|t| (op("parse", ""), t)));
    for h in ["a%s includes b;", "%s", "typedef sequence<a%s> b;", "enum a{\"b\"%s};", "interface a{const long b=1%s;};"] {
        for w in [" ", "\t", "\r", "\n", "\r\n", "//\n", "// x\r\n", "/**/", "/* * */", "/*//*/", "//", "/*", "*/", "/", "\u{a0}", "\u{feff}", "\u{2028}", "\0", "\u{b}", "\u{c}", "#", "`", "\u{e9}", "_", "-", "\\"] {
            texts.push((op("parse", ""), h.replace("%s", w)));
        }
    }
    let alpha = crate::props::all_tokens();
    for d in crate::props::small_bases() {
        crate::props::token_edits(&d.toks, &alpha, &mut |t| texts.push((op("parse", ""), layout(t, Layout::Min))));
    }
    texts.sort_by(|a, b| (a.0.e, &a.1).cmp(&(b.0.e, &b.1)));
    texts.dedup_by(|a, b| a.0.e == b.0.e && a.1 == b.1);
    let k = texts.len();
    // the reference, each text in the ordinary surroundings
    let mem = map_shared(8 * k);
    let at = |i: usize| unsafe { &*((mem + 8 * i) as *const AtomicU64) };
    let slice = 256;
    fork_jobs(sh, "surroundings", ((k + slice - 1) / slice) as u64, procs, &|b, j| {
        for i in j as usize * slice..k.min((j as usize + 1) * slice) {
            at(i).store(ev_hash(&outcome(texts[i].0, &texts[i].1)), Relaxed);
            b.runs(1);
        }
    });
    let d = crate::dict::dict();
    let mut vars: Vec<&str> = d.magic.clone();
    vars.extend(d.words.iter().filter(|w| w.len() > 2 && !w.bytes().any(|c| c.is_ascii_lowercase())));
    vars.extend(["LANG", "LC_ALL", "LC_CTYPE", "TZ", "HOME", "PATH", "USER", "TERM", "DEBUG", "RUST_LOG", "RUST_BACKTRACE", "CI", "NO_COLOR", "TMPDIR", "PWD"]);
    let mut ways: Vec<(String, Box<dyn Fn()>)> = vec![("no environment".into(), Box::new(|| {
        for (v, _) in std::env::vars_os() { std::env::remove_var(v) }
    }))];
    for val in ["", "0", "1", "true", "off", "C", "tr_TR.UTF-8", "18446744073709551616"] {
        let vars = vars.clone();
        ways.push((format!("every name of the source set to {:?} in the environment", val), Box::new(move || vars.iter().for_each(|v| std::env::set_var(v, val)))));
    }
    ways.push(("working directory /".into(), Box::new(|| std::env::set_current_dir("/").unwrap())));
    for m in 1..4 {
        ways.push((format!("clock {}", ["", "advancing an hour per reading", "at zero", "in 2103"][m]), Box::new(move || CLOCK.store(m as u64, Relaxed))));
        ways.push((format!("random source {}", ["", "zeros", "ones", "counting"][m]), Box::new(move || RANDOM.store(m as u64, Relaxed))));
    }
    let plain = ways.len();
    let mut names: Vec<&str> = vec!["main", "", "worker", "tokio-runtime-worker", "test", "rayon"];
    names.extend(&d.magic);
    let total = plain + names.len() + 1;
    fork_jobs(sh, "surroundings", total as u64, procs, &|b, j| {
        let j = j as usize;
        let what = if j < plain { ways[j].0.clone() } else if j < plain + names.len() { format!("thread named {:?}", names[j - plain]) } else { "while unwinding".into() };
        let all = || {
            for (i, (o, t)) in texts.iter().enumerate() {
                b.runs(1);
                b.states(1);
                let got = outcome(*o, t);
                if ev_hash(&got) != at(i).load(Relaxed) {
                    return b.fail(&format!("{}: {}({:?})", what, o.e, t), "the outcome in ordinary surroundings", &got);
                }
            }
        };
        in_child(b, &|| what.clone(), &|| {
            if j < plain {
                ways[j].1();
                all();
            } else if j < plain + names.len() {
                std::thread::scope(|s| {
                    let h = std::thread::Builder::new().name(names[j - plain].to_string()).stack_size(64 << 20).spawn_scoped(s, || { IN_CODE.with(|c| c.set(true)); all() });
                    let _ = h.unwrap().join();
                });
            } else {
                struct Late<F: Fn()>(F);
                impl<F: Fn()> Drop for Late<F> {
                    fn drop(&mut self) { (self.0)() }
                }
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    let _late = Late(&all);
                    std::panic::resume_unwind(Box::new(()));
                }));
            }
        });
    });
    sh.note(format!("surroundings: {} texts in {} surroundings (environment, {} variable names, working directory, clock, random source, thread names, unwinding)", k, total, vars.len()));
}

/// every text many times in a row, in one process that has seen the others before: always the same outcome
fn again(sh: &Shared, procs: usize) {
    let mut texts: Vec<String> = vec![];
    let al: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_', '-']).collect();
    let mut names: Vec<String> = al[..52].iter().map(|c| c.to_string()).collect();
    for a in &al[..52] {
        for b in &al {
            names.push(format!("{}{}", a, b));
            names.push(format!("{}{}k", a, b));
        }
    }
    let d = crate::dict::dict();
    for w in d.magic.iter().chain(&d.words).chain(&d.strings) {
        names.extend(crate::props2::around(w));
    }
    names.sort();
    names.dedup();
    for n in &names {
        if match_ident(n.as_bytes()) == Some(n.len()) {
            texts.push(format!("typedef {} x{};", n, n));
            texts.push(format!("[{}]interface {}{{attribute long {};}};", n, n, n));
        }
        if !n.contains('"') {
            texts.push(format!("enum a{{\"{}\"}};", n));
        }
    }
    for d in crate::props::bases(1, true) {
        texts.push(layout(&d.toks, Layout::Min));
        texts.push(layout(&d.toks, Layout::Mixed));
    }
    for d in crate::props::small_bases() {
        for i in 0..d.toks.len() {
            let t: Vec<Tok> = d.toks.iter().enumerate().filter(|x| x.0 != i).map(|x| *x.1).collect();
            texts.push(layout(&t, Layout::Space));
        }
    }
    for i in 0..sh.q(300u32, 2000) {
        texts.push(format!("dictionary a{{long b={};double c={}.{};long d=0x{:x};long e=-0{:o};}};", i, i, i, i, i));
    }
    texts.sort();
    texts.dedup();
    let reps = sh.q(24, 140);
    let slice = 512;
    let k = texts.len();
    fork_jobs(sh, "the same text again", ((k + slice - 1) / slice) as u64, procs, &|b, j| {
        for t in &texts[j as usize * slice..k.min((j as usize + 1) * slice)] {
            let first = outcome(op("parse", ""), t);
            b.states(1);
            for r in 1..reps {
                let got = outcome(op("parse", ""), t);
                b.runs(1);
                if got != first {
                    return b.fail(&format!("{:?}, time {} in a row", t, r + 1), &first, &got);
                }
            }
        }
    });
    sh.note(format!("the same text again: {} texts, {} times in a row each", k, reps));
}

// ------------------------------------------------------------------ calls made from inside a call

thread_local! {
    /// what the element below does when its turn comes: (call, levels of blocks in between, panic at which turn)
    static INNER: std::cell::Cell<(usize, usize, usize)> = const { std::cell::Cell::new((0, 0, usize::MAX)) };
    static TURNS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static SEEN: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}
/// an element parser of a caller: reads one `a`, and parses another text meanwhile
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Busy;
impl<'a> weedle::Parse<'a> for Busy {
    fn parse(i: &'a str) -> weedle::IResult<&'a str, Self> {
        let (k, depth, at) = INNER.with(|x| x.get());
        let turn = TURNS.with(|x| { x.set(x.get() + 1); x.get() - 1 });
        if turn == at {
            std::panic::resume_unwind(Box::new("the caller's own"));
        }
        if depth > 0 {
            INNER.with(|x| x.set((k, depth - 1, at)));
            let r = <Vec<(Busy, weedle::term::Comma)> as weedle::Parse>::parse("a,").map(|x| x.1.len());
            INNER.with(|x| x.set((k, depth, at)));
            if r != Ok(1) {
                SEEN.with(|s| s.borrow_mut().push(format!("a list inside a call: {:?}", r)));
            }
        } else {
            let got = outcome(OPS[k], OPS[k].t);
            SEEN.with(|s| s.borrow_mut().push(got));
        }
        match i.trim_start().strip_prefix('a') {
            Some(r) => Ok((r, Busy)),
            None => Err(weedle::Err::Error((i, weedle::ErrorKind::Tag))),
        }
    }
}
/// calls made by a caller's own element parser while a building block is under way, and calls after
/// such an element panicked
fn within(sh: &Shared, procs: usize, refs: &[String]) {
    use weedle::common::*;
    use weedle::term;
    type P<'a> = &'a dyn Fn() -> String;
    fn run<'a, T: weedle::Parse<'a> + std::fmt::Debug>(s: &'a str) -> String { format!("{:?}", T::parse(s)) }
    macro_rules! blocks { ($($s:literal $t:ty),* $(,)?) => { vec![$( (concat!(stringify!($t), " on ", $s), Box::new(|| run::<$t>($s)) as Box<dyn Fn() -> String>) ),*] } }
    let blocks: Vec<(&'static str, Box<dyn Fn() -> String>)> = blocks![
        "a" Option<Busy>, "b" Option<Busy>, "a" Box<Busy>, "aab" Vec<Busy>, "aaaa" Vec<(Busy, Busy)>, "aa" (Busy, Busy), "aaa" (Busy, Busy, Busy), "ab" (Busy, Busy),
        "(a)" Parenthesized<Busy>, "[a]" Bracketed<Busy>, "{a}" Braced<Busy>, "<a>" Generics<Busy>, "(a" Parenthesized<Busy>, "<<a>>" Generics<Generics<Busy>>,
        "a?" weedle::types::MayBeNull<Busy>, "a,a,a" Punctuated<Busy, term::Comma>, "a,a,b" Punctuated<Busy, term::Comma>, "b" Punctuated<Busy, term::Comma>,
        "bacad" Punctuated<Identifier<'_>, Busy>, "a,a," PunctuatedNonEmpty<Busy, term::Comma>, "[a,(a)]" Bracketed<(Busy, term::Comma, Parenthesized<Busy>)>,
        "{(a)(a)}" Braced<Vec<Parenthesized<Busy>>>, "([{<a>}])" Parenthesized<Bracketed<Braced<Generics<Busy>>>>, "a or a or a" Parenthesized<Punctuated<Busy, term::Or>>,
        "(a or a or a)" Parenthesized<Punctuated<Busy, term::Or>>, "sequence<a>" (term::Sequence, Generics<Busy>), "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa" Vec<Busy>,
    ];
    let k = OPS.len();
    let nb = blocks.len();
    extern "C" { fn alarm(n: u32) -> u32; }
    // the plain outcome of each block: the element with a harmless call
    fork_jobs(sh, "calls inside calls", (nb * k) as u64, procs, &|b, j| {
        let (x, i) = (j as usize / k, j as usize % k);
        let what = |how: String| format!("{}({:?}) {} {}", OPS[i].e, OPS[i].t, how, blocks[x].0);
        in_child(b, &|| what("called by an element of".into()), &|| {
            unsafe { alarm(60); }
            INNER.with(|c| c.set((6, 0, usize::MAX)));
            let plain = (blocks[x].1)();
            for depth in 0..3 {
                INNER.with(|c| c.set((i, depth, usize::MAX)));
                TURNS.with(|c| c.set(0));
                SEEN.with(|s| s.borrow_mut().clear());
                let p: P = &*blocks[x].1;
                let got = p();
                b.runs(1);
                b.states(1);
                if got != plain {
                    return b.fail(&what(format!("called ({} blocks deep) by an element of", depth)), &plain, &got);
                }
                let seen = SEEN.with(|s| s.borrow().clone());
                b.runs(seen.len() as u64);
                for g in seen {
                    if g != refs[i] {
                        return b.fail(&what(format!("called ({} blocks deep) by an element of", depth)), &refs[i], &g);
                    }
                }
            }
            let turns = TURNS.with(|c| c.get()).min(6);
            // many panics in a row leave nothing behind either
            if i < 3 {
                for _ in 0..3000 {
                    INNER.with(|c| c.set((6, 0, 0)));
                    TURNS.with(|c| c.set(0));
                    let _ = catch_unwind(AssertUnwindSafe(|| (blocks[x].1)()));
                    b.runs(1);
                }
            }
            for at in 0..turns {
                INNER.with(|c| c.set((i, at % 3, at)));
                TURNS.with(|c| c.set(0));
                let _ = catch_unwind(AssertUnwindSafe(|| (blocks[x].1)()));
                INNER.with(|c| c.set((6, 0, usize::MAX)));
                b.states(1);
                let again = (blocks[x].1)();
                if again != plain {
                    return b.fail(&what(format!("after a panic at turn {} of an element of", at)), &plain, &again);
                }
                for (q, o) in OPS.iter().enumerate() {
                    let got = outcome(*o, o.t);
                    b.runs(1);
                    if got != refs[q] {
                        return b.fail(&format!("{}({:?}) after a panic at turn {} of an element of {}", o.e, o.t, at, blocks[x].0), &refs[q], &got);
                    }
                }
            }
        });
    });
    sh.note(format!("calls inside calls: {} calls made by a caller's element parser inside {} compositions of building blocks, 0-2 blocks deep, and after such an element panicked", k, nb));
}
/// long documents which differ in one place only, in both orders, in fresh buffers and in one buffer
fn long_misses(sh: &Shared, procs: usize) {
    let rep = |n: usize, f: &dyn Fn(usize) -> String| (0..n).map(|i| f(i)).collect::<String>();
    let mut docs: Vec<String> = vec![];
    for n in sh.q(vec![300usize, 1100, 4200, 9000, 40000], vec![300, 600, 1100, 2100, 4200, 9000, 17000, 40000, 70000]) {
        docs.push(rep(n / 14, &|i| format!("a{} includes b;", i % 7)));
        docs.push(format!("interface a{{{}}};", rep(n / 24, &|i| format!("long ab{}(any c,any d);\n", i % 9))));
        docs.push(format!("// {}\nenum a{{{}\"z\"}};", "xy ".repeat(n / 6), rep(n / 16, &|i| format!("\"v{}\",", i % 10))));
        docs.push(format!("typedef {}ab{} c;", "sequence<".repeat((n / 10).min(300)), ">".repeat((n / 10).min(300))));
        docs.push(format!("typedef long {};", "ab_9-".repeat(n / 5)));
        docs.push(format!("[A(any a{}),B]c includes d;", rep(n / 8, &|_| ",any ab".into())));
    }
    let lists: Vec<Vec<String>> = docs.iter().map(|d| {
        let bytes = d.as_bytes();
        let places = sh.q(60, 200).min(bytes.len());
        let mut at: Vec<usize> = (0..places).map(|i| i * bytes.len() / places).chain(bytes.len() - 3..bytes.len()).collect();
        // and the first name character behind each
        let more: Vec<usize> = at.iter().filter_map(|p| (*p..bytes.len()).find(|q| matches!(bytes[*q], b'a' | b'b' | b'x' | b'v' | b'0'..=b'9'))).collect();
        at.extend(more);
        at.sort();
        at.dedup();
        let mut v = vec![d.clone()];
        for p in at {
            let r = match bytes[p] { b'a' => b'b', b'b' => b'a', b'0'..=b'8' => bytes[p] + 1, b'9' => b'8', b'\n' => b' ', b' ' => b'\n', b'x' => b'z', b';' => b'!', _ => b'q' };
            let mut x = bytes.to_vec();
            x[p] = r;
            v.push(String::from_utf8(x).unwrap());
        }
        v
    }).collect();
    let total: usize = lists.iter().map(|l| l.len()).sum();
    let at: Vec<usize> = lists.iter().scan(0, |s, l| { let r = *s; *s += l.len(); Some(r) }).collect();
    let mem = map_shared(total * 40);
    // five histories: fresh process per text (reference), then both orders in fresh buffers and in one buffer
    fork_jobs(sh, "long near misses", (lists.len() * 5) as u64, procs, &|b, j| {
        let (k, way) = (j as usize / 5, j as usize % 5);
        let put = |i: usize, s: String| {
            b.runs(1);
            b.states(1);
            unsafe { ((mem + (at[k] + i) * 40 + way * 8) as *mut u64).write_volatile(ev_hash(&s) | 1) };
        };
        if way == 0 {
            for i in 0..lists[k].len() {
                in_child(b, &|| lists[k][i].clone(), &|| put(i, outcome(op("parse", ""), &lists[k][i])));
            }
        } else {
            in_child(b, &|| lists[k][0].clone(), &|| {
                let mut buf = lists[k][0].clone().into_bytes();
                let n = lists[k].len();
                for i in 0..n {
                    let i = if way % 2 == 0 { n - 1 - i } else { i };
                    let s = if way < 3 { outcome(op("parse", ""), &lists[k][i].to_string()) } else {
                        buf.copy_from_slice(lists[k][i].as_bytes());
                        outcome(op("parse", ""), std::str::from_utf8(&buf).unwrap())
                    };
                    put(i, s);
                }
            });
        }
    });
    fork_jobs(sh, "long near misses", lists.len() as u64, procs, &|b, j| {
        let k = j as usize;
        for i in 0..lists[k].len() {
            let h: Vec<u64> = (0..5).map(|w| unsafe { ((mem + (at[k] + i) * 40 + w * 8) as *const u64).read_volatile() }).collect();
            if let Some(w) = (1..5).find(|w| h[*w] != h[0]) {
                let how = ["", "after its neighbours", "after its neighbours in the opposite order", "in the buffer of its neighbours", "in the buffer of its neighbours, in the opposite order"][w];
                return b.fail(&format!("{:?} {}", lists[k][i], how), "the outcome in a process of its own", "another outcome");
            }
        }
    });
    sh.note(format!("long near misses: {} texts of up to {} bytes differing in one place from {} documents, each alone, in both orders, and in one buffer", total, lists.iter().map(|l| l[0].len()).max().unwrap(), lists.len()));
}

fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    // greedy "prefer largest"-free construction: Lyndon words (FKM)
    let mut a = vec![0; k * n];
    let mut seq = vec![];
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, seq: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                seq.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, seq);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, k, n, a, seq);
            }
        }
    }
    db(1, 1, k, n, &mut a, &mut seq);
    let head: Vec<usize> = seq[..n - 1].to_vec();
    seq.extend(head);
    seq
}

// ------------------------------------------------------------------ controlled scheduler

#[cfg(feature = "sched")]
pub mod sched {
    use super::*;
    use std::cell::Cell;
    use std::sync::atomic::{AtomicBool, AtomicUsize};

    thread_local! {
        static ME: Cell<usize> = const { Cell::new(0) };
        /// basic blocks this thread has entered
        pub static COUNT: Cell<u64> = const { Cell::new(0) };
    }
    static ACTIVE: AtomicBool = AtomicBool::new(false);
    /// whose turn it is (1 or 2)
    static TURN: AtomicUsize = AtomicUsize::new(0);
    /// steps the running thread may still take before it hands over
    static LEFT: AtomicU64 = AtomicU64::new(0);
    /// budget given to the other thread at the next handover
    static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
    static STARTED: [AtomicBool; 3] = [AtomicBool::new(false), AtomicBool::new(false), AtomicBool::new(false)];
    static DONE: [AtomicBool; 3] = [AtomicBool::new(false), AtomicBool::new(false), AtomicBool::new(false)];
    static STEPS: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];

    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_a: *mut u32, _b: *mut u32) {}
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) {
        if !ACTIVE.load(Relaxed) {
            COUNT.with(|c| c.set(c.get() + 1));
            return;
        }
        let me = ME.with(|m| m.get());
        if me != 0 {
            point(me);
        }
    }
    static TID: [AtomicUsize; 3] = [AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)];
    extern "C" {
        fn gettid() -> i32;
    }
    /// the thread sleeps in the kernel: it waits for something the other one holds
    fn asleep(who: usize) -> bool {
        let mut buf = [0u8; 512];
        let path = format!("/proc/self/task/{}/stat", TID[who].load(Relaxed));
        let n = std::fs::File::open(path).and_then(|mut f| std::io::Read::read(&mut f, &mut buf)).unwrap_or(0);
        let s = &buf[..n];
        match s.iter().rposition(|b| *b == b')') {
            Some(i) => s.get(i + 2) == Some(&b'S'),
            None => false,
        }
    }
    fn wait(me: usize) {
        let other = 3 - me;
        let mut n = 0u32;
        let mut idle = (u64::MAX, 0);
        while TURN.load(Acquire) != me {
            n += 1;
            if n > 2000 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
            // the library may come to use locks: a thread that blocks on one held by the preempted
            // thread is not enabled, so the preempted thread goes on
            if n > 2000 && n % 256 == 0 && TURN.load(Acquire) == other && ME.with(|m| m.get()) == me && !DONE[other].load(Relaxed) {
                let s = STEPS[other].load(Relaxed);
                if STARTED[other].load(Relaxed) && asleep(other) && idle.0 == s {
                    idle.1 += 1;
                    if idle.1 >= 3 && TURN.compare_exchange(other, me, SeqCst, SeqCst).is_ok() {
                        LEFT.store(u64::MAX, Relaxed);
                        NEXT.store(u64::MAX, Relaxed);
                        return;
                    }
                } else {
                    idle = (s, 0);
                }
            }
        }
    }
    fn point(me: usize) {
        if TURN.load(Acquire) != me {
            wait(me); // woken up from a lock
        }
        STEPS[me].fetch_add(1, Relaxed);
        let l = LEFT.load(Relaxed);
        if l == 0 {
            let other = 3 - me;
            if !DONE[other].load(Relaxed) {
                LEFT.store(NEXT.swap(u64::MAX, Relaxed), Relaxed);
                TURN.store(other, Release);
                wait(me);
                return;
            }
            LEFT.store(u64::MAX, Relaxed);
        } else if l != u64::MAX {
            LEFT.store(l - 1, Relaxed);
        }
    }
    fn finish(me: usize) {
        DONE[me].store(true, Relaxed);
        LEFT.store(u64::MAX, Relaxed);
        TURN.store(3 - me, Release);
    }
    /// nests of many depths, accepted and broken off
    fn deep() -> &'static [(Op, usize)] {
        static D: std::sync::OnceLock<Vec<(Op, usize)>> = std::sync::OnceLock::new();
        D.get_or_init(|| {
            let mut v = vec![];
            for (w, z) in [("sequence<", ">"), ("(a or ", ")"), ("record<DOMString,", ">?"), ("Promise<", ">")] {
                for d in [10usize, 20, 40, 70, 130, 250, 480, 900, 1700, 3000] {
                    if d > 900 && w != "sequence<" {
                        continue;
                    }
                    v.push((op("parse", Box::leak(format!("typedef {}b{} c;", w.repeat(d), z.repeat(d)).into_boxed_str())), d));
                    v.push((op("parse", Box::leak(format!("typedef {}@", w.repeat(d)).into_boxed_str())), d));
                }
            }
            v
        })
    }
    fn call(i: usize) -> Op {
        if i < OPS.len() { OPS[i] } else { deep()[i - OPS.len()].0 }
    }
    struct Pair {
        tx: [std::sync::mpsc::Sender<usize>; 2],
        rx: std::sync::mpsc::Receiver<(usize, String)>,
    }
    impl Pair {
        fn new() -> Pair {
            let (rtx, rx) = std::sync::mpsc::channel();
            let mk = |me: usize| {
                let (tx, r) = std::sync::mpsc::channel::<usize>();
                let rtx = rtx.clone();
                std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                    IN_CODE.with(|c| c.set(true));
                    TID[me].store(unsafe { gettid() } as usize, SeqCst);
                    let bufs: Vec<String> = (0..OPS.len() + deep().len()).map(|i| call(i).t.to_string()).collect();
                    for i in r {
                        wait(me);
                        ME.with(|m| m.set(me));
                        STARTED[me].store(true, SeqCst);
                        let s = outcome(call(i), &bufs[i]);
                        ME.with(|m| m.set(0));
                        finish(me);
                        let _ = rtx.send((me, s));
                    }
                }).unwrap();
                tx
            };
            let tx = [mk(1), mk(2)];
            Pair { tx, rx }
        }
        /// thread 1 runs `i` basic blocks, then thread 2 runs `j` (or to its end), then 1 to its end
        fn run(&self, a: usize, b: usize, i: u64, j: u64) -> (String, String, u64, u64) {
            TURN.store(0, SeqCst);
            for k in 1..3 {
                DONE[k].store(false, SeqCst);
                STARTED[k].store(false, SeqCst);
                STEPS[k].store(0, SeqCst);
            }
            LEFT.store(i, SeqCst);
            NEXT.store(j, SeqCst);
            ACTIVE.store(true, SeqCst);
            self.tx[0].send(a).unwrap();
            self.tx[1].send(b).unwrap();
            TURN.store(1, SeqCst);
            let mut r = [String::new(), String::new()];
            for _ in 0..2 {
                let (w, s) = self.rx.recv().unwrap();
                r[w - 1] = s;
            }
            ACTIVE.store(false, SeqCst);
            let [x, y] = r;
            (x, y, STEPS[1].load(SeqCst), STEPS[2].load(SeqCst))
        }
    }

    pub fn explore(sh: &Shared, refs: &[String]) {
        let n = OPS.len();
        if !sh.viol.lock().unwrap().is_empty() {
            return;
        }
        // number of scheduling points of each call, and determinism of a replayed schedule
        let steps: Vec<u64> = {
            let mem = map_shared(8 * n + 8);
            fork_jobs(sh, "schedules/calibration", 1, 1, &|b, _| {
                let p = Pair::new();
                for i in 0..n {
                    // (the number of steps itself is not observable: a table may be built on first use)
                    let (x, _, _, _) = p.run(i, 6, u64::MAX, u64::MAX);
                    let (y, _, s, _) = p.run(i, 6, u64::MAX, u64::MAX);
                    b.runs(2);
                    b.states(s);
                    if x != y {
                        b.fail(&format!("{} run twice alone", describe(&[i])), &x, &y);
                    }
                    unsafe { ((mem + 8 * i) as *mut u64).write_volatile(s) };
                }
            });
            (0..n).map(|i| unsafe { ((mem + 8 * i) as *const u64).read_volatile() }).collect()
        };
        if !sh.viol.lock().unwrap().is_empty() {
            return;
        }
        assert!(steps[0] > 10, "the library is not instrumented");
        sh.note(format!("scheduling points per call: {:?}", steps));
        let procs = (sh.threads / 2).max(1);
        // one preemption: every call interrupted at every basic block by every other call
        let cap = sh.q(7000, 20000);
        let ok: Vec<usize> = (0..n).filter(|i| steps[*i] <= cap).collect();
        let one = |b: &Board, p: &Pair, a: usize, c: usize, i: u64| -> bool {
            let (x, y, s, t) = p.run(a, c, i, u64::MAX);
            b.runs(2);
            b.states(s + t);
            if x != refs[a] || y != refs[c] {
                let (e, g) = if x != refs[a] { (&refs[a], &x) } else { (&refs[c], &y) };
                b.fail(&format!("{} preempted after {} basic blocks by {}", describe(&[a]), i, describe(&[c])), e, g);
            }
            !b.failed()
        };
        let mut jobs: Vec<(usize, usize, u64, u64)> = vec![];
        for a in &ok {
            for c in &ok {
                if sh.thorough() || steps[*a] + steps[*c] <= 8000 {
                    jobs.push((*a, *c, 0, steps[*a]));
                }
            }
        }
        let pairs = jobs.len();
        // a deeply nested call interrupted everywhere by itself and by a failing one
        for a in 0..n {
            if OPS[a].t.starts_with(DEEP) && (sh.thorough() || OPS[a].t.len() < 500) {
                for c in 0..n {
                    if OPS[c].t.starts_with(DEEP) && OPS[c].t.len() <= OPS[a].t.len() {
                        let mut i = 0;
                        while i < steps[a] {
                            jobs.push((a, c, i, (i + 4000).min(steps[a])));
                            i += 4000;
                        }
                    }
                }
            }
        }
        fork_jobs(sh, "schedules/one preemption", jobs.len() as u64, procs, &|b, j| {
            let (a, c, lo, hi) = jobs[j as usize];
            in_child(b, &|| format!("{} preempted by {}", describe(&[a]), describe(&[c])), &|| {
                let p = Pair::new();
                for i in lo..hi {
                    if !one(b, &p, a, c, i) {
                        return;
                    }
                }
            });
        });
        sh.note(format!("schedules/one preemption: {} ordered pairs of calls, preempted at every basic block; deep nests by themselves", pairs));
        // deep nests, both at some depth at once: preempted at evenly spaced points
        let dn = deep().len();
        let cuts = sh.q(16u64, 64);
        fork_jobs(sh, "schedules/deep nests", dn as u64, procs, &|b, j| {
            let a = n + j as usize;
            in_child(b, &|| format!("nest {} interleaved", j), &|| {
                let p = Pair::new();
                let (alone, _, s, _) = p.run(a, 6, u64::MAX, u64::MAX);
                b.runs(2);
                let mut others: Vec<(usize, String)> = vec![(0, refs[0].clone()), (2, refs[2].clone()), (3, refs[3].clone()), (a, alone.clone())];
                // the accepted nest next to the broken one of the same depth, and conversely
                let mate = if j % 2 == 0 { a + 1 } else { a - 1 };
                let (m, _, _, _) = p.run(mate, 6, u64::MAX, u64::MAX);
                others.push((mate, m));
                for (c, want) in &others {
                    for k in 1..cuts {
                        let (x, y, t, u) = p.run(a, *c, s * k / cuts, u64::MAX);
                        b.runs(2);
                        b.states(t + u);
                        if x != alone || y != *want {
                            let (e, g) = if x != alone { (&alone, &x) } else { (want, &y) };
                            let cl = |s: &str| s.chars().take(200).collect::<String>();
                            return b.fail(&format!("{} (nest of depth {}) preempted after {} of {} basic blocks by {}", cl(call(a).t), deep()[j as usize].1, s * k / cuts, s, cl(call(*c).t)), &cl(e), &cl(g));
                        }
                    }
                }
            });
        });
        sh.note(format!("schedules/deep nests: {} nests of depth 10 to 3000, preempted at {} points by short calls, themselves and their broken twins", dn, cuts - 1));
        // two preemptions: each of the two is interrupted inside the other
        let small = sh.q(500u64, 1500);
        let ok: Vec<usize> = (0..n).filter(|i| steps[*i] <= small && steps[*i] > 4).collect();
        let m = ok.len();
        let stride = 1;
        fork_jobs(sh, "schedules/two preemptions", (m * m) as u64, procs, &|b, j| {
            let (a, c) = (ok[j as usize / m], ok[j as usize % m]);
            in_child(b, &|| format!("{} and {} interleaved", describe(&[a]), describe(&[c])), &|| {
                let p = Pair::new();
                let mut i = 0;
                while i < steps[a] {
                    let mut k = 0;
                    while k < steps[c] {
                        let (x, y, s, t) = p.run(a, c, i, k);
                        b.runs(2);
                        b.states(s + t);
                        if x != refs[a] || y != refs[c] {
                            let (e, g) = if x != refs[a] { (&refs[a], &x) } else { (&refs[c], &y) };
                            return b.fail(&format!("{} for {} basic blocks, {} for {}, then the rest of each", describe(&[a]), i, describe(&[c]), k), e, g);
                        }
                        k += stride;
                    }
                    if b.failed() {
                        return;
                    }
                    i += stride;
                }
            });
        });
        sh.note(format!("schedules/two preemptions: all ordered pairs of {} calls of at most {} basic blocks, all pairs of points", m, small));
    }
}
