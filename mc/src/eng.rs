//! Exploration engine: runs cases on the real code under a journal (so that a crash or a hang
//! is attributable to one input), compares with the oracle, counts what was covered.
use crate::gram::*;
use crate::tok::*;
use crate::walk::*;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

pub const SLOT: usize = 1 << 24;
pub const NSLOT: usize = 64;

/// Model shared by all threads.
pub struct Model {
    pub s: Grammar,
    pub l: Grammar,
}
pub fn model() -> &'static Model {
    static M: std::sync::OnceLock<Model> = std::sync::OnceLock::new();
    M.get_or_init(|| Model { s: build(true), l: build(false) })
}

pub enum Verdict {
    /// must be accepted, with this tree
    Accept(String),
    Reject,
    /// the grammar leaves it open (reserved word used as a name, empty list, ...)
    Open,
}

#[derive(Default)]
pub struct Judge {
    pub rs: Rec,
    pub rl: Rec,
}
impl Judge {
    /// What the model says about parsing the whole token sequence as model node `node`.
    pub fn judge(&mut self, node: &str, t: &[Tok]) -> Verdict {
        let m = model();
        if !self.rl.accepts(&m.l, m.l.id(node), t) {
            return Verdict::Reject;
        }
        let mut ev = String::new();
        if self.rs.tree(&m.s, m.s.id(node), t, &mut ev) {
            return Verdict::Accept(ev);
        }
        Verdict::Open
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub entry: String,
    pub text: String,
    pub what: String,
    pub expected: String,
    pub observed: String,
    pub family: String,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub open: u64,
    pub families: BTreeMap<String, (u64, u64, u64, u64)>, // runs, accepted, rejected, open
    pub outcomes: HashSet<u64>,
    pub samples: BTreeMap<String, Vec<String>>,
}

pub struct Shared {
    pub prop: String,
    pub tier: String,
    pub stop: AtomicBool,
    pub viol: Mutex<Vec<Violation>>,
    pub stats: Mutex<Stats>,
    pub slots: usize, // address of the mapped journal, 0 if none
    pub threads: usize,
    pub next_slot: AtomicUsize,
    pub start: std::time::Instant,
    pub known: Vec<(String, String)>,
    pub notes: Mutex<Vec<String>>,
    pub known_hit: Mutex<std::collections::BTreeSet<(String, String)>>,
    /// stack of the exploring threads, in MiB
    pub stack: AtomicUsize,
}
thread_local! {
    /// true while the code under test runs (its panics are observations, not messages)
    pub static IN_CODE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
impl Shared {
    pub fn local(name: &str) -> Shared {
        Shared {
            prop: name.into(), tier: "quick".into(), stop: AtomicBool::new(false), viol: Mutex::new(vec![]), stats: Mutex::new(Stats::default()), slots: 0,
            threads: 8, next_slot: AtomicUsize::new(0), start: std::time::Instant::now(), known: vec![], notes: Mutex::new(vec![]), known_hit: Mutex::new(Default::default()), stack: AtomicUsize::new(512),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// quick / thorough bound
    pub fn q<T>(&self, q: T, t: T) -> T {
        if self.thorough() { t } else { q }
    }
    pub fn note(&self, s: String) {
        eprintln!("[{}] {:6.1}s {}", self.prop, self.start.elapsed().as_secs_f64(), s);
        self.notes.lock().unwrap().push(s);
    }
}

pub struct Ctx<'s> {
    pub sh: &'s Shared,
    slot: usize,
    seq: u64,
    pub j: Judge,
    pub st: Stats,
    pub family: &'static str,
}

/// bit-state set of the (entry, input) pairs executed so far: a state is counted when its bit is
/// first set, so the count of distinct states is a lower bound
static VISITED: std::sync::OnceLock<Vec<AtomicU64>> = std::sync::OnceLock::new();
const VISITED_WORDS: usize = 1 << 25;
pub fn first_visit(entry: u64, text: &[u8]) -> bool {
    const K: u64 = 0x9e37_79b9_7f4a_7c15;
    let mut h = entry.wrapping_mul(K) ^ text.len() as u64;
    let mut it = text.chunks_exact(8);
    for w in &mut it {
        h = (h.rotate_left(23) ^ u64::from_le_bytes(w.try_into().unwrap())).wrapping_mul(K);
    }
    for b in it.remainder() {
        h = (h.rotate_left(23) ^ *b as u64).wrapping_mul(K);
    }
    h = (h ^ (h >> 32)).wrapping_mul(0xd6e8_feb8_6659_fd93);
    h ^= h >> 32;
    let v = VISITED.get_or_init(|| {
        let mut v = Vec::with_capacity(VISITED_WORDS);
        v.resize_with(VISITED_WORDS, || AtomicU64::new(0));
        v
    });
    let w = &v[(h >> 6) as usize % VISITED_WORDS];
    let bit = 1u64 << (h & 63);
    w.load(Relaxed) & bit == 0 && w.fetch_or(bit, Relaxed) & bit == 0
}

pub fn ev_hash(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
pub fn is_suffix(rest: &str, of: &str) -> bool {
    let (a, b) = (rest.as_ptr() as usize, of.as_ptr() as usize);
    a >= b && a + rest.len() == b + of.len()
}

impl<'s> Ctx<'s> {
    pub fn new(sh: &'s Shared) -> Self {
        let n = sh.next_slot.fetch_add(1, SeqCst) % NSLOT;
        Ctx { sh, slot: if sh.slots == 0 { 0 } else { sh.slots + n * SLOT }, seq: 0, j: Judge::default(), st: Stats::default(), family: "" }
    }
    /// journal the input about to be parsed
    pub fn enter(&mut self, entry: &str, text: &str) {
        if self.slot != 0 {
            unsafe {
                let p = self.slot as *mut u8;
                let n = entry.len().min(255);
                let m = text.len().min(SLOT - 512);
                (p as *mut u64).add(3).write_volatile(self.sh.stack.load(Relaxed) as u64);
                (p as *mut u64).add(1).write_volatile(n as u64);
                (p as *mut u64).add(2).write_volatile(text.len() as u64);
                std::ptr::copy_nonoverlapping(entry.as_ptr(), p.add(64), n);
                std::ptr::copy_nonoverlapping(text.as_ptr(), p.add(512), m);
                self.seq += 1;
                (p as *mut u64).write_volatile(self.seq * 2 + 1);
            }
        }
    }
    pub fn leave(&mut self) {
        if self.slot != 0 {
            unsafe { (self.slot as *mut u64).write_volatile(self.seq * 2 + 2) }
        }
    }
    pub fn run<'a>(&mut self, e: &Entry, text: &'a str, want: bool) -> Result<Obs<'a>, String> {
        self.enter(e.name, text);
        IN_CODE.with(|c| c.set(true));
        let r = catch_unwind(AssertUnwindSafe(|| (e.run)(text, want)));
        IN_CODE.with(|c| c.set(false));
        self.leave();
        self.st.traces += 1;
        self.st.states += first_visit(e.name.as_ptr() as u64, text.as_bytes()) as u64;
        let f = self.st.families.entry_ref(self.family);
        f.0 += 1;
        match r {
            Ok(o) => {
                if o.kind == Kind::Ok {
                    self.st.accepted += 1;
                    f.1 += 1;
                } else {
                    self.st.rejected += 1;
                    f.2 += 1;
                }
                if f.0 <= 3 || (o.kind == Kind::Ok && f.1 == 2) {
                    let s = self.st.samples.entry(self.family.to_string()).or_default();
                    if s.len() < 4 && text.len() < 300 {
                        s.push(format!("{} {:?} -> {:?}", e.name, text, o.kind));
                    }
                }
                Ok(o)
            }
            Err(p) => Err(panic_msg(p)),
        }
    }
    pub fn violate(&mut self, e: &str, text: &str, what: &str, expected: &str, observed: &str) {
        let v = Violation {
            entry: e.into(), text: text.into(), what: what.into(), expected: expected.into(),
            observed: observed.into(), family: self.family.into(),
        };
        if self.sh.known.iter().any(|(en, tx)| *en == v.entry && *tx == v.text) {
            self.sh.known_hit.lock().unwrap().insert((v.what, v.text));
            return; // listed finding: printed at the end, never a violation
        }
        let mut l = self.sh.viol.lock().unwrap();
        l.push(v);
        if l.len() >= 20 {
            self.sh.stop.store(true, SeqCst);
        }
    }
    pub fn stopped(&self) -> bool {
        self.sh.stop.load(Relaxed)
    }
    /// Universal oracle for a whole-text parse at entry `e`: the model decides.
    /// Returns true if the case was in line with the model.
    pub fn check_judged(&mut self, e: &Entry, text: &str, sel: Sel) -> bool {
        let mut toks = Vec::new();
        lex(text, &mut toks);
        let v = self.j.judge(e.node, &toks);
        if let Verdict::Open = v {
            self.st.open += 1;
            self.st.families.entry_ref(self.family).3 += 1;
        }
        let r = self.run(e, text, true);
        self.compare(e, text, &toks, &v, r, sel)
    }
    pub fn compare(&mut self, e: &Entry, text: &str, toks: &[Tok], v: &Verdict, r: Result<Obs, String>, sel: Sel) -> bool {
        let o = match r {
            Err(p) => {
                self.violate(e.name, text, "panicked", "Ok or Err", &p);
                return false;
            }
            Ok(o) => o,
        };
        if o.kind == Kind::Incomplete {
            self.violate(e.name, text, "asked for more input", "Ok or Err", "Err(Incomplete)");
            return false;
        }
        if !is_suffix(o.rest, text) {
            self.violate(e.name, text, "rest is not a suffix of the input", "suffix", &format!("{:?}", o.rest));
            return false;
        }
        let full = o.kind == Kind::Ok && only_trivia(o.rest);
        match v {
            Verdict::Accept(ev) => {
                if sel.accept {
                    if !full {
                        self.violate(e.name, text, "well-formed text was not accepted", ev, &show(&o));
                        return false;
                    }
                    if o.out.ev != *ev {
                        self.violate(e.name, text, "wrong tree", ev, &o.out.ev);
                        return false;
                    }
                    self.outcome(ev);
                }
            }
            Verdict::Reject => {
                if sel.reject && full {
                    self.violate(e.name, text, "text outside the grammar was accepted", "Err", &o.out.ev);
                    return false;
                }
            }
            Verdict::Open => {}
        }
        if sel.spell && full {
            if let Some(msg) = spells(&o.out.ys, toks) {
                self.violate(e.name, text, "the tree does not spell its input", &msg, &o.out.ev);
                return false;
            }
        }
        true
    }
    pub fn outcome(&mut self, ev: &str) {
        if self.st.outcomes.len() < 2_000_000 {
            self.st.outcomes.insert(ev_hash(ev));
        }
    }
    pub fn expect_tree(&mut self, e: &Entry, text: &str, ev: &str) -> bool {
        let r = self.run(e, text, true);
        match r {
            Err(p) => {
                self.violate(e.name, text, "panicked", ev, &p);
                false
            }
            Ok(o) => {
                if o.kind != Kind::Ok || !o.rest.is_empty() {
                    self.violate(e.name, text, "well-formed text was not accepted", ev, &show(&o));
                    return false;
                }
                if o.out.ev != ev {
                    self.violate(e.name, text, "wrong tree", ev, &o.out.ev);
                    return false;
                }
                self.outcome(ev);
                true
            }
        }
    }
}
pub trait EntryRef {
    fn entry_ref(&mut self, k: &str) -> &mut (u64, u64, u64, u64);
}
impl EntryRef for BTreeMap<String, (u64, u64, u64, u64)> {
    fn entry_ref(&mut self, k: &str) -> &mut (u64, u64, u64, u64) {
        if !self.contains_key(k) {
            self.insert(k.to_string(), (0, 0, 0, 0));
        }
        self.get_mut(k).unwrap()
    }
}
impl Drop for Ctx<'_> {
    fn drop(&mut self) {
        let mut s = self.sh.stats.lock().unwrap();
        s.states += self.st.states;
        s.transitions += self.st.transitions;
        s.traces += self.st.traces;
        s.accepted += self.st.accepted;
        s.rejected += self.st.rejected;
        s.open += self.st.open;
        for (k, v) in &self.st.families {
            let e = s.families.entry(k.clone()).or_default();
            e.0 += v.0;
            e.1 += v.1;
            e.2 += v.2;
            e.3 += v.3;
        }
        s.outcomes.extend(self.st.outcomes.drain());
        for (k, v) in &self.st.samples {
            let e = s.samples.entry(k.clone()).or_default();
            for x in v {
                if e.len() < 4 {
                    e.push(x.clone());
                }
            }
        }
    }
}

/// Which parts of the model's verdict a check enforces.
#[derive(Clone, Copy, Default)]
pub struct Sel {
    pub accept: bool,
    pub reject: bool,
    pub spell: bool,
}
pub const ALL: Sel = Sel { accept: true, reject: true, spell: true };
pub const REJ: Sel = Sel { accept: false, reject: true, spell: false };
pub const SPELL: Sel = Sel { accept: false, reject: false, spell: true };

pub fn only_trivia(s: &str) -> bool {
    s.is_empty() || skip_trivia(s.as_bytes()) == s.len()
}
pub fn show(o: &Obs) -> String {
    match o.kind {
        Kind::Ok => format!("Ok, rest {:?}: {}", o.rest, o.out.ev),
        Kind::Err => format!("Err at {:?}", o.rest),
        Kind::Incomplete => "Err(Incomplete)".into(),
    }
}
/// Do the tokens recorded in the tree spell `toks`?  (enum trailing comma excepted)
pub fn spells(ys: &[Y], toks: &[Tok]) -> Option<String> {
    let mut i = 0;
    let comma = kind_of(",");
    let brace = kind_of("}");
    for (n, t) in toks.iter().enumerate() {
        let ok = match ys.get(i) {
            Some(Y::Term(k)) => t.k == *k,
            Some(Y::Name(s)) => name_like(t.k) && t.val == *s,
            Some(Y::Lit(k, s)) => t.k == *k && t.val == *s,
            None => false,
        };
        if ok {
            i += 1;
            continue;
        }
        // optional comma after the last enum value
        if t.k == comma && n > 0 && toks[n - 1].k == STR && (n + 1 == toks.len() || toks[n + 1].k == brace) {
            continue;
        }
        // and after the last item of the generic list entry
        if n + 1 == toks.len() && t.src == "or" {
            continue;
        }
        return Some(format!("token {} {:?} of the input is spelled {:?}", n, t.src, ys.get(i)));
    }
    if i != ys.len() {
        return Some(format!("tree has {} extra tokens, first {:?}", ys.len() - i, ys[i]));
    }
    None
}
pub fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        format!("panic: {}", s)
    } else if let Some(s) = p.downcast_ref::<String>() {
        format!("panic: {}", s)
    } else {
        "panic".into()
    }
}

// ------------------------------------------------------------------ parallel drivers

pub fn spawn_all<F: Fn(&mut Ctx) + Sync>(sh: &Shared, f: F) {
    std::thread::scope(|s| {
        for _ in 0..sh.threads {
            let f = &f;
            std::thread::Builder::new()
                .stack_size(sh.stack.load(SeqCst) << 20)
                .spawn_scoped(s, move || {
                    let mut c = Ctx::new(sh);
                    f(&mut c);
                })
                .unwrap();
        }
    });
}
/// process items in order, work-sharing between threads
pub fn par<T: Sync, F: Fn(&mut Ctx, &T) + Sync>(sh: &Shared, family: &'static str, items: &[T], f: F) {
    let next = AtomicUsize::new(0);
    spawn_all(sh, |c| {
        c.family = family;
        loop {
            let i = next.fetch_add(1, SeqCst);
            if i >= items.len() || c.stopped() {
                break;
            }
            f(c, &items[i]);
        }
    });
}
pub fn par_n<F: Fn(&mut Ctx, usize) + Sync>(sh: &Shared, family: &'static str, n: usize, f: F) {
    let v: Vec<usize> = (0..n).collect();
    par(sh, family, &v, |c, i| f(c, *i));
}

/// Where derivations start: a chain root..=hole in the strict grammar.
#[derive(Clone)]
pub struct Start {
    pub path: Vec<Id>,
}
#[derive(Clone, Copy)]
pub struct GenCfg {
    pub naming: Naming,
    pub vocab: bool,
    pub max_list: usize,
    /// maximal number of departures from the default choice
    pub bound: usize,
    /// representative types, values and attributes only (which: see gram.rs)
    pub narrow: u8,
}
pub fn generate(start: &Start, prefix: Vec<u16>, cfg: GenCfg) -> (Deriv, Chooser) {
    let g = &model().s;
    let mut ch = Chooser::new(prefix, cfg.naming, cfg.vocab, cfg.max_list);
    ch.narrow = cfg.narrow;
    let mut d = Deriv { toks: vec![], ev: String::new() };
    let hole = *start.path.last().unwrap();
    g.gen_path(&start.path, &mut ch, &mut d, &mut |g, ch, d| g.gen(hole, ch, d));
    assert!(ch.made.len() >= ch.prefix.len(), "replay diverged: prefix not consumed");
    (d, ch)
}
/// All derivations from `starts` with at most `cfg.bound` departures from the default derivation,
/// breadth-limited by nothing else.  Stateless exploration: every node of the choice tree is
/// visited exactly once.
pub fn par_derive<F: Fn(&mut Ctx, &Deriv) + Sync>(sh: &Shared, family: &'static str, starts: &[Start], cfg: GenCfg, f: F) {
    // work queue of (start, choice prefix, remaining budget)
    let q: Mutex<Vec<(usize, Vec<u16>, usize)>> =
        Mutex::new((0..starts.len()).rev().map(|i| (i, vec![], cfg.bound)).collect());
    let active = AtomicUsize::new(0);
    spawn_all(sh, |c| {
        c.family = family;
        loop {
            if c.stopped() {
                break;
            }
            let job = {
                let mut l = q.lock().unwrap();
                let j = l.pop();
                if j.is_some() {
                    active.fetch_add(1, SeqCst);
                }
                j
            };
            match job {
                None => {
                    if active.load(SeqCst) == 0 {
                        break;
                    }
                    std::thread::yield_now();
                    std::thread::sleep(std::time::Duration::from_micros(50));
                }
                Some((si, prefix, budget)) => {
                    explore(c, &starts[si], si, prefix, budget, cfg, &f, &q, cfg.bound);
                    active.fetch_sub(1, SeqCst);
                }
            }
        }
    });
}
#[allow(clippy::too_many_arguments)]
fn explore<F: Fn(&mut Ctx, &Deriv) + Sync>(c: &mut Ctx, st: &Start, si: usize, prefix: Vec<u16>, budget: usize, cfg: GenCfg, f: &F,
    q: &Mutex<Vec<(usize, Vec<u16>, usize)>>, bound: usize) {
    if c.stopped() {
        return;
    }
    let plen = prefix.len();
    let (d, ch) = generate(st, prefix, cfg);
    c.st.states += (ch.made.len() - plen) as u64;
    c.st.transitions += (ch.made.len() - plen) as u64 + (plen > 0) as u64;
    f(c, &d);
    if budget == 0 {
        return;
    }
    for i in plen..ch.made.len() {
        for alt in 1..ch.arity[i] {
            let mut p = ch.made[..i].to_vec();
            p.push(alt);
            if budget >= 2 && bound - budget < 2 {
                q.lock().unwrap().push((si, p, budget - 1));
            } else {
                explore(c, st, si, p, budget - 1, cfg, f, q, bound);
            }
        }
    }
}
/// the same exploration, collected
pub fn collect(starts: &[Start], cfg: GenCfg) -> Vec<Deriv> {
    fn rec(st: &Start, prefix: Vec<u16>, budget: usize, cfg: GenCfg, out: &mut Vec<Deriv>) {
        let plen = prefix.len();
        let (d, ch) = generate(st, prefix, cfg);
        out.push(d);
        if budget == 0 {
            return;
        }
        for i in plen..ch.made.len() {
            for alt in 1..ch.arity[i] {
                let mut p = ch.made[..i].to_vec();
                p.push(alt);
                rec(st, p, budget - 1, cfg, out);
            }
        }
    }
    let mut out = vec![];
    for s in starts {
        rec(s, vec![], cfg.bound, cfg, &mut out);
    }
    out
}

// ------------------------------------------------------------------ layouts

pub fn glue_ok(a: &Tok, b: &Tok) -> bool {
    let x = a.src.as_bytes()[a.src.len() - 1];
    let y = b.src.as_bytes()[0];
    let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'-' || c == b'.';
    if !(w(x) && w(y)) {
        return true;
    }
    // a word and `...` do not run into each other
    (name_like(a.k) && b.src == "...") || (a.src == "..." && name_like(b.k))
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layout {
    Min,
    Space,
    Mixed,
}
pub const MIX: &[&str] = &[
    "\n", " /* c; */ ", "\t", "// x } ; \"\n", "\r\n", "/**/", " ", "/* * / // \" */\n", "//\n", "  /***/\t",
];
pub fn layout_into(t: &[Tok], l: Layout, s: &mut String) {
    s.clear();
    for (i, x) in t.iter().enumerate() {
        match l {
            Layout::Min => {
                if i > 0 && !glue_ok(&t[i - 1], x) {
                    s.push(' ');
                }
            }
            Layout::Space => {
                if i > 0 {
                    s.push(' ');
                }
            }
            Layout::Mixed => s.push_str(MIX[i % MIX.len()]),
        }
        s.push_str(x.src);
    }
    if l == Layout::Mixed {
        s.push_str(" // end");
    }
}
pub fn layout(t: &[Tok], l: Layout) -> String {
    let mut s = String::new();
    layout_into(t, l, &mut s);
    s
}
