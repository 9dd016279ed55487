//! C21: work grows in proportion to the text.  The library is compiled with a callback per basic block
//! (see sched-rustc.sh), the allocator counts bytes; both counts are deterministic.  A family is a text
//! with one part pumped: t(n) = head unit^n tail.  If the cost is proportional, the cost of pumping from
//! 2N to 4N is twice the cost of pumping from N to 2N.
use crate::eng::*;
use crate::gram::*;
use crate::hist::sched::COUNT;
use crate::props::*;
use crate::props2::*;
use crate::tok::*;
use std::alloc::{GlobalAlloc, Layout as L, System};
use std::cell::Cell;
use std::fmt::Write;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: L) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as u64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: L) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: L, n: usize) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// (accepted, basic blocks, bytes allocated)
pub fn cost(c: &mut Ctx, text: &str) -> Option<(bool, u64, u64)> {
    c.enter("parse", text);
    IN_CODE.with(|c| c.set(true));
    let (a, b) = (COUNT.with(|c| c.get()), BYTES.with(|c| c.get()));
    let r = std::panic::catch_unwind(|| weedle::parse(text));
    let (x, y) = (COUNT.with(|c| c.get()), BYTES.with(|c| c.get()));
    IN_CODE.with(|c| c.set(false));
    c.leave();
    c.st.traces += 1;
    c.st.states += 1;
    let f = c.st.families.entry_ref(c.family);
    f.0 += 1;
    match r {
        Ok(r) => {
            let ok = r.is_ok();
            if ok { f.1 += 1; c.st.accepted += 1 } else { f.2 += 1; c.st.rejected += 1 }
            Some((ok, x - a, y - b))
        }
        Err(_) => None, // C01 reports panics
    }
}
/// an attribute list inside the arguments of an attribute
fn nested_attributes(t: &str) -> bool {
    let mut st: Vec<u8> = vec![];
    for b in t.bytes() {
        match b {
            b'[' => {
                if st.contains(&b'[') { return true; }
                st.push(b)
            }
            b'(' | b'{' | b'<' => st.push(b),
            b']' | b')' | b'}' | b'>' => {
                st.pop();
            }
            _ => {}
        }
    }
    false
}
/// pump, at sizes n, 2n, 4n
pub fn pump<F: Fn(usize) -> String>(c: &mut Ctx, n: usize, f: F) -> bool {
    let mut m = vec![];
    let mut last = String::new();
    for k in [n, 2 * n, 4 * n] {
        if c.stopped() { return true; }
        last = f(k);
        c.st.transitions += 1;
        match cost(c, &last) {
            None => return true,
            Some(x) => m.push((x, last.len())),
        }
    }
    for (what, g, slack) in [("basic blocks", 1, 3000f64), ("bytes allocated", 2, 20000f64)] {
        let v: Vec<f64> = m.iter().map(|x| if g == 1 { x.0 .1 as f64 } else { x.0 .2 as f64 }).collect();
        let (d1, d2) = (v[1] - v[0], v[2] - v[1]);
        // doubling buffers make the allocated bytes a step function: 4 instead of 2 is possible there
        let lim = if g == 1 { 2.0 * d1.max(0.0) * 1.1 + slack } else { 2.6 * d1.max(0.0) + slack };
        if d2 > lim {
            c.violate(
                "parse#cost", &last, "the work grows faster than the text",
                &format!("{}: at most {:.0} more when the pumped part doubles again", what, lim),
                &format!("{} for texts of {}, {}, {} bytes: {}, {}, {}", what, m[0].1, m[1].1, m[2].1, v[0], v[1], v[2]),
            );
            return false;
        }
    }
    true
}

pub fn c21(sh: &Shared) {
    // long lists, of every element, in every place, whole and broken off
    let n = sh.q(200, 600);
    let g = &model().s;
    for (item, sep) in LISTS {
        let ctx = item_contexts(item);
        let el = elements(item, sh.q(1, 2), Naming::Distinct);
        let sizes: Vec<usize> = (0..el.len()).collect();
        let jobs: Vec<(usize, usize)> = (0..ctx.len()).flat_map(|c| sizes.iter().map(move |e| (c, *e))).filter(|(c, e)| *e < sh.q(12, 60) || *c < sh.q(2, 6)).collect();
        par(sh, "long lists", &jobs, |c, (ci, ei)| {
            let ctx = &ctx[*ci];
            // head and tail of the context, rendered once
            let mark = mk_name("\u{1}");
            let mut d = Deriv { toks: vec![], ev: String::new() };
            let mut ch = Chooser::new(vec![], Naming::Distinct, false, 3);
            g.gen_path(&ctx.path, &mut ch, &mut d, &mut |_, _, d| d.toks.push(mark.clone()));
            let s = layout(&d.toks, Layout::Min);
            let (head, tail) = s.split_once('\u{1}').expect("mark");
            let unit = layout(&el[*ei].toks, Layout::Min);
            let sp = if sep.chars().all(|c| c.is_ascii_punctuation()) { sep.to_string() } else { format!(" {} ", sep) };
            let list = |k: usize| {
                let mut s = String::with_capacity((unit.len() + 4) * k);
                for i in 0..k {
                    if i > 0 { s.push_str(&sp); }
                    s.push_str(&unit);
                    if sep.is_empty() { s.push(' '); }
                }
                s
            };
            if nested_attributes(&format!("{}{}{}", head, unit, tail)) { return; }
            for end in [tail, "", "@", "\"", " 5 "] {
                if !pump(c, n, |k| format!("{} {} {}", head, list(k), end)) { return; }
            }
            // and with a definition around it
            pump(c, n, |k| format!("a includes b;{} {} {}a includes b;", head, list(k), tail));
        });
        sh.note(format!("long lists: {} in {} places, {} elements, lengths {}, {}, {}, five endings", item, ctx.len(), el.len(), n, 2 * n, 4 * n));
    }
    // the same with different names and values in every element, and with two kinds of elements in turn
    let n = sh.q(200, 600);
    for (item, sep) in LISTS {
        let ctx = item_contexts(item);
        let el = elements(item, 1, Naming::Distinct);
        let m = el.len();
        // (context, element, order or other element)
        let mut jobs: Vec<(usize, usize, usize)> = (0..ctx.len().min(sh.q(2, 8))).flat_map(|c| (0..m.min(sh.q(60, 200))).flat_map(move |e| (0..3).map(move |o| (c, e, o)))).collect();
        jobs.extend((0..m.min(sh.q(40, 120))).flat_map(|a| (0..m.min(sh.q(40, 120))).map(move |b| (0, a, 3 + b))));
        par(sh, "long lists of different elements", &jobs, |c, (ci, ei, o)| {
            let mut d = Deriv { toks: vec![], ev: String::new() };
            let mut ch = Chooser::new(vec![], Naming::Distinct, false, 3);
            g.gen_path(&ctx[*ci].path, &mut ch, &mut d, &mut |_, _, d| d.toks.push(mk_name("\u{1}")));
            let s = layout(&d.toks, Layout::Min);
            let (head, tail) = s.split_once('\u{1}').expect("mark");
            let sp = if sep.is_empty() { String::from(" ") } else { format!(" {} ", sep) };
            // one element, with a number of fixed width in every name, string and decimal
            let one = |e: &Deriv, i: usize, s: &mut String| {
                for t in &e.toks {
                    match t.k {
                        IDENT => { let _ = write!(s, "{}{:06}", t.src, i); }
                        STR => { let _ = write!(s, "{}{:06}\"", &t.src[..t.src.len() - 1], i); }
                        DEC => { let _ = write!(s, "{}{:06}", t.src, i); }
                        _ => s.push_str(t.src),
                    }
                    s.push(' ');
                }
            };
            let list = |k: usize| {
                let mut s = String::new();
                for i in 0..k {
                    if i > 0 { s.push_str(&sp); }
                    match *o {
                        0 => one(&el[*ei], i, &mut s),
                        1 => one(&el[*ei], k - i, &mut s),
                        2 => one(&el[*ei], i * 7919 % 1_000_003 % 999_983, &mut s),
                        o => one(if i % 2 == 0 { &el[*ei] } else { &el[o - 3] }, i, &mut s),
                    }
                }
                s
            };
            if nested_attributes(&format!("{}{}{}", head, list(2), tail)) { return; }
            for end in [tail, "@"].into_iter().take(if *o < 3 { 2 } else { 1 }) {
                if !pump(c, n, |k| format!("{} {} {}", head, list(k), end)) { return; }
            }
        });
        sh.note(format!("long lists of different elements: {}, {} jobs (ascending, descending, scattered numbers; two kinds in turn), lengths {}, {}, {}", item, jobs.len(), n, 2 * n, 4 * n));
    }
    // nests
    let wr: [(&str, &str); 10] = [("sequence<", ">"), ("sequence<", ">?"), ("FrozenArray<", ">"), ("Promise<", ">"), ("record<DOMString,", ">"), ("record<USVString,", ">?"), ("(a or ", ")"), ("(", " or b)?"), ("(a or[B]", ")"), ("record<sequence<", ">,any>")];
    let hosts = [("typedef ", " x;"), ("interface a{", " b();};"), ("interface a{void b(optional ", " c);};"), ("interface a{attribute ", " b;};"), ("interface a{iterable<long,", ">;};"), ("interface a{async iterable<", ">;};"), ("interface a{maplike<long,", ">;};"), ("interface a{setlike<", ">;};"), ("interface a{static ", " b();};"), ("dictionary a{", " b;};"), ("dictionary a{required ", " b;};"), ("callback a=", "();"), ("callback a=void(", "...b);"), ("namespace a{", " b();};"), ("interface mixin a{", " b();};"), ("[a(", " b)]c includes d;"), ("[a=b(", " b)]c includes d;")];
    let jobs: Vec<(usize, usize, usize)> = (0..wr.len()).flat_map(|a| (0..wr.len()).flat_map(move |b| (0..hosts.len()).map(move |h| (a, b, h)))).collect();
    let n = sh.q(64, 200);
    par(sh, "nests", &jobs, |c, (a, b, h)| {
        let nest = |k: usize, mid: &str, close: bool| {
            let mut o = String::new();
            let mut z = String::new();
            for i in 0..k {
                o.push_str(wr[if i % 2 == 0 { *a } else { *b }].0);
                if close { z.push_str(wr[if (k - 1 - i) % 2 == 0 { *a } else { *b }].1) }
            }
            format!("{}{}{}", o, mid, z)
        };
        let (l, r) = hosts[*h];
        if nested_attributes(&format!("{}{}", l, nest(3, "a", true))) { return; }
        for (mid, close, end) in [("a", true, r), ("a", true, ""), ("a", true, "@"), ("a", false, ""), ("", false, ""), ("@", true, r), ("", true, r), ("a b", true, r), ("a", false, r)] {
            // shallow ones first: an exponential cost shows there without taking for ever
            for n in [4, n] {
                if !pump(c, n, |k| format!("{}{}{}", l, nest(k, mid, close), end)) { return; }
            }
        }
    });
    sh.note(format!("nests: all pairs of {} type wrappers in {} places, depths 4 to 16 and {}, {}, {}, nine ways of ending", wr.len(), hosts.len(), n, 2 * n, 4 * n));
    // long tokens, blanks and comments in every gap of one document of each kind
    let docs = default_definitions();
    let n = sh.q(500, 4000);
    let units: [(&str, &str, &str); 22] = [("", " ", ""), ("", "\n", ""), ("", "\t\r", ""), ("", "/**/", ""), ("", "//\n", ""), ("", "/*a*/ //b\n", ""), ("/*", "*", "*/"), ("/*", "/", "*/"), ("/*", "x", "*/"), ("/*", "\u{e9}\n", "*/"), ("//", "x", "\n"), ("//", "/*", "\n"), ("/*", "x", ""), ("/*", "*", ""), ("//", "x", ""), (" ", "x", " "), (" _", "a-", " "), (" \"", "x", "\" "), (" \"", "//", ""), (" ", "1", " "), (" 0x", "f", " "), (" .", "7", "e5 ")];
    let jobs: Vec<(usize, usize)> = (0..docs.len()).flat_map(|d| (0..units.len()).map(move |u| (d, u))).collect();
    par(sh, "long tokens and gaps", &jobs, |c, (d, u)| {
        let toks = &docs[*d].0;
        let (l, m, r) = units[*u];
        for gap in 0..=toks.len() {
            let head = layout(&toks[..gap], Layout::Min);
            let tail = layout(&toks[gap..], Layout::Min);
            if !pump(c, n, |k| format!("{}{}{}{}{}", head, l, m.repeat(k), r, tail)) { return; }
            // in the place of a token
            if gap < toks.len() {
                let tail = layout(&toks[gap + 1..], Layout::Min);
                if !pump(c, n, |k| format!("{}{}{}{}{}", head, l, m.repeat(k), r, tail)) { return; }
            }
        }
    });
    sh.note(format!("long tokens and gaps: {} units in every gap and place of {} documents, lengths {}, {}, {}", units.len(), docs.len(), n, 2 * n, 4 * n));
    // every word of two tokens, repeated, at the start and behind openings
    let voc: Vec<String> = vocab_texts();
    let open = ["", "typedef ", "[", "[a(", "interface a{", "interface a{void b(", "interface a:", "interface a{attribute ", "interface a{const long b=", "dictionary a{", "namespace a{", "interface mixin a{", "enum a{", "callback a=", "partial interface a{", "typedef (", "interface a{iterable<", "typedef record<"];
    let n = sh.q(50, 200);
    par_n(sh, "repeated words", voc.len() * voc.len(), |c, i| {
        let w = format!("{} {} ", voc[i / voc.len()], voc[i % voc.len()]);
        for o in open {
            let t = format!("{}{}", o, w.repeat(4));
            if nested_attributes(&t) { continue; }
            if !pump(c, n, |k| format!("{}{}", o, w.repeat(k))) { return; }
        }
    });
    sh.note(format!("repeated words: {} words of two tokens behind {} openings, {}, {}, {} times", voc.len() * voc.len(), open.len(), n, 2 * n, 4 * n));
    if !sh.stop.load(std::sync::atomic::Ordering::SeqCst) && sh.viol.lock().unwrap().is_empty() {
        instr(sh);
    }
}
fn vocab_texts() -> Vec<String> {
    let mut v: Vec<String> = (0..nterms() as u8).map(|k| term_text(k).to_string()).collect();
    v.extend(["a", "\"s\"", "5", "1.5", "@", "/*x*/", "//y\n"].map(String::from));
    v
}

// ---- the same, counting instructions (the standard library is not compiled with callbacks)

#[cfg(target_arch = "x86_64")]
fn request(code: usize) {
    let args: [usize; 6] = [code, 0, 0, 0, 0, 0];
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") 0usize => _, options(nostack)
        );
    }
}
const BASE: usize = (b'C' as usize) << 24 | (b'T' as usize) << 16;
type Text = Box<dyn Fn(usize) -> String>;
/// a smaller set of families, and their size
fn instr_families(tier_quick: bool) -> Vec<(usize, Text)> {
    let g = &model().s;
    let mut v: Vec<(usize, Text)> = vec![];
    let n = if tier_quick { 700 } else { 3000 };
    for (item, sep) in LISTS {
        let el = elements(item, 0, Naming::Distinct);
        for ctx in item_contexts(item).iter().take(if tier_quick { 3 } else { 12 }) {
            let mut d = Deriv { toks: vec![], ev: String::new() };
            let mut ch = Chooser::new(vec![], Naming::Distinct, false, 3);
            g.gen_path(&ctx.path, &mut ch, &mut d, &mut |_, _, d| d.toks.push(mk_name("\u{1}")));
            let s = layout(&d.toks, Layout::Min);
            let (head, tail) = s.split_once('\u{1}').expect("mark");
            let (head, tail) = (head.to_string(), tail.to_string());
            let tail2 = tail.clone();
            let unit = layout(&el[0].toks, Layout::Min);
            let sp = if sep.is_empty() { String::from(" ") } else { format!(" {} ", sep) };
            if nested_attributes(&format!("{}{}{}", head, unit, tail)) { continue; }
            for end in [tail, "@".into()] {
                let (h, u, p) = (head.clone(), unit.clone(), sp.clone());
                v.push((n, Box::new(move |k| format!("{} {} {}", h, vec![&u[..]; k].join(&p), end))));
            }
            // different names and values
            let toks = el[0].toks.clone();
            let (h, p) = (head.clone(), sp.clone());
            let e2 = tail2.clone();
            v.push((n, Box::new(move |k| {
                let mut s = format!("{} ", h);
                for i in 0..k {
                    if i > 0 { s.push_str(&p) }
                    for t in &toks {
                        match t.k {
                            IDENT | DEC => { let _ = write!(s, "{}{:06} ", t.src, i); }
                            STR => { let _ = write!(s, "{}{:06}\" ", &t.src[..t.src.len() - 1], i); }
                            _ => { let _ = write!(s, "{} ", t.src); }
                        }
                    }
                }
                s.push_str(&e2);
                s
            })));
        }
    }
    for (o, z) in [("sequence<", ">"), ("Promise<", ">"), ("record<DOMString,", ">?"), ("(a or ", ")"), ("(", " or b)?")] {
        for (l, r) in [("typedef ", " x;"), ("interface a{void b(optional ", " c);};"), ("dictionary a{", "@")] {
            v.push((n / 3, Box::new(move |k| format!("{}{}a{}{}", l, o.repeat(k), z.repeat(k), r))));
        }
    }
    for (l, m, r) in [("", " ", ""), ("", "/**/", ""), ("", "//\n", ""), ("/*", "*", "*/"), ("/*", "/", "*/"), ("/*", "x", ""), ("//", "x", "\n"), ("//", "x", "")] {
        for (h, t) in [("", "a includes b;"), ("a", " includes b;"), ("a includes b;", ""), ("interface a{", "};"), ("interface a{long b(long c", ");};")] {
            v.push((n * 4, Box::new(move |k| format!("{}{}{}{}{}", h, l, m.repeat(k), r, t))));
        }
    }
    for (l, m, r) in [("interface a", "x", "{};"), ("interface _a", "-", ":b{};"), ("a includes b", "1", ";"), ("enum a{\"", "x", "\"};"), ("enum a{\"", "x", ""), ("interface a{const long b=1", "1", ";};"), ("dictionary a{long b=0x1", "f", ";};"), ("dictionary a{double b=.5", "7", "e-5;};"), ("[a=\"", "z", "\"]b includes c;"), ("typedef a", "b", "? c;")] {
        v.push((n * 4, Box::new(move |k| format!("{}{}{}", l, m.repeat(k), r))));
    }
    v
}
/// child, under callgrind: one dump per text
pub fn instr_child(quick: bool, part: usize, of: usize) {
    for (i, (n, f)) in instr_families(quick).iter().enumerate() {
        if i % of != part { continue; }
        for k in [*n, 2 * n, 4 * n] {
            let t = f(k);
            request(BASE + 1); // zero
            let r = weedle::parse(&t);
            request(BASE); // dump
            drop(r);
        }
    }
}
pub fn instr(sh: &Shared) {
    let quick = !sh.thorough();
    let fam = instr_families(quick);
    let of = sh.threads.max(1);
    let dir = std::env::temp_dir().join(format!("mc-instr-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let exe = std::env::current_exe().expect("exe");
    let kids: Vec<_> = (0..of)
        .map(|p| {
            std::process::Command::new("valgrind")
                .args(["--tool=callgrind", "--dump-line=no", "--dump-instr=no", "--main-stacksize=67108864", "-q"])
                .arg(format!("--callgrind-out-file={}/{}", dir.display(), p))
                .arg(&exe).arg("instr").arg(if quick { "quick" } else { "thorough" }).arg(p.to_string()).arg(of.to_string())
                .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn()
        })
        .collect();
    let mut ran = true;
    let t0 = std::time::Instant::now();
    for k in kids {
        match k {
            Ok(mut k) => loop {
                match k.try_wait() {
                    Ok(Some(s)) => {
                        ran &= s.success();
                        break;
                    }
                    Ok(None) if t0.elapsed().as_secs() < sh.q(200, 1200) => std::thread::sleep(std::time::Duration::from_millis(50)),
                    _ => {
                        let _ = k.kill();
                        let _ = k.wait();
                        ran = false;
                        break;
                    }
                }
            },
            Err(_) => ran = false,
        }
    }
    let total = |p: usize, k: usize| -> Option<f64> {
        let s = std::fs::read_to_string(dir.join(format!("{}.{}", p, k))).ok()?;
        s.lines().find_map(|l| l.strip_prefix("totals: ").or(l.strip_prefix("summary: ")).and_then(|x| x.trim().parse().ok()))
    };
    let mut seen = 0;
    if ran {
        let mut c = Ctx::new(sh);
        c.family = "instructions";
        for (i, (n, f)) in fam.iter().enumerate() {
            let (p, j) = (i % of, i / of);
            let v: Vec<f64> = (0..3).filter_map(|k| total(p, 3 * j + k + 1)).collect();
            if v.len() != 3 { continue; }
            seen += 1;
            c.st.traces += 3;
            c.st.states += 3;
            c.st.transitions += 3;
            c.st.families.entry_ref("instructions").0 += 3;
            let (d1, d2) = (v[1] - v[0], v[2] - v[1]);
            let lim = 2.0 * d1.max(0.0) * 1.2 + 50_000.0;
            if d2 > lim {
                let t = f(4 * n);
                c.violate("parse#cost", &t, "the work grows faster than the text", &format!("instructions: at most {:.0} more when the pumped part doubles again", lim), &format!("instructions for sizes {}, {}, {}: {}, {}, {}", n, 2 * n, 4 * n, v[0], v[1], v[2]));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    sh.note(if ran { format!("instructions: {} of {} families counted by callgrind", seen, fam.len()) } else { "instructions: callgrind is not available, not counted".into() });
}
