//! Families for the lexical, layout, node-level, size and identity properties.
use crate::eng::*;
use crate::gram::*;
use crate::props::*;
use crate::tok::*;
use crate::walk::*;
use std::sync::atomic::Ordering::*;

pub fn check(p: &str) -> Option<fn(&Shared)> {
    Some(match p {
        "C01" => c01, "C02" => c02, "C03" => c03, "C04" => c04, "C05" => c05, "C06" => c06,
        "C07" => c07, "C08" => c08, "C09" => c09, "C10" => c10, "C11" => c11, "C12" => c12,
        "C13" => c13, "C14" => c14, "C15" => c15, "C16" => c16, "C17" => crate::hist::c17,
        "C18" => c18, "C19" => c19,
        #[cfg(not(feature = "sched"))]
        "C20" => crate::comb::c20,
        "C22" => c22,
        #[cfg(feature = "sched")]
        "C21" => crate::cost::c21,
        _ => return None,
    })
}

pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// all strings over `alpha` of length lo..=hi, shared out by their first two characters
pub fn strings<F: Fn(&mut Ctx, &str) + Sync>(sh: &Shared, family: &'static str, alpha: &[char], lo: usize, hi: usize, f: F) {
    let n = alpha.len();
    // job 0: lengths 0 and 1; job 1 + i: everything starting with pair i
    par_n(sh, family, 1 + n * n, |c, i| {
        let mut s = String::new();
        if i == 0 {
            if lo == 0 {
                f(c, &s);
            }
            if lo <= 1 && hi >= 1 {
                for a in alpha {
                    s.clear();
                    s.push(*a);
                    f(c, &s);
                }
            }
            return;
        }
        if hi < 2 {
            return;
        }
        s.push(alpha[(i - 1) / n]);
        s.push(alpha[(i - 1) % n]);
        rec(c, alpha, &mut s, 2, lo, hi, &f);
    });
    fn rec<F: Fn(&mut Ctx, &str)>(c: &mut Ctx, alpha: &[char], s: &mut String, len: usize, lo: usize, hi: usize, f: &F) {
        if c.stopped() {
            return;
        }
        c.st.transitions += 1;
        if len >= lo {
            f(c, s);
        }
        if len < hi {
            for a in alpha {
                s.push(*a);
                rec(c, alpha, s, len + 1, lo, hi, f);
                s.pop();
            }
        }
    }
    sh.note(format!("{}: all strings of length {}..={} over {} characters", family, lo, hi, n));
}
pub fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}
pub fn ascii() -> Vec<char> {
    (0u8..128).map(|b| b as char).collect()
}
fn every_char(f: &mut dyn FnMut(char)) {
    for u in 0..=0x10ffffu32 {
        if let Some(c) = char::from_u32(u) {
            f(c);
        }
    }
}
pub fn step(c: &mut Ctx) {
    c.st.transitions += 1;
}

// ------------------------------------------------------------------ C01 totality

fn total(c: &mut Ctx, e: &Entry, s: &str) {
    match c.run(e, s, true) {
        Err(p) => c.violate(e.name, s, "panicked", "Ok or Err", &p),
        Ok(o) => {
            if o.kind == Kind::Incomplete {
                c.violate(e.name, s, "asked for more input", "Ok or Err", "Err(Incomplete)");
            } else if !is_suffix(o.rest, s) {
                c.violate(e.name, s, "the text carried is not a suffix of the input", "a suffix", o.rest);
            }
        }
    }
}
pub const TOTAL_CHARS: &str = "aZx_-09.\"/*\n\r ;:,=?<>(){}[]@e\u{e9}\u{20ac}\u{1f600}\0";
pub fn c01(sh: &Shared) {
    wide_places(sh);
    for h in [BLANK_RUNS, NAME_RUNS, STRING_RUNS, NUMBER_RUNS] {
        in_runs(sh, h, |c, s| total(c, doc(), s));
    }
    source_strings(sh, |c, s| total(c, doc(), s));
    let al = chars(TOTAL_CHARS);
    strings(sh, "character strings/document", &al, 0, sh.q(5, 6), |c, s| total(c, doc(), s));
    let all: Vec<&'static Entry> = entries().iter().chain(terms().iter()).collect();
    strings(sh, "character strings/every node", &al, 0, sh.q(3, 4), |c, s| {
        for e in &all {
            total(c, e, s);
        }
    });
    strings(sh, "ASCII pairs/every node", &ascii(), 0, sh.q(2, 3), |c, s| {
        for e in &all {
            total(c, e, s);
        }
    });
    // inside a construct: each opening text, then all strings
    let open = [
        "interface a{", "interface a{attribute ", "interface a{const long b=", "[", "[a(", "[a=", "callback a=", "enum a{", "enum a{\"",
        "dictionary a{long b=", "typedef (", "typedef record<", "partial interface ", "/*", "//", "interface a{};//", "interface a{};/*", "-", "0x", "1e", "a implements ",
    ];
    strings(sh, "character strings/inside a construct", &al, 0, sh.q(3, 4), |c, s| {
        let mut t = String::new();
        for o in open {
            t.clear();
            t.push_str(o);
            t.push_str(s);
            total(c, doc(), &t);
        }
    });
    // truncations, suffixes and edits of well-formed documents
    let b = bases(1, false);
    par(sh, "truncations", &b, |c, d| {
        for l in [Layout::Min, Layout::Mixed] {
            let s = layout(&d.toks, l);
            for (i, _) in s.char_indices() {
                step(c);
                total(c, doc(), &s[..i]);
                total(c, doc(), &s[i..]);
            }
        }
    });
    sh.note(format!("truncations: every prefix and suffix of {} documents in 2 layouts", b.len()));
    par(sh, "character edits", &b, |c, d| {
        let s = layout(&d.toks, Layout::Min);
        char_edits(&s, EDIT_CHARS, &mut |t| {
            if !c.stopped() {
                step(c);
                total(c, doc(), t);
            }
        });
    });
    par(sh, "token edits", &b, |c, d| {
        let alpha = all_tokens();
        let mut s = String::new();
        token_edits(&d.toks, &alpha, &mut |t| {
            if !c.stopped() {
                for l in [Layout::Space, Layout::Min] {
                    step(c);
                    layout_into(t, l, &mut s);
                    total(c, doc(), &s);
                }
            }
        });
    });
    // every node on derivations of every other node (cut at every character)
    let el: Vec<(&'static Entry, Deriv)> = entries().iter().flat_map(|e| node_derivs(e, 1, false).into_iter().map(move |d| (e, d))).collect();
    let defaults: Vec<String> = entries().iter().map(|e| layout(&node_derivs(e, 0, false)[0].toks, Layout::Min)).collect();
    par(sh, "node truncations", &el, |c, (e, d)| {
        let s = layout(&d.toks, Layout::Min);
        for (i, _) in s.char_indices() {
            step(c);
            total(c, e, &s[..i]);
        }
    });
    par(sh, "every node on every node's text", &all, |c, e| {
        for s in &defaults {
            for (i, _) in s.char_indices().chain([(s.len(), ' ')]) {
                step(c);
                total(c, e, &s[..i]);
            }
        }
    });
    // token strings, not restricted to viable ones
    let at = all_tokens();
    let n = at.len();
    par_n(sh, "token strings/document", n * n, |c, i| {
        let mut s = String::new();
        for k in 0..=n {
            s.clear();
            s.push_str(at[i / n].src);
            s.push(' ');
            s.push_str(at[i % n].src);
            if k < n {
                s.push(' ');
                s.push_str(at[k].src);
            }
            step(c);
            total(c, doc(), &s);
        }
    });
    par_n(sh, "token strings/every node", n * (n + 1), |c, i| {
        let mut s = at[i / (n + 1)].src.to_string();
        if i % (n + 1) < n {
            s.push(' ');
            s.push_str(at[i % (n + 1)].src);
        }
        for e in &all {
            step(c);
            total(c, e, &s);
        }
    });
    // deep and unbalanced nesting
    let mut deep: Vec<(&'static str, String)> = vec![];
    let depths: Vec<usize> = (0..=64).chain([100, 127, 128, 129, 200, 255, 256, 257, 500, 1000]).chain(if sh.thorough() { vec![2000, 5000] } else { vec![] }).collect();
    for d in depths {
        for (o, cl) in [("sequence<", ">"), ("(", ")"), ("(a or ", ")"), ("Promise<", ">"), ("record<DOMString,", ">"), ("FrozenArray<", ">"), ("record<sequence<", ">,a>")] {
            for cut in [0, 1, 2] {
                // balanced, unclosed, one closing too many
                let k = if cut == 0 { d } else if cut == 1 { 0 } else { d + 1 };
                let body = format!("{}any{}", o.repeat(d), cl.repeat(k));
                deep.push(("parse", format!("typedef {} x;", body)));
                deep.push(("parse", format!("interface a{{ {} b(optional {} c);", body, body)));
                deep.push(("Type", body));
            }
        }
        for s in ["[", "{", "(", "<", "\"", "/*", "//", "interface a{", "[a", "[a=", "a=", "-", "_", ".", "?", "*/", "/", "...", "optional ", "partial ", "callback ", "long ", "/*/", "*"] {
            let t = s.repeat(d);
            deep.push(("parse", t.clone()));
            deep.push(("Type", t.clone()));
            deep.push(("ExtendedAttributeList", t.clone()));
            deep.push(("ArgumentList", t));
        }
        if d <= 5 {
            for (o, cl) in [("[a(", " b c)]"), ("[a(", "x y)]"), ("[a=b(", ")]"), ("[a([b]", " c d)]")] {
                for k in 0..=d {
                    deep.push(("parse", format!("{}{} x includes y;", o.repeat(d), cl.repeat(k))));
                }
            }
        }
    }
    par(sh, "nesting", &deep, |c, (e, s)| {
        step(c);
        total(c, entry(e), s);
    });
    sh.note(format!("nesting: {} balanced and unbalanced nestings and repetitions", deep.len()));
    small_stack(sh, "long lists on a small stack", false);
    // every character in every lexical state
    par_n(sh, "every Unicode character", 64, |c, part| {
        let mut i = 0usize;
        let mut s = String::new();
        every_char(&mut |ch| {
            i += 1;
            if i % 64 != part || c.stopped() {
                return;
            }
            for (a, b) in [("", ""), ("a", " includes b;"), ("//", ""), ("/*", ""), ("/*", "*/"), ("enum a{\"", "\"};"), ("interface a", "{};")] {
                s.clear();
                s.push_str(a);
                s.push(ch);
                s.push_str(b);
                step(c);
                total(c, doc(), &s);
            }
        });
    });
}

/// derivations of a node by itself
pub fn node_derivs(e: &Entry, bound: usize, vocab: bool) -> Vec<Deriv> {
    let mut v = collect(&[Start { path: vec![model().s.id(e.node)] }], GenCfg { max_list: 3, ..cfg(bound, Naming::Distinct, vocab) });
    let mut seen = std::collections::HashSet::new();
    v.retain(|d| seen.insert(layout(&d.toks, Layout::Space)));
    v
}

// ------------------------------------------------------------------ lexical nodes

/// What a lexical node must match at the start of `s`: (token kind, offset, length), or failure.
fn word_at(b: &[u8], w: &str) -> bool {
    b.starts_with(w.as_bytes()) && !b.get(w.len()).map_or(false, |c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'-')
}
fn run_of(b: &[u8], mut i: usize, f: fn(&u8) -> bool) -> usize {
    while i < b.len() && f(&b[i]) {
        i += 1;
    }
    i
}
fn node_prefix<'a>(node: &str, s: &'a str) -> Option<(Vec<Tok<'a>>, usize)> {
    let all = s.as_bytes();
    let o = skip_trivia(all);
    let b = &all[o..];
    let neg = (b.first() == Some(&b'-')) as usize;
    let tok = |k: u8, len: usize| {
        let t = &s[o..o + len];
        let val = if k == STR { &t[1..t.len() - 1] } else if k == IDENT && t.starts_with('_') { &t[1..] } else { t };
        Some((vec![Tok { k, src: t, val }], o + len))
    };
    let words = |ws: &[&str]| ws.iter().find(|w| word_at(b, w)).map(|w| (kind_of(w), w.len()));
    let string = || if b.first() == Some(&b'"') { b[1..].iter().position(|c| *c == b'"').map(|e| e + 2) } else { None };
    let two = |x: u8, y: u8| {
        if b.first() != Some(&x) {
            return None;
        }
        let p = o + 1 + skip_trivia(&all[o + 1..]);
        if all.get(p) != Some(&y) {
            return None;
        }
        let a = &s[o..o + 1];
        let c = &s[p..p + 1];
        Some((vec![Tok { k: kind_of(a), src: a, val: a }, Tok { k: kind_of(c), src: c, val: c }], p + 1))
    };
    match node {
        "Identifier" => match_ident(b).and_then(|l| tok(IDENT, l)),
        "StringLit" => string().and_then(|l| tok(STR, l)),
        "IdentifierOrString" => match_ident(b).and_then(|l| tok(IDENT, l)).or_else(|| string().and_then(|l| tok(STR, l))),
        "DecLit" => match b.get(neg) {
            Some(b'1'..=b'9') => tok(DEC, run_of(b, neg, u8::is_ascii_digit)),
            _ => None,
        },
        "HexLit" => {
            if b.get(neg) == Some(&b'0') && matches!(b.get(neg + 1), Some(b'x') | Some(b'X')) {
                let e = run_of(b, neg + 2, u8::is_ascii_hexdigit);
                if e > neg + 2 { tok(HEX, e) } else { None }
            } else {
                None
            }
        }
        "OctLit" => if b.get(neg) == Some(&b'0') { tok(OCT, run_of(b, neg + 1, |c| (b'0'..=b'7').contains(c))) } else { None },
        "IntegerLit" => match_int(b).and_then(|(l, k)| tok(k, l)),
        "FloatValueLit" => match_float(b).and_then(|l| tok(FLOAT, l)),
        "FloatLit" => match_float(b).map(|l| (FLOAT, l)).or_else(|| words(&["-Infinity", "Infinity", "NaN"])).and_then(|(k, l)| tok(k, l)),
        "BooleanLit" => words(&["true", "false"]).and_then(|(k, l)| tok(k, l)),
        "EmptyArrayLit" => two(b'[', b']'),
        "EmptyDictionaryLit" => two(b'{', b'}'),
        "ConstValue" | "DefaultValue" => {
            let i = match_int(b);
            let f = match_float(b);
            let num = match (f, i) {
                (Some(f), Some((i, k))) => Some(if f > i { (FLOAT, f) } else { (k, i) }),
                (Some(f), None) => Some((FLOAT, f)),
                (None, Some((i, k))) => Some((k, i)),
                (None, None) => None,
            };
            num.or_else(|| words(&["-Infinity", "Infinity", "NaN", "true", "false", "null"]))
                .and_then(|(k, l)| tok(k, l))
                .or_else(|| if node == "DefaultValue" { string().and_then(|l| tok(STR, l)).or_else(|| two(b'[', b']')).or_else(|| two(b'{', b'}')) } else { None })
        }
        _ => unreachable!("{}", node),
    }
}
/// the node parser at the start of an arbitrary string, against the lexical grammar
fn lexical(c: &mut Ctx, e: &Entry, s: &str) {
    let exp = node_prefix(e.node, s);
    let r = c.run(e, s, true);
    let o = match r {
        Err(p) => return c.violate(e.name, s, "panicked", "Ok or Err", &p),
        Ok(o) => o,
    };
    match exp {
        None => {
            if o.kind == Kind::Ok {
                c.violate(e.name, s, "recognised something that is not a literal of this class", "Err", &show(&o));
            }
        }
        Some((toks, end)) => {
            let rest = &s[end + skip_trivia(&s.as_bytes()[end..])..];
            let mut ev = String::new();
            if e.node == "OctLit" {
                ev_open(&mut ev, "OctLit");
                ev_text(&mut ev, 'o', toks[0].val);
                ev_close(&mut ev);
            } else {
                let m = model();
                assert!(c.j.rs.tree(&m.s, m.s.id(e.node), &toks, &mut ev), "{} {:?}", e.node, toks);
            }
            if o.kind != Kind::Ok || o.rest.len() != rest.len() || !is_suffix(o.rest, s) || o.out.ev != ev {
                c.violate(e.name, s, "not the longest match, or wrongly classified", &format!("Ok, rest {:?}: {}", rest, ev), &show(&o));
            } else {
                c.outcome(&ev);
            }
        }
    }
}

// ------------------------------------------------------------------ C08 numbers and constants

const LIT_NODES: &[&str] = &["DecLit", "HexLit", "OctLit", "IntegerLit", "FloatValueLit", "FloatLit", "BooleanLit", "ConstValue", "DefaultValue", "StringLit", "EmptyArrayLit", "EmptyDictionaryLit"];

pub fn c08(sh: &Shared) {
    in_runs(sh, NUMBER_RUNS, |c, s| { c.check_judged(doc(), s, ALL); });
    // numbers the source mentions
    let nums: Vec<String> = crate::dict::dict().ints.iter().map(|n| n.to_string()).chain(crate::dict::dict().strings.iter().filter(|s| s.bytes().any(|b| b.is_ascii_digit())).map(|s| s.to_string())).collect();
    par(sh, "numbers of the source", &nums, |c, n| {
        for f in [n.clone(), format!("-{}", n), format!("0{}", n), format!("0x{}", n), format!("{}.", n), format!("{}.0", n), format!(".{}", n), format!("1e{}", n), format!("1e-{}", n), format!("{}e5", n)] {
            for ctx in ["interface a{const long b=?;};", "dictionary a{long b=?;};", "callback a=long(optional long b=?);"] {
                if c.stopped() { return; }
                step(c);
                c.check_judged(doc(), &ctx.replace('?', &f), ALL);
            }
        }
    });
    number_lengths(sh, &some_lens(sh));
    let nodes: Vec<&'static Entry> = LIT_NODES.iter().map(|n| entry(n)).collect();
    let al = chars("01789afFxXeE.-+ ");
    strings(sh, "literal strings/nodes", &al, 0, sh.q(5, 6), |c, s| {
        for e in &nodes[..9] {
            lexical(c, e, s);
        }
    });
    strings(sh, "number strings/nodes", &chars("0179xe.-+A"), sh.q(6, 8), sh.q(7, 8), |c, s| {
        for e in &nodes[3..9] {
            lexical(c, e, s);
        }
    });
    let ctx = ["interface a{const long b=?;};", "dictionary a{long b=?;};", "callback a=long(optional long b=?);", "namespace a{const long b=?;};", "interface a{void b(optional long c=?,optional long d=?);};"];
    strings(sh, "literal strings/documents", &al, 0, sh.q(5, 6), |c, s| {
        for x in ctx {
            let t = x.replace('?', s);
            c.check_judged(doc(), &t, ALL);
        }
    });
    // brackets, strings and words
    let mut words: Vec<String> = vec![];
    for w in ["Infinity", "-Infinity", "NaN", "true", "false", "null", "[]", "{}", "\"\"", "\"s\"", "1", "0x1F", "017", "1.5", ".5", "1e5", "undefined"] {
        words.push(w.into());
        for (i, _) in w.char_indices() {
            words.push(format!("{}{}", &w[..i], &w[i + 1..])); // delete
            words.push(w[..i].to_string());
            for x in ["-", "+", " ", "_", "0", "x", "."] {
                words.push(format!("{}{}{}", &w[..i], x, &w[i..]));
            }
            let f: String = w.char_indices().map(|(j, c)| if j == i { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect();
            words.push(f);
        }
        words.push(w.to_ascii_uppercase());
        words.push(w.to_ascii_lowercase());
        for x in ascii() {
            words.push(format!("{}{}", w, x));
            words.push(format!("{}{}", x, w));
        }
    }
    words.sort();
    words.dedup();
    par(sh, "constant words", &words, |c, w| {
        for e in &nodes {
            step(c);
            lexical(c, e, w);
        }
        for x in ctx {
            step(c);
            let t = x.replace('?', w);
            c.check_judged(doc(), &t, ALL);
        }
    });
    sh.note(format!("constant words: {} spellings (every one-character edit of each constant) at 12 nodes and 5 positions", words.len()));
    // short strings over all of ASCII, and numbers glued to any character
    strings(sh, "ASCII strings/nodes", &ascii(), 0, sh.q(2, 3), |c, s| {
        for e in &nodes {
            lexical(c, e, s);
        }
    });
    let nums = ["1", "-1", "0", "-0", "07", "0x1", "-0XF", "1.", ".1", "1.1", "-.1", "1e1", "1E+1", "1e-1", "1.e1", ".1e1", "1.1E-1", "9", "10", "0xaF", "00", "-07"];
    par(sh, "numbers and neighbours", &nums, |c, n| {
        let mut s = String::new();
        let mut cs = ascii();
        cs.extend(['\u{e9}', '\u{660}', '\u{ff11}', '\u{1d7d8}', '\u{a0}', '\u{feff}', '\u{2212}']);
        for a in &cs {
            for b in &cs {
                for (pre, post) in [(Some(a), Some(b)), (None, Some(b))] {
                    s.clear();
                    pre.map(|x| s.push(*x));
                    s.push_str(n);
                    post.map(|x| s.push(*x));
                    step(c);
                    for e in &nodes[..9] {
                        lexical(c, e, &s);
                    }
                }
            }
            for x in ctx {
                let t = x.replace('?', &format!("{}{}", n, a));
                c.check_judged(doc(), &t, ALL);
                let t = x.replace('?', &format!("{}{}", a, n));
                c.check_judged(doc(), &t, ALL);
            }
        }
    });
    // every digit sequence that matters: all numbers with up to 3 digits per part
    let mut longer = vec![];
    for sign in ["", "-"] {
        for i in 0..1200u32 {
            longer.push(format!("{}{}", sign, i));
            longer.push(format!("{}0{}", sign, i));
            longer.push(format!("{}0x{:x}", sign, i));
            longer.push(format!("{}0X{:X}", sign, i));
            longer.push(format!("{}{}.{}", sign, i / 100, i % 100));
            longer.push(format!("{}{}e{}", sign, i / 100, i % 100));
            longer.push(format!("{}{}E-{}", sign, i % 100, i / 100));
            longer.push(format!("{}.{}e+{}", sign, i / 10, i % 10));
        }
        for p in 0..=70u32 {
            let v = 1u128.checked_shl(p).unwrap_or(0);
            for d in [-1i128, 0, 1] {
                let x = (v as i128 + d).max(0);
                longer.push(format!("{}{}", sign, x));
                longer.push(format!("{}0x{:X}", sign, x));
                longer.push(format!("{}0{:o}", sign, x));
                longer.push(format!("{}{}.0", sign, x));
                longer.push(format!("{}1e{}", sign, x));
            }
        }
    }
    par(sh, "numbers by value", &longer, |c, n| {
        step(c);
        for e in &nodes[..9] {
            lexical(c, e, n);
        }
        for x in ctx {
            let t = x.replace('?', n);
            c.check_judged(doc(), &t, ALL);
        }
    });
    sh.note(format!("numbers by value: {}", longer.len()));
    // positions: each literal token in every token position of every small document
    let lits = tokens_of(&["5", "-1", "0x1F", "017", "1.5", "-2.5E-3", "Infinity", "-Infinity", "NaN", "null", "true", "false", "\"s\""]);
    let b = bases(1, sh.thorough());
    par(sh, "literal positions", &b, |c, d| {
        let mut s = String::new();
        for i in 0..=d.toks.len() {
            for l in &lits {
                for rep in [true, false] {
                    if rep && i == d.toks.len() {
                        continue;
                    }
                    if c.stopped() {
                        return;
                    }
                    let mut t = d.toks.clone();
                    if rep { t[i] = *l } else { t.insert(i, *l) }
                    layouts_of(c, doc(), &t, &mut s, ALL);
                }
            }
        }
    });
    sh.note(format!("literal positions: {} documents x every position x {} literals", b.len(), lits.len()));
    derive_check(sh, "default values", &starts("Default"), cfg(3, Naming::Distinct, true), MM);
    derive_check(sh, "constant values", &starts("ConstValue"), cfg(3, Naming::Distinct, true), MM);
}

// ------------------------------------------------------------------ C09 identifiers and strings

/// every position that takes a name: (class, chain)
fn name_slots() -> Vec<(Cls, Start)> {
    let g = &model().s;
    let r = g.id("Definitions");
    let mut v = vec![];
    for id in g.reachable(r) {
        if let G::Name(c) = g.g[id] {
            for path in g.contexts(r, id) {
                v.push((c, Start { path }));
            }
        }
    }
    v
}
fn string_slots() -> Vec<Start> {
    starts("StringLit")
}
/// fill one slot with one token
fn fill(st: &Start, t: Tok<'static>, string: bool) -> Deriv {
    let g = &model().s;
    let mut d = Deriv { toks: vec![], ev: String::new() };
    let mut ch = Chooser::new(vec![], Naming::Distinct, false, 3);
    g.gen_path(&st.path, &mut ch, &mut d, &mut |_, _, d| {
        if string {
            ev_open(&mut d.ev, "StringLit");
            ev_text(&mut d.ev, 's', t.val);
            ev_close(&mut d.ev);
        } else {
            ev_text(&mut d.ev, 'i', t.val);
        }
        d.toks.push(t);
    });
    d
}
fn keyword_names() -> Vec<&'static str> {
    let mut v: Vec<String> = vec![];
    for w in WORDS.iter().map(|w| w.trim_start_matches('-')) {
        v.push(format!("_{}", w));
        for x in ["x", "1", "_", "-", "S", "-x", "_0", "Z9", "z"] {
            v.push(format!("{}{}", w, x));
            v.push(format!("_{}{}", w, x));
        }
        v.push(format!("x{}", w));
        v.push(format!("x-{}", w));
        v.push(format!("a_{}", w));
        v.push(format!("{}{}", w, w));
        v.push(w[..w.len() - 1].to_string());
        v.push(w.to_ascii_uppercase());
        v.push(w.to_ascii_lowercase());
        let mut cs: Vec<char> = w.chars().collect();
        cs[0] = if cs[0].is_ascii_lowercase() { cs[0].to_ascii_uppercase() } else { cs[0].to_ascii_lowercase() };
        v.push(cs.into_iter().collect());
        for w2 in ["long", "or", "optional", "interface", "any", "includes"] {
            v.push(format!("{}-{}", w, w2));
            v.push(format!("{}_{}", w, w2));
        }
    }
    v.retain(|s| match_ident(s.as_bytes()) == Some(s.len()) && word_kind(s).is_none());
    v.sort();
    v.dedup();
    v.into_iter().map(leak).collect()
}
pub const ID_CHARS: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-";
pub fn c09(sh: &Shared) {
    in_runs(sh, NAME_RUNS, |c, s| { c.check_judged(doc(), s, ALL); });
    in_runs(sh, STRING_RUNS, |c, s| { c.check_judged(doc(), s, ALL); });
    short_values(sh, VALUE_HOSTS, |c, s| { c.check_judged(doc(), s, ALL); });
    for (n, k) in [("Definition", sh.q(3, 4)), ("InterfaceMember", sh.q(2, 3)), ("MixinMember", 2), ("NamespaceMember", 2), ("DictionaryMember", sh.q(2, 3)), ("Argument", 2), ("ExtendedAttribute", sh.q(3, 4)), ("Type", 2)] {
        coincidences(sh, "names that coincide", &starts(n), k, |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    }
    short_names(sh);
    source_words(sh, |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    magic_names(sh, |c, s, _| { c.check_judged(doc(), s, ALL); });
    name_lengths(sh, &some_lens(sh));
    string_lengths(sh, &some_lens(sh));
    let id = entry("Identifier");
    let st = entry("StringLit");
    let ios = entry("IdentifierOrString");
    strings(sh, "ASCII strings/identifier", &ascii(), 0, 3, |c, s| lexical(c, id, s));
    strings(sh, "character strings/identifier", &chars("aZx_-0 9\n/*\"\u{e9}"), 0, sh.q(6, 7), |c, s| {
        lexical(c, id, s);
        lexical(c, ios, s);
    });
    strings(sh, "identifier characters", &chars("azAZ_-09"), 4, sh.q(7, 8), |c, s| lexical(c, id, s));
    strings(sh, "character strings/string", &chars("a\" \\\n\r\t/*'\u{e9};"), 0, sh.q(6, 7), |c, s| {
        lexical(c, st, s);
        lexical(c, ios, s);
    });
    par_n(sh, "every Unicode character", 64, |c, part| {
        let mut i = 0usize;
        let mut s = String::new();
        every_char(&mut |ch| {
            i += 1;
            if i % 64 != part || c.stopped() {
                return;
            }
            step(c);
            for (e, a, b) in [(st, "\"", "\""), (st, "\"a", "b\" x"), (id, "", ""), (id, "_", "a"), (id, "a", "b"), (id, "", "a")] {
                s.clear();
                s.push_str(a);
                s.push(ch);
                s.push_str(b);
                lexical(c, e, &s);
            }
        });
    });
    sh.note("every Unicode character: in strings and in, before and after identifiers".into());
    // names in every position
    let slots = name_slots();
    let mut names: Vec<&'static str> = keyword_names();
    for a in ID_CHARS.chars().filter(|c| c.is_ascii_alphabetic()) {
        names.push(leak(a.to_string()));
        names.push(leak(format!("_{}", a)));
        for b in ID_CHARS.chars() {
            names.push(leak(format!("{}{}", a, b)));
        }
    }
    for a in ID_CHARS.chars() {
        for b in ID_CHARS.chars() {
            names.push(leak(format!("q{}{}", a, b)));
        }
    }
    names.retain(|n| word_kind(n).is_none());
    let jobs: Vec<(usize, usize)> = (0..slots.len()).flat_map(|s| (0..64).map(move |p| (s, p))).collect();
    par(sh, "names in every position", &jobs, |c, (si, part)| {
        let (cls, slot) = &slots[*si];
        let one = |c: &mut Ctx, n: &'static str, l: &[Layout]| {
            let d = fill(slot, mk_name(n), false);
            step(c);
            for l in l {
                let s = layout(&d.toks, *l);
                c.expect_tree(doc(), &s, &d.ev);
            }
        };
        for (i, n) in names.iter().enumerate() {
            if i % 64 == *part && !c.stopped() {
                one(c, n, MM);
            }
        }
        if *part == 0 {
            let kw = match cls {
                Cls::Arg => ARG_KW,
                Cls::Attr => ATTR_KW,
                Cls::Op => OP_KW,
                Cls::Plain => &[],
            };
            for n in kw {
                one(c, n, MM);
            }
        }
    });
    sh.note(format!("names in every position: {} positions x {} names", slots.len(), names.len()));
    // two tricky names at once, in neighbouring positions
    for (f, n) in [("definitions/tricky names", "Definition"), ("interface members/tricky names", "InterfaceMember"), ("arguments/tricky names", "Argument"), ("attributes/tricky names", "ExtendedAttribute"), ("types/tricky names", "Type")] {
        derive_check(sh, f, &starts(n), cfg(sh.q(3, 4), Naming::Tricky, n != "Type"), M1);
    }
    // strings in every position
    let ss = string_slots();
    let mut strs: Vec<&'static str> = vec![];
    for a in ascii() {
        if a != '"' {
            strs.push(leak(format!("\"{}\"", a)));
            for b in ascii() {
                if b != '"' {
                    strs.push(leak(format!("\"{}{}\"", a, b)));
                }
            }
        }
    }
    for x in ["", "//", "/*", "*/", "/* */", "// x\n y", "\u{e9}\u{20ac}\u{1f600}", "interface", "};", "\\", "\\n", "a b", " a ", "\r\n", "\u{feff}", "\0", "_a", "-", "0x", "'", "a,b", ")", "]", "[Global]", "\u{2028}"] {
        strs.push(leak(format!("\"{}\"", x)));
        strs.push(leak(format!("\"x{}\"", x)));
        strs.push(leak(format!("\"{}x\"", x)));
    }
    let jobs: Vec<(usize, usize)> = (0..ss.len()).flat_map(|s| (0..16).map(move |p| (s, p))).collect();
    par(sh, "strings in every position", &jobs, |c, (si, part)| {
        for (i, n) in strs.iter().enumerate() {
            if i % 16 == *part && !c.stopped() {
                let d = fill(&ss[*si], mk_str(n), true);
                step(c);
                for l in MM {
                    let s = layout(&d.toks, *l);
                    c.expect_tree(doc(), &s, &d.ev);
                }
            }
        }
    });
    sh.note(format!("strings in every position: {} positions x {} strings", ss.len(), strs.len()));
}

// ------------------------------------------------------------------ C10 terminals

pub fn c10(sh: &Shared) {
    // leads and tails of many lengths
    let lens = some_lens(sh);
    par(sh, "long blanks and comments", &lens, |c, n| {
        let z = |s: &str| s.chars().cycle().take(*n).collect::<String>();
        for tr in [z(" "), z("\n\t\r "), format!("/*{}*/", z("x*/y").replace("*/", "* ")), format!("//{}\n", z("/*x")), if *n < 5000 { "/**/".repeat(*n) } else { String::new() }] {
            for t in terms().iter().step_by(if *n > 300 { 7 } else { 1 }) {
                for (a, b) in [(tr.as_str(), ""), ("", tr.as_str()), (tr.as_str(), "x"), (tr.as_str(), tr.as_str())] {
                    if c.stopped() { return; }
                    step(c);
                    terminal(c, t, &format!("{}{}{}", a, t.node, b));
                }
            }
        }
    });
    let ts = terms();
    let mut sp: Vec<String> = vec![];
    for t in ts {
        let w = t.node;
        sp.push(w.into());
        sp.push(w.to_ascii_uppercase());
        sp.push(w.to_ascii_lowercase());
        sp.push(format!("_{}", w));
        sp.push(format!("x{}", w));
        sp.push(format!("-{}", w));
        for i in 0..w.len() {
            sp.push(w[..i].to_string());
            sp.push(format!("{}{}", &w[..i], &w[i + 1..]));
            sp.push(format!("{} {}", &w[..i], &w[i..]));
            sp.push(format!("{}{}{}", &w[..i], &w[i..i + 1], &w[i..]));
            let c = w.as_bytes()[i] as char;
            let f = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            sp.push(format!("{}{}{}", &w[..i], f, &w[i + 1..]));
        }
    }
    sp.sort();
    sp.dedup();
    let mut follow: Vec<String> = vec![String::new()];
    follow.extend(ascii().into_iter().map(|c| c.to_string()));
    for x in ["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{a0}", "\u{663}", "\u{ff21}", "  x", "//c\nx", "/*c*/x", "/**/", "//", "/*", "\r\n\t x", " // a\n /* b */ y", "..", "-x", "--", "_x", "Infinity"] {
        follow.push(x.into());
    }
    let lead = ["", " ", "\n", "\r\n", "\t", "/*x*/", "//x\n", " /* a */ // b\n", "\u{a0}", "\u{b}", "x", "/", "\u{feff}", "/*"];
    par(sh, "terminal x spelling x following character", &sp, |c, w| {
        let mut s = String::new();
        for (fi, f) in follow.iter().enumerate() {
            for (li, l) in lead.iter().enumerate() {
                // every following character after no lead; a few after each other lead
                if li > 0 && !(fi == 0 || f == "x" || f == " " || f == "(" || fi > 128) {
                    continue;
                }
                s.clear();
                s.push_str(l);
                s.push_str(w);
                s.push_str(f);
                for t in ts {
                    if c.stopped() {
                        return;
                    }
                    step(c);
                    terminal(c, t, &s);
                }
            }
        }
    });
    sh.note(format!("terminals: {} x {} spellings x {} continuations, {} leads", ts.len(), sp.len(), follow.len(), lead.len()));
    strings(sh, "ASCII strings", &ascii(), 0, sh.q(3, 3), |c, s| {
        for t in ts {
            terminal(c, t, s);
        }
    });
    strings(sh, "punctuation strings", &chars("()[]{},-.:;<=>?*/ "), 0, sh.q(5, 6), |c, s| {
        for t in &ts[..PUNCT.len()] {
            terminal(c, t, s);
        }
    });
    // every pair of spellings
    par(sh, "pairs of spellings", ts, |c, a| {
        for b in ts {
            for sep in ["", " ", "-", "_"] {
                let s = format!("{}{}{}", a.node, sep, b.node);
                for t in ts {
                    step(c);
                    terminal(c, t, &s);
                }
            }
        }
    });
    par_n(sh, "every Unicode character after a word", 64, |c, part| {
        let mut i = 0usize;
        let mut s = String::new();
        let some: Vec<&Entry> = ["term::Or", "term::DOMString", "term::Ellipsis", "term::NegInfinity"].iter().map(|n| entry(n)).collect();
        every_char(&mut |ch| {
            i += 1;
            if i % 64 != part || c.stopped() {
                return;
            }
            step(c);
            for t in &some {
                s.clear();
                s.push_str(t.node);
                s.push(ch);
                terminal(c, t, &s);
                s.clear();
                s.push(ch);
                s.push_str(t.node);
                terminal(c, t, &s);
            }
        });
    });
}
fn terminal(c: &mut Ctx, e: &Entry, s: &str) {
    let b = s.as_bytes();
    let o = skip_trivia(b);
    let w = e.node;
    let wordy = w.len() > 1 && w != "...";
    let ok = if wordy { word_at(&b[o..], w) } else { b[o..].starts_with(w.as_bytes()) };
    match c.run(e, s, true) {
        Err(p) => c.violate(e.name, s, "panicked", "Ok or Err", &p),
        Ok(r) => {
            if (r.kind == Kind::Ok) != ok {
                c.violate(e.name, s, if ok { "refused its own spelling" } else { "accepted another spelling" }, w, &show(&r));
            } else if ok {
                let end = o + w.len();
                let rest = &s[end + skip_trivia(&b[end..])..];
                if !is_suffix(r.rest, s) || r.rest.len() != rest.len() {
                    c.violate(e.name, s, "wrong remainder", rest, r.rest);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C11 layout

pub const TRIVIA: &[&str] = &[
    " ", "\t", "\n", "\r", "\r\n", "  ", "\n\n", "//\n", "// c\n", "/**/", "/***/", "/* */", "/****/", "/* c */", "/*/*/", "/*//*/", "//*/\n", "/* ; } \" */",
    "// ; } \"\n", "/*\n*/", "//\r\n", "// \r \n", " \t\r\n ", "/* \u{e9}\u{1f600} */", "// \u{e9}\n", "//a\n//b\n", "/*a*//*b*/", "/*a*/ //b\n", "//a\n/*b*/", "/* // */", "// /*\n", "/* /* */", "/* * */",
    "/** x **/", "///\n", "////\n", "/*-*/", "/*_*/", "\t\t", "/*\"*/", "//\"\n", "//\\\n", "/*\\*/", "/*a*\n/*/", "//--\n", "/*\u{a0}*/", "//\u{2028}x\n",
];
pub const NOT_TRIVIA: &[&str] = &["\u{a0}", "\u{b}", "\u{c}", "\u{feff}", "\u{2028}", "\u{2029}", "\u{85}", "\u{3000}", "\u{2003}", "\0", "\u{1}", "\u{1c}", "\u{1f}", "\u{7f}", "/", "/ /", "/*", "/*/", "#", "#c\n", "--", "\\", "\\\n", "%", "'", "<!-- -->", "*/", "/ *c*/", "/*c* /", "\u{200b}", "/* *", "@", "!", "`", "~", "|", "&", "^", "$", "%", "+"];

pub fn c11(sh: &Shared) {
    in_runs(sh, BLANK_RUNS, |c, s| { c.check_judged(doc(), s, ALL); });
    // comments that mean something to some tools, or to the source
    let texts: Vec<&'static str> = crate::dict::dict().strings.iter().chain(crate::dict::dict().words.iter()).copied().filter(|w| !w.contains("*/") && !w.contains('\n')).collect();
    par(sh, "words in comments", &texts, |c, w| {
        for tr in [format!("//{}\n", w), format!("// {} \n", w), format!("/*{}*/", w), format!("/* {} */", w), format!("/*!{}*/", w), format!("//@{}\n", w)] {
            for h in ["?a includes b;", "a?includes b;", "a includes b;?", "interface a{?const long b?=?5?;}?;"] {
                if c.stopped() { return; }
                step(c);
                c.check_judged(doc(), &h.replace('?', &tr), ALL);
            }
        }
    });
    sh.note(format!("words in comments: {} texts", texts.len()));
    blank_lengths(sh, &some_lens(sh));
    let b = bases(1, sh.thorough());
    par(sh, "one gap", &b, |c, d| {
        let mut s = String::new();
        for g in 0..=d.toks.len() {
            for tr in TRIVIA {
                if c.stopped() { return; }
                s.clear();
                for (i, t) in d.toks.iter().enumerate() {
                    if i == g { s.push_str(tr) } else if i > 0 && !glue_ok(&d.toks[i - 1], t) { s.push(' ') }
                    s.push_str(t.src);
                }
                if g == d.toks.len() { s.push_str(tr) }
                step(c);
                c.expect_tree(doc(), &s, &d.ev);
            }
        }
    });
    sh.note(format!("one gap: {} documents x every gap x {} separators", b.len(), TRIVIA.len()));
    par(sh, "all gaps", &b, |c, d| {
        let mut s = String::new();
        for k in 0..TRIVIA.len() * 2 {
            s.clear();
            for (i, t) in d.toks.iter().enumerate() {
                s.push_str(if k < TRIVIA.len() { TRIVIA[k] } else { TRIVIA[(k + i * 7) % TRIVIA.len()] });
                s.push_str(t.src);
            }
            for end in ["", " ", "//", "// c", "/**/", "\n", "//\r"] {
                let n = s.len();
                s.push_str(end);
                step(c);
                c.expect_tree(doc(), &s, &d.ev);
                s.truncate(n);
            }
        }
    });
    // any two gaps at once
    let few = ["\n", "/*a*/", "//b\r\n", "\t \t", "/* */ //\n "];
    par(sh, "two gaps", &b, |c, d| {
        let n = d.toks.len();
        let mut s = String::new();
        for g in 0..=n {
            for h in g + 1..=n {
                for (k, x) in few.iter().enumerate() {
                    for (l, y) in few.iter().enumerate() {
                        if c.stopped() { return; }
                        if n > 16 && (k + l + g + h) % 5 != 0 { continue }
                        s.clear();
                        for (i, t) in d.toks.iter().enumerate() {
                            if i == g { s.push_str(x) } else if i == h { s.push_str(y) } else if i > 0 && !glue_ok(&d.toks[i - 1], t) { s.push(' ') }
                            s.push_str(t.src);
                        }
                        if h == n { s.push_str(y) }
                        step(c);
                        c.expect_tree(doc(), &s, &d.ev);
                    }
                }
            }
        }
    });
    sh.note(format!("two gaps: {} documents x every two gaps x {} pairs of separators", b.len(), few.len() * few.len()));
    // one gap of documents that combine two (three) unusual parts
    let more = ["\n", "/**/", "/*a*/", "//b\n", " \t\r\n", "\n/* c */ "];
    for (n, k) in [("Definition", sh.q(2, 3)), ("InterfaceMember", 2), ("MixinMember", 2), ("NamespaceMember", 2), ("DictionaryMember", 2), ("Argument", 2), ("ExtendedAttribute", 2), ("Type", 2)] {
        par_derive(sh, "one gap/larger documents", &starts(n), cfg(k, Naming::Distinct, false), |c, d| {
            let n = d.toks.len();
            let mut s = String::new();
            for g in 0..=n {
                for x in more {
                    if c.stopped() { return; }
                    s.clear();
                    for (i, t) in d.toks.iter().enumerate() {
                        if i == g { s.push_str(x) } else if i > 0 && !glue_ok(&d.toks[i - 1], t) { s.push(' ') }
                        s.push_str(t.src);
                    }
                    if g == n { s.push_str(x) }
                    step(c);
                    c.expect_tree(doc(), &s, &d.ev);
                }
            }
        });
    }
    sh.note(format!("one gap/larger documents: all derivations of 2-3 departures x every gap x {} separators", more.len()));
    // all pairs of separators in two gaps of a small document of each kind, and all pairs in one gap
    let kinds = default_definitions();
    par(sh, "pairs of separators", &kinds, |c, (t, ev)| {
        let ev = format!("[[{}]]", ev);
        let mut s = String::new();
        for g in 0..=t.len() {
            for a in TRIVIA {
                for b in TRIVIA {
                    if c.stopped() { return; }
                    for split in [false, true] {
                        if split && g + 1 > t.len() { continue; }
                        s.clear();
                        for (i, x) in t.iter().enumerate() {
                            if i == g {
                                s.push_str(a);
                                if !split { s.push_str(b) }
                            } else if split && i == g + 1 {
                                s.push_str(b);
                            } else if i > 0 && !glue_ok(&t[i - 1], x) {
                                s.push(' ');
                            }
                            s.push_str(x.src);
                        }
                        if g == t.len() { s.push_str(a); s.push_str(b) }
                        if split && g + 1 == t.len() { s.push_str(b) }
                        step(c);
                        c.expect_tree(doc(), &s, &ev);
                    }
                }
            }
        }
    });
    sh.note("pairs of separators: every gap and every adjacent pair of gaps of the 14 default definitions".into());
    // all short strings in a gap: the lexer decides whether the token sequence is unchanged
    let host = ["a?includes b;", "a includes b;?", "?a includes b;", "typedef long?x;", "enum a{\"b\"?};", "enum a{\"b?\"};", "interface a{?};", "interface a{long?b();};", "?", "interface a{const long b=1?;};"];
    strings(sh, "separator strings", &chars(" \t\n\r/*a\"\u{a0}"), 0, sh.q(6, 7), |c, s| {
        for h in host {
            let t = h.replace('?', s);
            c.check_judged(doc(), &t, ALL);
        }
    });
    strings(sh, "comment strings", &chars("/*\n -"), 0, sh.q(8, 10), |c, s| {
        for h in &host[..4] {
            let t = h.replace('?', s);
            c.check_judged(doc(), &t, ALL);
        }
    });
    strings(sh, "documents of separators", &chars(" \n\r\t/*x"), 0, sh.q(7, 8), |c, s| {
        c.check_judged(doc(), s, ALL);
    });
    // comment content: every character, every ASCII pair
    let wrap = [("/*", "*/"), ("//", "\n"), ("/* ", " */"), ("// ", " \n")];
    par_n(sh, "comment content/every character", 64, |c, part| {
        let mut i = 0usize;
        let mut s = String::new();
        every_char(&mut |ch| {
            i += 1;
            if i % 64 != part || c.stopped() { return; }
            step(c);
            for (a, b) in wrap {
                s.clear();
                s.push_str("a ");
                s.push_str(a);
                s.push(ch);
                s.push_str(b);
                s.push_str("includes b;");
                c.check_judged(doc(), &s, ALL);
            }
            // and as a separator of its own
            s.clear();
            s.push_str("a ");
            s.push(ch);
            s.push_str(" includes b;");
            c.check_judged(doc(), &s, ALL);
        });
    });
    strings(sh, "comment content/ASCII", &ascii(), 2, 2, |c, x| {
        for (a, b) in wrap {
            let s = format!("a {}{}{} includes b;", a, x, b);
            c.check_judged(doc(), &s, ALL);
            let s = format!("a includes b;{}{}", a, x);
            c.check_judged(doc(), &s, ALL);
        }
    });
    // what is not white space
    par(sh, "not white space", &b, |c, d| {
        let mut s = String::new();
        for g in 0..=d.toks.len() {
            for tr in NOT_TRIVIA {
                if c.stopped() { return; }
                s.clear();
                for (i, t) in d.toks.iter().enumerate() {
                    if i == g { s.push(' '); s.push_str(tr); s.push(' ') } else if i > 0 && !glue_ok(&d.toks[i - 1], t) { s.push(' ') }
                    s.push_str(t.src);
                }
                if g == d.toks.len() { s.push(' '); s.push_str(tr) }
                step(c);
                c.check_judged(doc(), &s, REJ);
            }
        }
    });
    sh.note(format!("not white space: {} documents x every gap x {} strings", b.len(), NOT_TRIVIA.len()));
    // layouts of deeper derivations
    for (f, n, k) in [("definitions", "Definition", sh.q(3, 4)), ("interface members", "InterfaceMember", sh.q(2, 3)), ("arguments", "Argument", sh.q(2, 3)), ("attributes", "ExtendedAttribute", 2)] {
        derive_check(sh, f, &starts(n), cfg(k, Naming::Same, false), &[Layout::Min, Layout::Space, Layout::Mixed]);
    }
}

// ------------------------------------------------------------------ C14 nodes by themselves

pub fn c14(sh: &Shared) {
    let every: Vec<&str> = LISTS.iter().map(|l| l.0).collect();
    list_lengths(sh, "list lengths", &every, &some_counts(sh), |c, s, d| {
        // the first definition by itself; the whole list by itself
        let def = entry("Definitions");
        let body = s.strip_suffix(" // end").unwrap_or(s);
        for tail in ["", "@", " @/**/x"] {
            let t = format!("{}{}", body, tail);
            step(c);
            match c.run(def, &t, true) {
                Err(p) => c.violate(def.name, &t, "panicked", "Ok", &p),
                Ok(o) => if !d.toks.is_empty() && (o.kind != Kind::Ok || o.out.ev != d.ev || o.rest != tail.trim_start() || !is_suffix(o.rest, &t)) {
                    c.violate(def.name, &t, "the node does not parse by itself", &d.ev, &show(&o));
                },
            }
        }
    });
    let es = entries();
    let suffix = ["", "@", " @x", "\n// c\n@", "\u{e9}", "\0", " /", "/* open", "\t\r\n/**/ ", "// end", "@/**/ ", "\u{a0} "];
    let mut jobs: Vec<(&'static Entry, Deriv)> = vec![];
    for e in es {
        let k = if sh.thorough() { 3 } else { 2 };
        for v in [false, true] {
            let k = if v { k - 1 } else { k };
            for d in node_derivs(e, k, v) {
                jobs.push((e, d));
            }
        }
    }
    par(sh, "node x following text", &jobs, |c, (e, d)| {
        let mut s = String::new();
        let mut body = String::new();
        for l in [Layout::Min, Layout::Mixed] {
            layout_into(&d.toks, l, &mut body);
            if l == Layout::Mixed {
                body.truncate(body.len() - " // end".len());
            }
            for x in suffix {
                if c.stopped() { return; }
                // a comma, `or` ... may continue a node; these suffixes cannot
                s.clear();
                s.push_str(&body);
                s.push_str(x);
                step(c);
                let tail = &x[skip_trivia(x.as_bytes())..];
                let open_word = e.node == "parse";
                let _ = open_word;
                match c.run(e, &s, true) {
                    Err(p) => c.violate(e.name, &s, "panicked", "Ok", &p),
                    Ok(o) => {
                        if e.name == "parse" {
                            if (o.kind == Kind::Ok) != tail.is_empty() {
                                c.violate(e.name, &s, "document followed by garbage", "Ok iff nothing is left", &show(&o));
                            }
                            continue;
                        }
                        if o.kind != Kind::Ok || o.out.ev != d.ev || !is_suffix(o.rest, &s) {
                            c.violate(e.name, &s, "the node does not parse by itself", &d.ev, &show(&o));
                        } else if d.toks.is_empty() {
                            // nothing consumed: the remainder is the input, possibly without its leading white space
                            if o.rest != s && o.rest != tail {
                                c.violate(e.name, &s, "wrong remainder", &s, o.rest);
                            }
                        } else if o.rest != tail {
                            c.violate(e.name, &s, "wrong remainder", tail, o.rest);
                        } else {
                            c.outcome(&d.ev);
                        }
                    }
                }
            }
        }
    });
    sh.note(format!("node x following text: {} derivations of {} node types, 2 layouts, {} suffixes", jobs.len(), es.len(), suffix.len()));
    // followed by any token (and any two tokens): the longest derivable prefix is consumed
    let all = all_tokens();
    let mut jobs: Vec<(&'static Entry, Deriv)> = vec![];
    for e in es.iter().filter(|e| e.name != "parse") {
        for d in node_derivs(e, sh.q(2, 3), false) {
            jobs.push((e, d));
        }
    }
    par(sh, "node x following token", &jobs, |c, (e, d)| {
        let mut s = String::new();
        let mut t = d.toks.clone();
        for a in &all {
            if c.stopped() { return; }
            t.push(*a);
            for l in [Layout::Space, Layout::Min] {
                layout_into(&t, l, &mut s);
                step(c);
                prefix_case(c, e, &s, &t);
            }
            t.pop();
        }
    });
    sh.note(format!("node x following token: {} derivations x {} tokens", jobs.len(), all.len()));
    let mut jobs: Vec<(&'static Entry, Deriv)> = vec![];
    for e in es.iter().filter(|e| e.name != "parse") {
        for d in node_derivs(e, 1, false) {
            if d.toks.len() > sh.q(6, 14) { continue; }
            jobs.push((e, d));
        }
    }
    par(sh, "node x two following tokens", &jobs, |c, (e, d)| {
        let mut s = String::new();
        let mut t = d.toks.clone();
        for a in &all {
            t.push(*a);
            for b in &all {
                if c.stopped() { return; }
                t.push(*b);
                layout_into(&t, Layout::Space, &mut s);
                step(c);
                prefix_case(c, e, &s, &t);
                t.pop();
            }
            t.pop();
        }
    });
    sh.note(format!("node x two following tokens: {} derivations", jobs.len()));
    // single-token edits of a node: whatever it accepts is spelled by the consumed text
    let jobs: Vec<(&'static Entry, Deriv)> = es.iter().filter(|e| e.name != "parse").flat_map(|e| node_derivs(e, 1, false).into_iter().map(move |d| (e, d))).collect();
    par(sh, "node edits", &jobs, |c, (e, d)| {
        let mut s = String::new();
        token_edits(&d.toks, &all, &mut |t| {
            if c.stopped() { return; }
            for l in [Layout::Space, Layout::Min] {
                step(c);
                layout_into(t, l, &mut s);
                prefix_case(c, e, &s, t);
            }
        });
    });
    sh.note(format!("node edits: {} derivations", jobs.len()));
    // lexical nodes on arbitrary text
    let nodes: Vec<&'static Entry> = LIT_NODES.iter().chain(["Identifier", "IdentifierOrString"].iter()).map(|n| entry(n)).collect();
    strings(sh, "lexical nodes", &chars("a0x.-\"_ \n/*e[]{}\u{e9}"), 0, sh.q(5, 6), |c, s| {
        for e in &nodes {
            lexical(c, e, s);
        }
    });
}
/// Node parser on a text of tokens: what it consumed is spelled by its result, and where strict and
/// lenient grammar agree on the longest derivable prefix, that prefix is consumed.
fn prefix_case(c: &mut Ctx, e: &Entry, s: &str, t: &[Tok]) {
    if LIT_NODES.contains(&e.node) || e.node == "Identifier" || e.node == "IdentifierOrString" {
        return lexical(c, e, s); // these may end inside a token
    }
    let o = match c.run(e, s, true) {
        Err(p) => return c.violate(e.name, s, "panicked", "Ok or Err", &p),
        Ok(o) => o,
    };
    let m = model();
    let ls = c.j.rs.longest(&m.s, m.s.id(e.node), t);
    let ll = c.j.rl.longest(&m.l, m.l.id(e.node), t);
    if o.kind == Kind::Ok {
        if !is_suffix(o.rest, s) {
            return c.violate(e.name, s, "the remainder is not a suffix", "suffix", o.rest);
        }
        if o.rest.len() != s.len() && o.rest.starts_with(&[' ', '\n', '\t'][..]) {
            return c.violate(e.name, s, "the remainder starts with white space", "", o.rest);
        }
        let used = s.len() - o.rest.len();
        // tokens fully inside the consumed part
        let mut n = 0;
        let mut at = 0;
        while n < t.len() {
            // the layouts used here have blanks between tokens only
            at += s[at..].len() - s[at..].trim_start_matches(' ').len() + t[n].src.len();
            if at > used { break; }
            n += 1;
        }
        if let Some(msg) = spells(&o.out.ys, &t[..n]) {
            return c.violate(e.name, s, "the node does not spell the consumed text", &msg, &show(&o));
        }
        if ll.map_or(true, |l| n > l) {
            return c.violate(e.name, s, "consumed more than the grammar allows", &format!("{:?} tokens", ll), &show(&o));
        }
        if let (Some(a), Some(b)) = (ls, ll) {
            if a == b && n != a {
                return c.violate(e.name, s, "did not take the longest text", &format!("{} tokens", a), &show(&o));
            }
            if a == b {
                let mut ev = String::new();
                if c.j.rs.tree(&m.s, m.s.id(e.node), &t[..a], &mut ev) && ev != o.out.ev {
                    return c.violate(e.name, s, "wrong tree", &ev, &o.out.ev);
                }
            }
        }
    } else if ls.is_some() && ls == ll {
        c.violate(e.name, s, "refused a text that starts with a derivable one", &format!("{:?} tokens", ls), &show(&o));
    }
}

// ------------------------------------------------------------------ C16 size
/// a word and words around it: extended, repeated, cut, in other cases
pub fn around(w: &str) -> Vec<String> {
    let mut v = vec![w.to_string(), format!("{}x", w), format!("{}Xy", w), format!("x{}", w), format!("{}1", w), format!("{}-", w), format!("{}_{}", w, w), w.to_ascii_uppercase(), w.to_ascii_lowercase()];
    let mut c = w.chars();
    c.next_back();
    v.push(c.as_str().to_string());
    v
}


/// (length, number of contexts it is tried in)
fn counts(sh: &Shared) -> Vec<(usize, usize)> {
    let mut v: std::collections::BTreeMap<usize, usize> = (0..=70).map(|n| (n, usize::MAX)).collect();
    let mut add = |it: &mut dyn Iterator<Item = usize>, k: usize| it.for_each(|n| { let e = v.entry(n).or_insert(k); *e = (*e).max(k) });
    add(&mut [99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 258, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097].into_iter(), usize::MAX);
    add(&mut (71..=sh.q(700, 4200)), sh.q(3, 6));
    add(&mut (701..=sh.q(1100, 10010)), sh.q(1, 2));
    add(&mut [8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000].into_iter(), sh.q(2, usize::MAX));
    add(&mut crate::dict::sizes(100_000), 3);
    add(&mut [131071, 131072, 131073, 200000, 262145].into_iter().chain(crate::dict::sizes(1_100_000)), 1);
    if sh.thorough() {
        add(&mut (71..=1100), usize::MAX);
        add(&mut [99999, 100000, 100001, 131071, 131072, 131073, 262144, 300000].into_iter(), 2);
    }
    v.into_iter().collect()
}
/// Names and strings that carry a meaning for some tools, and those the library's own source mentions,
/// in every name and string of every small document (the latter also two at a time).
pub fn magic_names<F: Fn(&mut Ctx, &str, &[Tok]) + Sync>(sh: &Shared, f: F) {
    let magic = &crate::dict::dict().magic;
    let mut words: Vec<&'static str> = vec!["Exposed", "Window", "toString", "length", "void", "Constructor", "prototype", "item"];
    words.extend(magic.iter().take(400));
    if magic.len() <= 60 {
        words.extend(magic.iter().flat_map(|w| around(w)).filter(|w| match_ident(w.as_bytes()) == Some(w.len()) && word_kind(w).is_none()).map(leak));
        words.sort();
        words.dedup();
    }
    let strs: Vec<&'static str> = words.iter().copied().chain(crate::dict::dict().strings.iter().copied()).map(|w| leak(format!("\"{}\"", w))).collect();
    let pairs: Vec<(&'static str, &'static str)> = if magic.len() <= 12 {
        magic.iter().flat_map(|a| magic.iter().map(move |b| (*a, *b))).collect()
    } else {
        magic.iter().map(|a| (*a, *a)).collect()
    };
    let b = bases(1, false);
    par(sh, "significant names", &b, |c, d| {
        let mut s = String::new();
        let at: Vec<usize> = (0..d.toks.len()).filter(|i| d.toks[*i].k == IDENT).collect();
        let mut t = d.toks.clone();
        for (x, i) in at.iter().enumerate() {
            for w in &words {
                if c.stopped() { return; }
                t[*i] = mk_name(w);
                step(c);
                layout_into(&t, Layout::Min, &mut s);
                f(c, &s, &t);
            }
            for j in &at[x + 1..] {
                for (v, w) in &pairs {
                    if c.stopped() { return; }
                    t[*i] = mk_name(v);
                    t[*j] = mk_name(w);
                    step(c);
                    layout_into(&t, Layout::Min, &mut s);
                    f(c, &s, &t);
                }
                t[*j] = d.toks[*j].clone();
            }
            t[*i] = d.toks[*i].clone();
        }
        for i in (0..d.toks.len()).filter(|i| d.toks[*i].k == STR) {
            for w in &strs {
                if c.stopped() { return; }
                t[i] = mk_str(w);
                step(c);
                layout_into(&t, Layout::Min, &mut s);
                f(c, &s, &t);
            }
            t[i] = d.toks[i].clone();
        }
    });
    sh.note(format!("significant names: {} names, {} pairs, {} strings in every name and string of {} documents", words.len(), pairs.len(), strs.len(), b.len()));
}
/// every word of the sources and sample files in every name slot
pub fn source_words<F: Fn(&mut Ctx, &str, &Deriv) + Sync>(sh: &Shared, f: F) {
    let slots = name_slots();
    let words: Vec<&'static str> = crate::dict::dict().words.iter().copied().filter(|w| word_kind(w).is_none()).collect();
    par(sh, "words of the sources", &words, |c, w| {
        for (_, sl) in &slots {
            if c.stopped() { return; }
            let d = fill(sl, mk_name(w), false);
            step(c);
            f(c, &layout(&d.toks, Layout::Min), &d);
        }
    });
    sh.note(format!("words of the sources: {} words in {} slots", words.len(), slots.len()));
}
/// the event text with name `n<i>` replaced by `names[i]` and string `s<j>` by `strs[j]`
fn renamed(ev: &str, names: &[&str], strs: &[&str]) -> String {
    let mut o = String::with_capacity(ev.len() + 16);
    let mut rest = ev;
    // a name is recorded as `i<len>:n<i> `, a string as `s<len>:s<i> `; nothing else in an event looks like it
    while let Some(p) = rest.find(':') {
        let head = &rest[..p];
        let cut = head.trim_end_matches(|c: char| c.is_ascii_digit());
        let body = &rest[p + 1..];
        if cut.len() == head.len() {
            // the terminal `:`
            o.push_str(head);
            o.push(':');
            rest = body;
            continue;
        }
        let end = body.find(' ').unwrap();
        let idx = body[1..end].parse::<usize>();
        match (cut.chars().last(), body.as_bytes()[0], idx) {
            (Some('i'), b'n', Ok(k)) => {
                o.push_str(&cut[..cut.len() - 1]);
                ev_text(&mut o, 'i', names[k]);
            }
            (Some('s'), b's', Ok(k)) => {
                o.push_str(&cut[..cut.len() - 1]);
                ev_text(&mut o, 's', strs[k]);
            }
            _ => {
                o.push_str(head);
                o.push(':');
                o.push_str(&body[..=end]);
            }
        }
        rest = &body[end + 1..];
    }
    o.push_str(rest);
    o
}
/// all restricted growth strings of length `n` (set partitions)
fn partitions(n: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|p| { let m = p.iter().max().map_or(0, |x| x + 1); (0..=m).map(move |x| { let mut q = p.clone(); q.push(x); q }) }).collect();
    }
    v
}
/// Names and strings of one document related to each other: every way in which up to five (six) names can
/// coincide, every pair of more; every pair where one name extends the other, differs in case only, or
/// is its escaped spelling; every pair of equal strings and every string equal to a name.
pub fn coincidences<F: Fn(&mut Ctx, &str, &Deriv) + Sync>(sh: &Shared, family: &'static str, st: &[Start], bound: usize, f: F) {
    let full = sh.q(5, 6);
    let parts: Vec<Vec<Vec<usize>>> = (0..=full).map(partitions).collect();
    par_derive(sh, family, st, cfg(bound, Naming::Indexed, false), |c, d| {
        let ni: Vec<usize> = (0..d.toks.len()).filter(|i| d.toks[*i].k == IDENT).collect();
        let si: Vec<usize> = (0..d.toks.len()).filter(|i| d.toks[*i].k == STR).collect();
        let (n, m) = (ni.len(), si.len());
        if n + m < 2 { return }
        let mut s = String::new();
        let mut x = Deriv { toks: d.toks.clone(), ev: String::new() };
        let base: Vec<&'static str> = (0..n).map(|i| indexed(i, false)).collect();
        let sbase: Vec<&'static str> = (0..m).map(|i| indexed(i, true)).collect();
        let mut go = |c: &mut Ctx, names: &[&'static str], strs: &[&'static str]| {
            if c.stopped() { return }
            step(c);
            for (k, i) in ni.iter().enumerate() { x.toks[*i] = mk_name(names[k]); }
            for (k, i) in si.iter().enumerate() { x.toks[*i] = mk_str(strs[k]); }
            let nv: Vec<&str> = names.iter().map(|w| w.strip_prefix('_').unwrap_or(w)).collect();
            let sv: Vec<&str> = strs.iter().map(|w| &w[1..w.len() - 1]).collect();
            x.ev = renamed(&d.ev, &nv, &sv);
            layout_into(&x.toks, Layout::Min, &mut s);
            f(c, &s, &x);
        };
        let mut w = base.clone();
        if n <= full {
            for p in &parts[n] {
                for k in 0..n { w[k] = base[p[k]]; }
                go(c, &w, &sbase);
            }
        }
        w.copy_from_slice(&base);
        for i in 0..n {
            for j in 0..n {
                if i == j { continue }
                if n > full && i < j {
                    w[j] = base[i];
                    go(c, &w, &sbase);
                }
                // extends, differs in case, escaped
                let rel: [(&'static str, &'static str); 3] = [("ab", "abc"), ("ab", "aB"), ("ab", "_ab")];
                for (a, b) in rel {
                    w[i] = a;
                    w[j] = b;
                    go(c, &w, &sbase);
                }
                w[i] = base[i];
                w[j] = base[j];
            }
        }
        if n > full {
            let same = vec![base[0]; n];
            go(c, &same, &sbase);
        }
        let mut t = sbase.clone();
        for i in 0..m {
            for j in i + 1..m {
                t[j] = sbase[i];
                go(c, &base, &t);
                t[j] = sbase[j];
            }
            t[i] = "\"ab\"";
            for j in 0..n {
                w[j] = "ab";
                go(c, &w, &t);
                w[j] = base[j];
            }
            t[i] = sbase[i];
        }
    });
    sh.note(format!("{}: {} start points, <= {} departures, every coincidence of <= {} names", family, st.len(), bound, full));
}
/// every string over the characters of numbers, and every short string of a quoted literal, as a value
pub fn literal_texts<F: Fn(&mut Ctx, &str) + Sync>(sh: &Shared, f: F) {
    let ctx = ["interface a{const long b=?;};", "dictionary a{long b=?;};", "callback a=long(optional long b= ?);"];
    strings(sh, "number texts", &chars("0179aFxXeE.-+"), 1, sh.q(5, 6), |c, s| {
        for x in ctx {
            step(c);
            f(c, &x.replace('?', s));
        }
    });
    strings(sh, "string texts", &chars("a0 /*\n;_-\u{e9}\u{1f600}"), 0, sh.q(4, 5), |c, s| {
        for x in ["enum \u{20}a{\"?\",\"?\"};", "dictionary a{any b=\"?\";};", "[a=\"?\",b=\"?\"]a includes b;"] {
            step(c);
            f(c, &x.replace('?', s));
        }
    });
    sh.note("every short number text and string text as a value".into());
}
/// comments that repeat the text of the tokens around them: the text of the next token, of the previous one, of
/// the whole document; before every token, and before all of them
pub fn echoes<F: Fn(&mut Ctx, &str, &Deriv) + Sync>(sh: &Shared, f: F) {
    let b = bases(1, false);
    par(sh, "comments that repeat tokens", &b, |c, d| {
        let n = d.toks.len();
        let whole = layout(&d.toks, Layout::Min);
        let echo = |i: usize, kind: usize| -> String {
            match kind {
                0 => format!("/*{}*/", if i < n { d.toks[i].src } else { "" }),
                1 => format!("//{}\n", if i < n { d.toks[i].src } else { "" }),
                2 => format!("/*{}*/", if i > 0 { d.toks[i - 1].src } else { "" }),
                3 => format!("//{}\n", whole),
                _ => format!("/*{}*/", whole),
            }
        };
        for kind in 0..5 {
            // at one gap, or at all
            for at in 0..=n + 1 {
                if c.stopped() { return }
                if kind >= 3 && at > n { continue }
                let mut s = String::new();
                for i in 0..=n {
                    if i == at || at == n + 1 { s.push_str(&echo(i, kind)); } else if i > 0 && i < n { s.push(' '); }
                    if i < n { s.push_str(d.toks[i].src); }
                }
                step(c);
                f(c, &s, d);
            }
        }
    });
    sh.note(format!("comments that repeat tokens: {} documents, 5 kinds of comment, at every gap and at all", b.len()));
}
/// a run of one character on both sides of any other, in each kind of token and gap: every ASCII character and
/// some beyond, at every place of runs of every length up to a bound (scanners that work in blocks)
pub fn in_runs<F: Fn(&mut Ctx, &str) + Sync>(sh: &Shared, hosts: &[(&str, &str)], f: F) {
    let cs: Vec<char> = (0u8..128).map(|b| b as char).chain("\u{80}\u{85}\u{a0}\u{a2}\u{e9}\u{3a0}\u{1680}\u{2003}\u{2028}\u{feff}\u{ff0f}\u{1f600}\u{10ffff}".chars()).collect();
    let top = sh.q(18, 34);
    let ends: Vec<usize> = (0..=top).chain([31, 32, 33, 63, 64, 65].into_iter().filter(|n| *n > top)).collect();
    let jobs: Vec<(&str, &str, usize)> = hosts.iter().flat_map(|(h, x)| ends.iter().map(move |a| (*h, *x, *a))).collect();
    par(sh, "runs", &jobs, |c, (h, x, a)| {
        let (pre, post) = h.split_once('?').unwrap();
        let mut s = String::new();
        for ch in &cs {
            for b in &ends {
                if c.stopped() { return }
                s.clear();
                s.push_str(pre);
                for _ in 0..*a { s.push_str(x) }
                s.push(*ch);
                for _ in 0..*b { s.push_str(x) }
                s.push_str(post);
                step(c);
                f(c, &s);
            }
        }
    });
    sh.note(format!("runs: {} characters inside runs of up to {} + {} equal characters, in {} hosts", cs.len(), ends.last().unwrap(), ends.last().unwrap(), hosts.len()));
}
pub const BLANK_RUNS: &[(&str, &str)] = &[("a includes?b;", " "), ("?a includes b;", "\n"), ("a includes b;?", "\t"), ("interface a{const long b=5?;};", " "), ("/*?*/a includes b;", "x"), ("a includes b/*?*/;", " "), ("//?\na includes b;", "-"), ("a includes b;//?", "x"), ("/*?*/", "*")];
pub const NAME_RUNS: &[(&str, &str)] = &[("typedef long ?;", "x"), ("typedef ? b;", "Z9"), ("[a=?]b includes c;", "-"), ("? includes b;", "x_")];
pub const STRING_RUNS: &[(&str, &str)] = &[("enum a{\"?\",\"b\"};", "x"), ("dictionary a{any b=\"?\";};", "\u{e9}"), ("[a=\"?\"]b includes c;", " "), ("enum a{\"?", "y")];
pub const NUMBER_RUNS: &[(&str, &str)] = &[("interface a{const long b=?;};", "1"), ("dictionary a{long b=0x?;};", "f"), ("dictionary a{long b=-0?;};", "7"), ("dictionary a{double b=1.?;};", "0"), ("interface a{const double b=1?;};", "8")];
/// one multi-byte character (or several) at every byte of long texts, from the start and from the end
fn wide_places(sh: &Shared) {
    let heads = ["", "@", "/*", "//", "\"", "interface a{", "a includes b;@", "a includes b;", "enum a{\"", "typedef ", " ", "[", "interface a{const long b="];
    let tops: Vec<usize> = (0..=sh.q(1100usize, 4200)).chain([2047, 2048, 4093, 4094, 4095, 4096, 4097, 8191, 8192, 16384, 65533, 65534, 65535, 65536]).chain(crate::dict::sizes(70_000).flat_map(|n| [n.saturating_sub(3), n.saturating_sub(2), n])).collect();
    par(sh, "wide characters at every place", &tops, |c, n| {
        let mut s = String::new();
        for h in heads {
            for x in ["x", " "] {
                for w in ["\u{e9}", "\u{2603}\u{2603}", "\u{1f600}\u{1f600}\u{1f600}"] {
                    for tail in ["", "y", "*/", "\n"] {
                        if c.stopped() { return }
                        if *n > 1100 && (x == " " || tail.len() > 1) { continue }
                        // from the start
                        s.clear();
                        s.push_str(h);
                        for _ in 0..*n { s.push_str(x) }
                        s.push_str(w);
                        s.push_str(tail);
                        step(c);
                        total(c, doc(), &s);
                        if tail.is_empty() {
                            // and from the end
                            s.clear();
                            s.push_str(h);
                            s.push_str(w);
                            for _ in 0..*n { s.push_str(x) }
                            step(c);
                            total(c, doc(), &s);
                        }
                    }
                }
            }
        }
    });
    sh.note(format!("wide characters at every place: {} places up to {} behind {} openings, from the start and from the end", tops.len(), tops.iter().max().unwrap(), heads.len()));
}
/// every name of at most two characters and every string of at most two ASCII characters, alone in each position
pub fn short_values<F: Fn(&mut Ctx, &str) + Sync>(sh: &Shared, hosts: &[&str], f: F) {
    let al: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_', '-']).collect();
    let mut vals: Vec<String> = al[..52].iter().map(|c| c.to_string()).collect();
    vals.extend(al[..52].iter().flat_map(|a| al.iter().map(move |b| format!("{}{}", a, b))));
    if sh.thorough() {
        vals.extend(al[..52].iter().flat_map(|a| al.iter().map(move |b| (a, b))).flat_map(|(a, b)| al.iter().map(move |c| format!("{}{}{}", a, b, c))));
    }
    let n = vals.len();
    let asc: Vec<char> = (0u8..128).map(|b| b as char).filter(|c| *c != '"').collect();
    vals.push("\"\"".into());
    vals.extend(asc.iter().map(|a| format!("\"{}\"", a)));
    vals.extend(asc.iter().flat_map(|a| asc.iter().map(move |b| format!("\"{}{}\"", a, b))));
    vals.extend("azAZ019_- */=".chars().flat_map(|a| "azAZ019_- */=".chars().map(move |b| (a, b))).flat_map(|(a, b)| "azAZ019_- */=".chars().map(move |c| format!("\"{}{}{}\"", a, b, c))));
    par(sh, "short values", &vals, |c, v| {
        for h in hosts {
            if c.stopped() { return }
            step(c);
            f(c, &h.replace('?', v));
        }
    });
    sh.note(format!("short values: {} names and {} strings in {} positions", n, vals.len() - n, hosts.len()));
}
/// where a value, a name or a string may stand (texts outside the grammar are rejected, which is judged too)
pub const VALUE_HOSTS: &[&str] = &["[a=?]b includes c;", "[a=(b,?)]b includes c;", "[?]b includes c;", "[a=b(long c,optional any d=?)]b includes c;", "dictionary a{any b=?;};", "callback a=?(any... ?);", "interface a{any b(optional any c=?);};",
    "enum a{?,\"b\"};", "enum ?{\"b\"};", "interface a:?{};", "? includes a;", "a implements ?;", "typedef ? a;", "typedef any ?;", "typedef(? or long)a;", "typedef record<?,?>a;", "interface a{attribute ? b;};", "namespace a{? b(? c);};", "interface mixin a{readonly attribute any ?;};", "dictionary a{required any ?;};", "interface a{const ? b=5;};", "interface a{const long ?=5;};", "partial dictionary ?{};"];
/// every name of at most four characters (and every string of at most three ASCII characters), thousands
/// to a document: kept verbatim, in order, where it was written
pub fn short_names(sh: &Shared) {
    use weedle::attribute::ExtendedAttribute::IdentList;
    use weedle::Definition::{Enum, IncludesStatement};
    let al: Vec<u8> = (b'a'..=b'z').chain(b'A'..=b'Z').chain(b'0'..=b'9').chain([b'_', b'-']).collect();
    let two: Vec<String> = al[..52].iter().flat_map(|a| al.iter().map(move |b| format!("{}{}", *a as char, *b as char))).collect();
    let bad = |s: &str, ws: &[String], got: Vec<&str>| -> Option<String> {
        // offset of each element: the list starts after the first '(' or '{' and has one byte between elements
        let mut at = s.find(|c| c == '(' || c == '{').unwrap() + 1;
        if got.len() != ws.len() { return Some(format!("{} elements instead of {}", got.len(), ws.len())) }
        for (w, g) in ws.iter().zip(got) {
            let q = if s.as_bytes()[at] == b'"' { 1 } else { 0 };
            if g != w { return Some(format!("{:?} instead of {:?}", g, w)) }
            if g.as_ptr() as usize != s.as_ptr() as usize + at + q { return Some(format!("{:?} not where it was written", g)) }
            at += w.len() + 2 * q + 1;
        }
        None
    };
    let judge = |c: &mut Ctx, s: String, ws: &[String]| {
        step(c);
        c.enter("parse", &s);
        IN_CODE.with(|c| c.set(true));
        let r = std::panic::catch_unwind(|| match weedle::parse(&s) {
            Ok(d) => match &d[..] {
                [IncludesStatement(i)] => match i.attributes.as_ref().map(|a| &a.body.list[..]) {
                    Some([IdentList(l)]) => bad(&s, ws, l.list.body.list.iter().map(|x| x.0).collect()),
                    _ => Some("another attribute".into()),
                },
                [Enum(e)] => bad(&s, ws, e.values.body.list.iter().map(|x| x.0).collect()),
                _ => Some("another definition".into()),
            },
            Err(_) => Some("not accepted".into()),
        });
        IN_CODE.with(|c| c.set(false));
        c.leave();
        c.st.traces += 1;
        c.st.states += ws.len() as u64;
        let f = c.st.families.entry(c.family.to_string()).or_default();
        f.0 += 1;
        f.1 += 1;
        let m = match r { Ok(None) => return, Ok(Some(m)) => m, Err(p) => panic_msg(p) };
        c.violate("parse", &s, "a name or string is not recorded as it was written", "", &m);
    };
    par(sh, "all short names", &two, |c, p| {
        if c.stopped() { return; }
        let mut ws = vec![p[..1].to_string(), p.clone()];
        for x in &al {
            ws.push(format!("{}{}", p, *x as char));
            for y in &al { ws.push(format!("{}{}{}", p, *x as char, *y as char)) }
        }
        judge(c, format!("[x=({})]a includes b;", ws.join(",")), &ws);
    });
    let ascii: Vec<char> = (0u8..128).map(|b| b as char).filter(|c| *c != '"').collect();
    par(sh, "all short strings", &ascii, |c, p| {
        for q in &ascii {
            if c.stopped() { return; }
            let mut ws = vec![String::new(), p.to_string(), format!("{}{}", p, q)];
            for r in &ascii { ws.push(format!("{}{}{}", p, q, r)) }
            judge(c, format!("enum a{{{}}};", ws.iter().map(|w| format!("\"{}\"", w)).collect::<Vec<_>>().join(",")), &ws);
        }
    });
    sh.note("all short names: every name of at most 4 characters; every string of at most 3 ASCII characters; text, order and place".into());
}
/// strings of the source that are no token, in the place of and between the tokens of every document
pub fn source_strings<F: Fn(&mut Ctx, &str) + Sync>(sh: &Shared, f: F) {
    let novel: Vec<&'static str> = crate::dict::dict().strings.iter().copied().filter(|w| !PUNCT.contains(w) && !WORDS.contains(w) && !w.is_empty()).take(60).collect();
    let b = bases(1, false);
    par(sh, "strings of the source", &b, |c, d| {
        for i in 0..=d.toks.len() {
            let (l, r) = (layout(&d.toks[..i], Layout::Min), layout(&d.toks[i..], Layout::Min));
            let r2 = layout(&d.toks[(i + 1).min(d.toks.len())..], Layout::Min);
            for w in &novel {
                let more = ["x", "(x)", "(x, y)", "\"s\"", "= 5", "= x", "<x>", "{ }", ";", ": x", "x ;", "long x ;"];
                for t in [format!("{}{}{}", l, w, r), format!("{} {} {}", l, w, r), format!("{} {} {}", l, w, r2)]
                    .into_iter()
                    .chain(more.iter().map(|m| format!("{} {} {} {}", l, w, m, r)))
                    .chain(["x", "(x)", "long"].iter().map(|m| format!("{} {} {} {}", l, m, w, r)))
                {
                    if c.stopped() { return; }
                    step(c);
                    f(c, &t);
                }
            }
        }
    });
    sh.note(format!("strings of the source: {} strings that are no token, at every place of {} documents", novel.len(), b.len()));
}
/// lists of the given lengths, in every context (or as many as the count says), three ways of filling
pub fn list_lengths<F: Fn(&mut Ctx, &str, &Deriv) + Sync>(sh: &Shared, family: &'static str, items: &[&str], cs: &[(usize, usize)], f: F) {
    let g = &model().s;
    for (item, sep) in LISTS.iter().filter(|l| items.contains(&l.0)) {
        let ctx = item_contexts(item);
        let el = elements(item, 1, Naming::Distinct);
        let min = if *item == "UnionMemberType" { 2 } else if ["ExtendedAttribute", "StringLit", "Identifier"].contains(item) { 1 } else { 0 };
        let mut jobs: Vec<(usize, usize)> = cs.iter().filter(|n| n.0 >= min).flat_map(|n| (0..ctx.len().min(n.1)).map(move |c| (n.0, c))).collect();
        jobs.reverse();
        par(sh, family, &jobs, |c, (n, ci)| {
            let big = *n > 5000;
            for mode in 0..3 {
                if big && mode == 2 { continue; }
                if c.stopped() { return; }
                let mut d = Deriv { toks: vec![], ev: String::new() };
                let mut ch = Chooser::new(vec![], if mode == 1 { Naming::Same } else { Naming::Indexed }, false, 3);
                g.gen_path(&ctx[*ci].path, &mut ch, &mut d, &mut |g, ch, d| {
                    ch.frozen += 1;
                    for i in 0..*n {
                        if i > 0 && !sep.is_empty() {
                            d.toks.push(mk_term(kind_of(sep)));
                        }
                        if mode == 2 {
                            let x = &el[i % el.len()];
                            d.toks.extend_from_slice(&x.toks);
                            d.ev.push_str(&x.ev);
                        } else if *item == "Identifier" {
                            let t = mk_name(if mode == 1 { "same" } else { indexed(i, false) });
                            g.push_name(t, d);
                        } else {
                            g.gen(g.id(item), ch, d);
                        }
                    }
                    ch.frozen -= 1;
                });
                step(c);
                let s = layout(&d.toks, if mode == 2 { Layout::Mixed } else { Layout::Min });
                f(c, &s, &d);
            }
        });
        sh.note(format!("{}: {} in {} contexts, {} lengths up to {}", family, item, ctx.len(), cs.len(), cs.last().unwrap().0));
    }
}
/// One and two unusual elements at every place of a longer list of ordinary ones.
pub fn special_elements<F: Fn(&mut Ctx, &str, &Deriv) + Sync>(sh: &Shared, family: &'static str, items: &[&str], f: F) {
    for (item, sep) in LISTS.iter().filter(|l| items.contains(&l.0)) {
        let ctx = item_contexts(item);
        let el = elements(item, 1, Naming::Distinct);
        let ns: Vec<usize> = sh.q(vec![4, 5, 6, 7, 8, 9, 10, 16, 17, 33], (4..=20).chain([31, 32, 33, 63, 64, 65, 100]).collect());
        let mut jobs: Vec<(usize, usize, usize)> = vec![];
        for ci in 0..ctx.len().min(sh.q(3, 8)) {
            for n in &ns {
                for x in 1..el.len() { jobs.push((ci, *n, x)) }
            }
        }
        par(sh, family, &jobs, |c, (ci, n, x)| {
            for p in 0..*n {
                if c.stopped() { return }
                let els: Vec<&Deriv> = (0..*n).map(|i| &el[if i == p { *x } else { 0 }]).collect();
                let d = fill_list(&ctx[*ci], sep, &els);
                step(c);
                f(c, &layout(&d.toks, Layout::Min), &d);
            }
        });
        // elements with two unusual parts: one anywhere, two anywhere in four
        let mut el2 = elements(item, if *item == "ExtendedAttribute" { 3 } else { 2 }, Naming::Distinct);
        el2.truncate(sh.q(2500, 12000));
        let jobs2: Vec<(usize, usize)> = (1..el2.len()).flat_map(|x| [4usize, 5, 6, 9].into_iter().map(move |n| (n, x))).collect();
        par(sh, family, &jobs2, |c, (n, x)| {
            for p in 0..*n {
                if c.stopped() { return }
                let els: Vec<&Deriv> = (0..*n).map(|i| if i == p { &el2[*x] } else { &el[0] }).collect();
                let d = fill_list(&ctx[x % ctx.len().min(3)], sep, &els);
                step(c);
                f(c, &layout(&d.toks, Layout::Min), &d);
            }
        });
        let m = el2.len().min(sh.q(150, 600));
        let pairs2: Vec<(usize, usize)> = (1..m).flat_map(|x| (1..m).map(move |y| (x, y))).collect();
        par(sh, family, &pairs2, |c, (x, y)| {
            for i in 0..4 {
                for j in i + 1..4 {
                    if c.stopped() { return }
                    let pick = |k: usize| (k * el2.len() / m).min(el2.len() - 1);
                    let els: Vec<&Deriv> = (0..4).map(|k| if k == i { &el2[pick(*x)] } else if k == j { &el2[pick(*y)] } else { &el[0] }).collect();
                    let d = fill_list(&ctx[(x + y) % ctx.len().min(3)], sep, &els);
                    step(c);
                    f(c, &layout(&d.toks, Layout::Min), &d);
                }
            }
        });
        let m = el.len().min(sh.q(90, 300));
        let pairs: Vec<(usize, usize)> = (1..m).flat_map(|x| (1..m).map(move |y| (x, y))).collect();
        let n = sh.q(6, 8);
        par(sh, family, &pairs, |c, (x, y)| {
            for i in 0..n {
                for j in i + 1..n {
                    if c.stopped() { return }
                    let els: Vec<&Deriv> = (0..n).map(|k| &el[if k == i { *x } else if k == j { *y } else { 0 }]).collect();
                    let d = fill_list(&ctx[(x + y) % ctx.len().min(3)], sep, &els);
                    step(c);
                    f(c, &layout(&d.toks, Layout::Min), &d);
                }
            }
        });
        sh.note(format!("{}: {} - {} variants at every place of lists of {:?}; {} pairs of variants at every two places of {}; {} larger variants at every place of lists of 4 to 9, {} pairs in lists of 4", family, item, el.len() - 1, ns, pairs.len(), n, el2.len(), pairs2.len()));
    }
}
/// the lengths used outside C16
pub fn some_counts(sh: &Shared) -> Vec<(usize, usize)> {
    let k = sh.q(2, 8);
    (0..=40).chain([48, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049]).map(|n| (n, k)).chain(sh.q(vec![], vec![(4097, 2), (10001, 1), (65537, 1)])).chain(crate::dict::sizes(20_000).map(|n| (n, 1))).collect()
}
pub fn some_lens(sh: &Shared) -> Vec<usize> {
    (1..=sh.q(70, 300)).chain([100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 258, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 8193, 65535, 65536, 65537].into_iter().filter(|n| *n > sh.q(70, 300))).chain(crate::dict::sizes(100_000)).collect()
}
pub fn some_depths(sh: &Shared) -> Vec<usize> {
    (0..=sh.q(24, 40)).chain([48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1001, 1024, 1025]).chain(crate::dict::sizes(1500)).collect()
}
pub fn name_lengths(sh: &Shared, lens: &[usize]) {
    let slots = name_slots();
    par(sh, "name lengths", lens, |c, n| {
        let pat = "abcdefghijklmnopqrstuvwxyz-0123456789_ABCDEFGHIJKLMNOPQRSTUVWXYZ";
        let mut name: String = pat.chars().cycle().take(*n).collect();
        let slots_n = if *n > 5000 { 8 } else { slots.len() };
        for esc in [false, true] {
            if esc { name.insert(0, '_') }
            let t = leak(name.clone());
            for (_, sl) in &slots[..slots_n.min(slots.len())] {
                if c.stopped() { return; }
                let d = fill(sl, mk_name(t), false);
                step(c);
                let s = layout(&d.toks, Layout::Min);
                c.expect_tree(doc(), &s, &d.ev);
            }
        }
    });
}
pub fn string_lengths(sh: &Shared, lens: &[usize]) {
    let ss = string_slots();
    par(sh, "string lengths", lens, |c, n| {
        for pat in ["s", "\u{e9}", "// /* ", "a\n", "\u{1f600}", "\\"] {
            let t = leak(format!("\"{}\"", pat.chars().cycle().take(*n).collect::<String>()));
            for sl in &ss {
                if c.stopped() { return; }
                let d = fill(sl, mk_str(t), true);
                step(c);
                let s = layout(&d.toks, Layout::Min);
                c.expect_tree(doc(), &s, &d.ev);
            }
        }
    });
}
pub fn number_lengths(sh: &Shared, lens: &[usize]) {
    par(sh, "number lengths", lens, |c, n| {
        let z = |s: &str| s.chars().cycle().take(*n).collect::<String>();
        let forms = [z("9"), format!("-{}", z("1234567890")), format!("0x{}", z("0123456789abcdefABCDEF")), format!("0X{}", z("F")), format!("0{}", z("01234567")), format!("-0{}", z("7")),
            format!("{}.", z("90")), format!(".{}", z("05")), format!("{}.{}", z("0"), z("9")), format!("1e{}", z("5")), format!("{}E-{}", z("3"), z("0")), format!("-.{}e+{}", z("1"), z("2")), format!("0.{}", z("0"))];
        for f in &forms {
            for ctx in ["interface a{const long b=?;};", "dictionary a{long b=?;};", "callback a=long(optional long b=?);"] {
                if c.stopped() { return; }
                step(c);
                let t = ctx.replace('?', f);
                c.check_judged(doc(), &t, ALL);
            }
        }
    });
}
pub fn blank_lengths(sh: &Shared, lens: &[usize]) {
    par(sh, "blank and comment lengths", lens, |c, n| {
        let z = |s: &str| s.chars().cycle().take(*n).collect::<String>();
        for tr in [z(" "), z("\n"), z("\t\r\n "), format!("//{}\n", z("x/*\"")), format!("/*{}*/", z("x \n/\"")), format!("/*{}*/", z("*")), format!("/*{}*/", z("/")), "/**/".repeat(*n), "//\n".repeat(*n), " //c\n/*d*/".repeat(*n), format!("//{}\n", z("\u{e9}"))] {
            if tr.len() > 700_000 { continue; }
            for h in ["?a includes b;", "a?includes b;", "a includes b;?", "interface a{?};", "interface a{const long b?=?5?;}?;"] {
                if c.stopped() { return; }
                step(c);
                let t = h.replace('?', &tr);
                c.check_judged(doc(), &t, ALL);
            }
        }
    });
}
pub fn type_nesting(sh: &Shared, depths: &[usize]) {
    let wr: [(&str, &str, bool); 9] = [("sequence<", ">", false), ("sequence<", ">?", false), ("FrozenArray<", ">", false), ("Promise<", ">", false), ("record<DOMString,", ">", false), ("record<USVString,", ">?", false), ("(a or ", ")", true), ("(", " or b)?", true), ("record<sequence<", ">,any>", false)];
    let mut jobs = vec![];
    for d in depths {
        for a in 0..wr.len() {
            for b in 0..wr.len() {
                if *d > 300 && a != b || *d > 40 && a != b && (a + b) % 3 != 0 { continue; }
                jobs.push((*d, a, b));
            }
        }
    }
    par(sh, "type nesting", &jobs, |c, (d, a, b)| {
        // alternate the two wrappers; the innermost type avoids `any` directly inside a union
        let mut s = String::from("DOMString");
        for i in 0..*d {
            let w = wr[if i % 2 == 0 { *a } else { *b }];
            s = format!("{}{}{}", w.0, s, w.1);
        }
        for h in ["typedef ? x;", "interface a{? b(optional ? c);};", "dictionary a{? b;};", "callback a=?(?... b);"] {
            if c.stopped() { return; }
            step(c);
            c.check_judged(doc(), &h.replace('?', &s), ALL);
        }
        step(c);
        c.check_judged(entry("Type"), &s, ALL);
    });
    sh.note(format!("type nesting: {} depths up to {}, all pairs of {} wrappers", depths.len(), depths.iter().max().unwrap(), wr.len()));
}
/// nests too deep for the recogniser: the tree of each level is the model's, repeated
fn deep_nesting(sh: &Shared, depths: &[usize]) {
    let m = model();
    let wr = [("sequence<", ">"), ("sequence<", ">?"), ("FrozenArray<", ">"), ("Promise<", ">"), ("record<DOMString,", ">"), ("record<USVString,", ">?")];
    let tree = |node: &str, s: &str| {
        let mut t = vec![];
        lex(s, &mut t);
        let mut ev = String::new();
        assert!(Rec::default().tree(&m.s, m.s.id(node), &t, &mut ev));
        ev
    };
    let jobs: Vec<(usize, usize, usize)> = depths.iter().flat_map(|d| (0..wr.len()).flat_map(move |a| (0..wr.len()).map(move |b| (*d, a, b)))).filter(|(_, a, b)| sh.thorough() || (a + 2 * b) % 3 == 0).collect();
    let core = tree("Type", "zz");
    par(sh, "deep nests", &jobs, |c, (d, a, b)| {
        let (a, b) = (wr[*a], wr[*b]);
        let two = tree("Type", &format!("{}{}zz{}{}", a.0, b.0, b.1, a.1));
        let p = two.find(&core).unwrap();
        let doc2 = tree("Definitions", "typedef zz x;");
        let q = doc2.find(&core).unwrap();
        let n = d / 2;
        let s = format!("{}zz{}", [a.0, b.0].concat().repeat(n), [b.1, a.1].concat().repeat(n));
        let ev = format!("{}{}{}", two[..p].repeat(n), core, two[p + core.len()..].repeat(n));
        step(c);
        c.expect_tree(doc(), &format!("typedef {} x;", s), &format!("{}{}{}", &doc2[..q], ev, &doc2[q + core.len()..]));
        step(c);
        c.expect_tree(entry("Type"), &s, &ev);
    });
    sh.note(format!("deep nests: {} depths up to {}, pairs of {} wrappers", depths.len(), depths.iter().max().unwrap(), wr.len()));
}
pub fn attribute_nesting(sh: &Shared) {
    // nested attribute lists (the parser re-reads them once per level, so depths stay small)
    let jobs: Vec<usize> = (0..=sh.q(6, 8)).collect();
    par(sh, "attribute nesting", &jobs, |c, d| {
        for (o, cl) in [("[a(", " b c)]"), ("[a=b(optional ", " c d)]"), ("[a(long x,", " c... d)]"), ("[a((", " c or long) d)]")] {
            step(c);
            let s = format!("{}{} includes y;", format!("{}{}", o.repeat(*d), cl.repeat(*d)), if *d == 0 { "x" } else { " x" });
            c.check_judged(doc(), &s, ALL);
        }
    });
}
pub fn c16(sh: &Shared) {
    magic_names(sh, |c, s, _| { c.check_judged(doc(), s, ALL); });
    let cs = counts(sh);
    let all: Vec<&str> = LISTS.iter().map(|l| l.0).collect();
    list_lengths(sh, "list lengths", &all, &cs, |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    special_elements(sh, "unusual elements", &all, |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    // several long lists at once: n members with n arguments each, n definitions of n members
    par(sh, "products of lengths", &cs.iter().map(|n| n.0).filter(|n| *n <= sh.q(70, 200)).collect::<Vec<_>>(), |c, n| {
        for m in [1usize, 2, 3, 7, 16, 17, 32, 33, 64, 65] {
            if c.stopped() { return; }
            let args: Vec<String> = (0..m).map(|i| format!("long a{}", i)).collect();
            let mem: Vec<String> = (0..*n).map(|i| format!("long m{}({});", i, args.join(","))).collect();
            let text = format!("interface x{{{}}};namespace y{{{}}};", mem.join(""), mem.join("\n"));
            let mut ev = String::from("[[");
            let arg: String = (0..m).map(|i| { let a = format!("a{}", i); format!("Argument.Single<SingleArgument<~~AttributedType<~Type.Single<SingleType.NonAny<NonAnyType.Integer<MayBeNull<IntegerType.Long<LongType<~`long >>~>>>>>i{}:{} ~>>", a.len(), a) }).collect();
            for (l, memb, op, x) in [("Definition.Interface<InterfaceDefinition<~`interface ", "InterfaceMember.Operation<OperationInterfaceMember<~~~", "", "x"), ("Definition.Namespace<NamespaceDefinition<~`namespace ", "NamespaceMember.Operation<OperationNamespaceMember<~", "", "y")] {
                let _ = op;
                ev.push_str(l);
                ev.push_str(&format!("i1:{} ", x));
                if x == "x" { ev.push('~') }
                ev.push_str("`{ [[");
                for i in 0..*n {
                    let nm = format!("m{}", i);
                    ev.push_str(memb);
                    ev.push_str("ReturnType.Type<Type.Single<SingleType.NonAny<NonAnyType.Integer<MayBeNull<IntegerType.Long<LongType<~`long >>~>>>>>");
                    ev.push_str(&format!("i{}:{} `( [[{}]]`) `; >>", nm.len(), nm, arg));
                }
                ev.push_str("]]`} `; >>");
            }
            ev.push_str("]]");
            step(c);
            c.expect_tree(doc(), &text, &ev);
        }
    });
    // token lengths
    let mut lens: Vec<usize> = (1..=300).collect();
    lens.extend([511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073, 262145]);
    if sh.thorough() {
        lens.extend(301..=1100);
        lens.extend([131071, 131072, 131073, 262144, 1000000, 1048577]);
    }
    lens.extend(crate::dict::sizes(2_200_000));
    lens.sort();
    lens.dedup();
    name_lengths(sh, &lens);
    string_lengths(sh, &lens);
    number_lengths(sh, &lens);
    blank_lengths(sh, &lens);
    sh.note(format!("token lengths: {} lengths up to {}", lens.len(), lens.last().unwrap()));
    // nesting depth of types
    let mut depths: Vec<usize> = (0..=sh.q(40, 64)).chain([50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257]).collect();
    depths.extend([300, 400, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2049]);
    depths.extend(sh.q(vec![], (65..=300).chain([3000, 5000]).collect()));
    depths.extend(crate::dict::sizes(2500));
    depths.sort();
    depths.dedup();
    type_nesting(sh, &depths);
    deep_nesting(sh, &[3000, 4095, 4096, 4097, 5000, 8193, 10001, 20000].into_iter().chain(crate::dict::sizes(30_000)).collect::<Vec<_>>());
    attribute_nesting(sh);
    small_stack(sh, "long lists on a small stack", true);
}

/// Only nesting may cost stack: every list, token and run of separators, long, in a thread with the
/// 2 MiB that std gives a thread.
pub fn small_stack(sh: &Shared, family: &'static str, accept: bool) {
    let mut texts: Vec<String> = vec![];
    let n = sh.q(70_000, 300_000);
    for (item, sep) in LISTS {
        for ctx in item_contexts(item).iter().take(sh.q(3, 9)) {
            let el = elements(item, 1, Naming::Distinct);
            let els: Vec<&Deriv> = (0..n).map(|i| &el[i % el.len().min(5)]).collect();
            texts.push(layout(&fill_list(ctx, sep, &els).toks, Layout::Min));
        }
    }
    let z = |s: &str| s.repeat(n);
    for tr in [z(" "), z("\n"), z("//\n"), z("/**/"), format!("/*{}*/", z("*")), format!("//{}\n", z("x")), z(" /*c*/ //d\n")] {
        texts.push(format!("a{}includes b;", tr));
        texts.push(format!("a includes b;{}", tr));
        texts.push(tr);
    }
    for (a, b) in [("interface ", "{};"), ("interface _a", ":b{};"), ("typedef ", "? c;")] {
        texts.push(format!("{}{}{}", a, z("x"), b));
    }
    texts.push(format!("enum a{{\"{}\"}};", z("\u{e9}")));
    for (a, b) in [("", "1"), ("-0x", "1"), ("0", "7"), ("1.", "0"), (".", "5"), ("1e-", "9")] {
        texts.push(format!("interface a{{const long b={}{};}};", a, z(b)));
    }
    sh.stack.store(2, SeqCst);
    par(sh, family, &texts, |c, s| {
        step(c);
        match c.run(doc(), s, false) {
            Err(p) => c.violate("parse", s, "panicked", "Ok", &p),
            Ok(o) => if accept && o.kind != Kind::Ok { c.violate("parse", s, "well-formed text was not accepted", "Ok", &show(&o)) },
        }
    });
    sh.stack.store(512, SeqCst);
    sh.note(format!("{}: {} documents of {} elements in threads with 2 MiB of stack", family, texts.len(), n));
}

// ------------------------------------------------------------------ C18 equality, order, hash, clone

pub const LOOK: &[&str] = &["a", "A", "b", "B", "ab", "Ab", "aB", "AB", "a-b", "a_b", "a-B", "ab1", "ab10", "ab2", "a1b", "aa", "ba", "abc", "a-", "a_", "_interface", "Interface", "z", "Z", "a0", "a00", "x1-", "x1_",
        "abcdefgh", "abcdefgH", "abcdefghabcdefghabcdefghabcdefghX", "abcdefghabcdefghabcdefghabcdefghY", "Xbcdefghabcdefghabcdefghabcdefgh", "Ybcdefghabcdefghabcdefghabcdefgh"];
pub const SLOOK: &[&str] = &["\"\"", "\" \"", "\"  \"", "\"a\"", "\"A\"", "\" a\"", "\"a \"", "\"ab\"", "\"aB\"", "\"\u{e9}\"", "\"\u{c9}\"", "\"e\u{301}\"", "\"\\n\"", "\"\n\"", "\"\r\n\"", "\"\t\"", "\"1\"", "\"01\"", "\"//\"", "\"/**/\"", "\"a-b\"", "\"a_b\"", "\"\u{ff41}\"", "\"\0\"",
        "\"abcdefghabcdefghabcdefghabcdefghX\"", "\"abcdefghabcdefghabcdefghabcdefghY\"", "\"Xabcdefghabcdefghabcdefghabcdefgh\"", "\"Yabcdefghabcdefghabcdefghabcdefgh\"", "\"\u{1f600}\"", "\"'\"", "\"b\"", "\"B\"", "\"z\"", "\"Z\""];
pub const NLOOK: &[&str] = &["0", "1", "2", "9", "10", "11", "01", "00", "010", "0x1", "0X1", "0x01", "0xa", "0xA", "0Xa", "-1", "-01", "-0", "-0x1", "-10", "1.", "1.0", "1.00", ".1", "0.1", "-1.", "-.1", "1e5", "1E5", "1e+5", "1e-5", "1e05", "1.e5", "1.0e5", "100000", "Infinity", "-Infinity", "NaN",
        "18446744073709551616", "18446744073709551617", "4294967296", "0x10000000000000000", "0x10000000000000001", "12345678901234567890.5", "12345678901234567890.25", "true", "false", "null"];
/// texts whose tokens look alike, in every name and string slot and in every literal position
pub fn confusables() -> Vec<String> {
    let mut v = vec![];
    for (_, sl) in name_slots() {
        for x in LOOK { v.push(layout(&fill(&sl, mk_name(x), false).toks, Layout::Min)) }
    }
    for sl in string_slots() {
        for x in SLOOK { v.push(layout(&fill(&sl, mk_str(x), true).toks, Layout::Min)) }
    }
    for (pre, post) in LITERAL_HOSTS {
        for x in NLOOK.iter().chain(SLOOK).chain(["[]", "{}"].iter()) { v.push(format!("{}{}{}", pre, x, post)) }
    }
    v
}
const LITERAL_HOSTS: [(&str, &str); 4] = [("interface a{const x b=", ";};"), ("dictionary a{x b=", ";};"), ("callback a=x(optional x b=", ");"), ("[a(optional x b=", ")]a includes b;")];
/// C22: the same sets of trees as C18, looked at through conversions, defaults and debug output
pub fn c22(sh: &Shared) {
    {
        let mut c = Ctx::new(sh);
        c.family = "defaults";
        let d = defaults();
        let n = d.len() as u64;
        c.st.traces += n;
        c.st.states += n;
        c.st.transitions += n;
        c.st.families.entry("defaults".into()).or_default().0 += n;
        c.st.samples.insert("defaults".into(), d.iter().take(4).map(|x| x.0.clone()).collect());
        for (what, r) in d {
            if let Err(m) = r { c.violate("default", &what, "a default value differs from what its spelling parses to", "", &m) }
        }
        sh.note(format!("defaults: {} types with a default value and a spelling", n));
    }
    VIEWS.store(true, std::sync::atomic::Ordering::Relaxed);
    c18(sh);
    let sets: Vec<Vec<Deriv>> = [("Definition", 3), ("InterfaceMember", 3), ("MixinMember", 3), ("NamespaceMember", 3), ("DictionaryMember", 3), ("Argument", 2), ("ExtendedAttribute", 2), ("Type", 3)].iter()
        .flat_map(|(n, k)| [Naming::Distinct, Naming::Same].iter().map(move |m| collect(&starts(n), cfg(sh.q(*k, *k + 1), *m, false)))).collect();
    let d = rels().iter().find(|r| r.name == "parse").unwrap();
    let total: usize = sets.iter().map(|s| s.len()).sum();
    let jobs: Vec<&[Deriv]> = sets.iter().flat_map(|s| s.chunks(6000)).collect();
    par(sh, "larger documents", &jobs, |c, s| {
        let mut v: Vec<(Vec<Tok<'static>>, String)> = s.iter().map(|d| (d.toks.clone(), String::new())).collect();
        v.sort_by(|a, b| a.0.iter().map(|t| t.src).cmp(b.0.iter().map(|t| t.src)));
        v.dedup_by(|a, b| a.0 == b.0);
        rel_set(c, d, v);
    });
    sh.note(format!("larger documents: {} derivations, each in 2-3 renderings", total));
    VIEWS.store(false, std::sync::atomic::Ordering::Relaxed);
}
pub fn c18(sh: &Shared) {
    let es = rels();
    let lim = sh.q(1200, 5000);
    par(sh, "all pairs of nodes", es, |c, r| {
        if r.name == "parse" { return; }
        rel_case(c, r, sh, lim);
    });
    // documents: larger sets, in one job per naming
    let d = es.iter().find(|r| r.name == "parse").unwrap();
    let sets: Vec<Vec<Deriv>> = vec![
        bases(1, false),
        collect(&starts("Definition"), cfg(2, Naming::Same, false)),
        collect(&[Start { path: vec![model().s.id("Definitions")] }], cfg(2, Naming::Indexed, true)),
        collect(&starts("InterfaceMember")[..1], cfg(2, Naming::Distinct, false)),
        collect(&starts("Type")[..1], cfg(2, Naming::Distinct, false)),
        collect(&starts("Definition"), cfg(1, Naming::Distinct, true)),
        collect(&starts("ExtendedAttribute")[..1], cfg(3, Naming::Same, false)),
        collect(&starts("Argument")[..1], cfg(2, Naming::Same, true)),
    ];
    par(sh, "all pairs of documents", &sets, |c, s| {
        let mut s: Vec<(Vec<Tok<'static>>, String)> = s.iter().map(|d| (d.toks.clone(), d.ev.clone())).collect();
        s.truncate(sh.q(4000, 12000));
        rel_set(c, d, s);
    });
    // one slot filled with confusable texts: case, length, prefix, digits, punctuation
    let mut sets: Vec<Vec<(Vec<Tok<'static>>, String)>> = vec![];
    for (_, sl) in name_slots() {
        sets.push(LOOK.iter().map(|x| { let d = fill(&sl, mk_name(x), false); (d.toks, d.ev) }).collect());
    }
    for sl in string_slots() {
        sets.push(SLOOK.iter().map(|x| { let d = fill(&sl, mk_str(x), true); (d.toks, d.ev) }).collect());
    }
    for (pre, post) in LITERAL_HOSTS {
        let mut v = vec![];
        for x in NLOOK.iter().chain(SLOOK).chain(["[]", "{}"].iter()) {
            if pre.contains("const") && (x.starts_with('"') || *x == "[]" || *x == "{}") { continue; }
            let s = leak(format!("{}{}{}", pre, x, post));
            let mut t = vec![];
            lex(s, &mut t);
            v.push((t, String::new()));
        }
        sets.push(v);
    }
    // long lists that differ in one element only, and their prefixes
    let mut longs: Vec<Vec<(Vec<Tok<'static>>, String)>> = vec![];
    for (item, sep) in LISTS {
        let el = elements(item, 1, Naming::Distinct);
        let min = if *item == "UnionMemberType" { 2 } else { 1 };
        for ctx in item_contexts(item).iter().take(sh.q(2, 6)) {
            for n in sh.q(vec![5usize, 12, 40], vec![5, 12, 40, 130, 300]) {
                let mut v = vec![];
                for k in 0..=n {
                    let els: Vec<&Deriv> = (0..n).map(|i| &el[(i == k) as usize]).collect();
                    let d = fill_list(ctx, sep, &els);
                    v.push((d.toks, d.ev));
                    if k < n && k >= min {
                        let d = fill_list(ctx, sep, &els[..k]);
                        v.push((d.toks, d.ev));
                    }
                }
                v.dedup_by(|a, b| a.0 == b.0);
                longs.push(v);
            }
        }
    }
    // nests that differ in depth or innermost type only
    for (w, z) in [("sequence<", ">"), ("(a or ", ")"), ("record<DOMString,", ">?")] {
        let mut v = vec![];
        for d in (0..sh.q(40, 60)).chain([100, 200, 300]) {
            for x in ["b", "c", "long", "b?"] {
                let s = leak(format!("typedef {}{}{} t;", w.repeat(d), x, z.repeat(d)));
                let mut t = vec![];
                lex(s, &mut t);
                v.push((t, String::new()));
            }
        }
        longs.push(v);
    }
    par(sh, "long lists and deep nests", &longs, |c, s| rel_set(c, d, s.clone()));
    // the names (or strings) of a document exchanged: every assignment of two texts to up to six slots
    let mut swaps: Vec<Vec<(Vec<Tok<'static>>, String)>> = vec![];
    for (n, k) in [("Definition", sh.q(2, 3)), ("InterfaceMember", 2), ("MixinMember", 2), ("NamespaceMember", 2), ("DictionaryMember", 2), ("Argument", 2), ("ExtendedAttribute", 2), ("Type", 2)] {
        for d in collect(&starts(n), cfg(k, Naming::Distinct, false)) {
            for (kind, mk, w) in [(IDENT, mk_name as fn(&'static str) -> Tok<'static>, ["a", "b"]), (STR, mk_str as fn(&'static str) -> Tok<'static>, ["\"a\"", "\"b\""])] {
                let at: Vec<usize> = (0..d.toks.len()).filter(|i| d.toks[*i].k == kind).collect();
                if at.len() < 2 { continue }
                let (fixed, free) = at.split_at(at.len().saturating_sub(sh.q(5, 7)));
                swaps.push((0..1usize << free.len()).map(|m| {
                    let mut t = d.toks.clone();
                    for i in fixed { t[*i] = mk(w[0]) }
                    for (x, i) in free.iter().enumerate() { t[*i] = mk(w[m >> x & 1]) }
                    (t, String::new())
                }).collect());
            }
        }
    }
    par(sh, "exchanged names", &swaps, |c, s| rel_set(c, d, s.clone()));
    sh.note(format!("exchanged names: {} documents, every assignment of two names or two strings to up to {} places, all pairs", swaps.len(), sh.q(5, 7)));
    // texts that are prefixes of each other in one buffer
    let pre: Vec<(&Rel, &'static str)> = es.iter().flat_map(|r| {
        let v: &[&'static str] = match r.node {
            "Identifier" => &["_ab-c_9", "aaaa", "_a_a"],
            "IntegerLit" => &["-1203", "0x1F0a", "-0071", "000", "0X0"],
            "FloatLit" => &["-10.50e+12", ".5E-33", "1e100", "5.00"],
            "ConstValue" | "DefaultValue" => &["-120.50e+12", "0x1F0a", "0071.5", "nullNaN"],
            "Type" | "SingleType" | "NonAnyType" => &["aaa", "a?", "ab? ?"],
            "ReturnType" | "ConstType" | "AttributedType" | "UnionMemberType" => &["aaa", "a?"],
            "ExtendedAttribute" => &["a=bcd", "a=b(long c)", "abc(d e)"],
            "Inheritance" => &[":abc"],
            "IdentifierOrString" => &["abc"],
            "Argument" => &["long abc", "optional long abc=123.5"],
            "Default" => &["=123", "=1.5e3"],
            "ArgumentList" => &["a b,c d,e f", ""],
            "Definitions" => &["a includes b;c includes d;e implements f;"],
            _ => &[],
        };
        v.iter().map(move |t| (r, *t)).collect::<Vec<_>>()
    }).collect();
    par(sh, "prefixes in one buffer", &pre, |c, (r, t)| {
        let refs: Vec<&str> = (0..=t.len()).map(|n| &t[..n]).collect();
        rel_slices(c, r, &refs);
    });
    sh.note(format!("prefixes in one buffer: {} buffers", pre.len()));
    let lt = long_texts(sh);
    par(sh, "long texts", &lt, |c, s| rel_set(c, d, s.clone()));
    sh.note(format!("long texts: {} sets of names, strings and numbers of up to {} characters differing in one character or in length, all pairs", lt.len(), sh.q(400, 1100)));
    sh.note(format!("long lists and deep nests: {} sets of lists differing in one element or in length, and of nests differing in depth or innermost type, all pairs", longs.len()));
    let k = sets.len();
    par(sh, "confusable texts", &sets, |c, s| rel_set(c, d, s.clone()));
    let leaf: Vec<(&Rel, Vec<(Vec<Tok<'static>>, String)>)> = es.iter().filter_map(|r| {
        let src: Vec<&'static str> = match r.node {
            "Identifier" => LOOK.to_vec(),
            "StringLit" => SLOOK.to_vec(),
            "DefaultValue" => NLOOK.iter().chain(SLOOK).chain(["[]", "{}"].iter()).copied().collect(),
            "ConstValue" => NLOOK.to_vec(),
            "IntegerLit" => NLOOK.iter().filter(|x| match_int(x.as_bytes()).map(|m| m.0) == Some(x.len()) && match_float(x.as_bytes()).is_none()).copied().collect(),
            "FloatLit" => NLOOK.iter().filter(|x| match_float(x.as_bytes()) == Some(x.len()) || x.ends_with("Infinity") || **x == "NaN").copied().collect(),
            _ => return None,
        };
        Some((r, src.into_iter().map(|x| { let mut t = vec![]; lex(x, &mut t); (t, String::new()) }).collect()))
    }).collect();
    par(sh, "confusable texts", &leaf, |c, (r, s)| rel_set(c, r, s.clone()));
    sh.note(format!("confusable texts: {} slots of the grammar and {} leaf nodes, each filled with {} names, {} strings or {} numbers, all pairs", k, leaf.len(), LOOK.len(), SLOOK.len(), NLOOK.len()));
}
/// sets of documents that differ in one character of one long token, or in its length
fn long_texts(sh: &Shared) -> Vec<Vec<(Vec<Tok<'static>>, String)>> {
    let hosts: &[(&str, &str, &str)] = &[("typedef long ?;", "ab", "ac"), ("? includes b;", "Zz", "z-"), ("[a=?]b includes c;", "x_", "X1"), ("interface a{attribute ? b;};", "q0", "Qq"), ("enum a{\"?\"};", "s ", "t/"),
        ("dictionary a{any b=\"?\";};", "\u{e9}a", "e\u{1f600}"), ("[a=\"?\"]b includes c;", "p*", "P\n"), ("interface a{const long b=?;};", "12", "34"), ("dictionary a{long b=0x?;};", "aF", "Af"), ("dictionary a{double b=1.?;};", "12", "90"),
        ("dictionary a{double b=?e5;};", "12", "90"), ("interface a{const long b=-0?;};", "12", "75"), ("interface a{long ?(long b);};", "ab", "bA"), ("callback a=long(long ?);", "ab", "cd")];
    let lens: Vec<usize> = sh.q(vec![9, 16, 17, 24, 33, 49, 65, 100, 129, 257, 400], vec![5, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 513, 1025, 1100]);
    let mut sets = vec![];
    let doc_of = |h: &str, t: &str| -> (Vec<Tok<'static>>, String) {
        let s = leak(h.replace('?', t));
        let mut v = vec![];
        lex(s, &mut v);
        (v, String::new())
    };
    for (h, a, b) in hosts {
        let (ac, bc): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
        for n in &lens {
            let base: Vec<char> = (0..*n).map(|i| ac[i % ac.len()]).collect();
            let mut v = vec![doc_of(h, &base.iter().collect::<String>())];
            let step = if *n > 260 { 7 } else { 1 };
            for p in (0..*n).filter(|p| p % step == 0 || *p + 3 > *n) {
                for r in &bc {
                    let mut t = base.clone();
                    if t[p] == *r || p == 0 && !r.is_ascii_alphanumeric() { continue }
                    t[p] = *r;
                    v.push(doc_of(h, &t.iter().collect::<String>()));
                }
            }
            v.retain(|x| x.0.len() == v_len(h));
            sets.push(v);
        }
        // lengths only
        sets.push((1..=sh.q(300usize, 600)).map(|n| doc_of(h, &(0..n).map(|i| ac[i % ac.len()]).collect::<String>())).filter(|x| x.0.len() == v_len(h)).collect());
    }
    sets
}
/// number of tokens of a host with its slot filled
fn v_len(h: &str) -> usize {
    let mut v = vec![];
    let s = h.replace('?', "1");
    let s = if h.contains("0x") || h.contains("\"") || h.contains("1.") || h.contains("e5") || h.contains("const") { s } else { h.replace('?', "a") };
    lex(&s, &mut v);
    v.len()
}
fn rel_case(c: &mut Ctx, r: &Rel, _sh: &Shared, lim: usize) {
    let g = &model().s;
    let mut v: Vec<(Vec<Tok<'static>>, String)> = vec![];
    for (naming, vocab, k) in [(Naming::Distinct, false, 2), (Naming::Same, false, 1), (Naming::Distinct, true, 1), (Naming::Indexed, true, 2)] {
        for d in collect(&[Start { path: vec![g.id(r.node)] }], GenCfg { max_list: 3, ..cfg(k, naming, vocab) }) {
            v.push((d.toks, d.ev));
        }
    }
    v.sort_by_key(|x| x.0.len());
    v.dedup_by(|a, b| a.0 == b.0);
    v.truncate(lim);
    rel_set(c, r, v);
}
/// prefixes of one text, as slices of the same buffer: equal exactly when the consumed tokens are
fn rel_slices(c: &mut Ctx, r: &Rel, v: &[&str]) {
    let e = entry(r.node);
    let mut refs: Vec<&str> = vec![];
    let mut class = vec![];
    for s in v {
        c.enter(e.name, s);
        let o = std::panic::catch_unwind(|| (e.run)(s, true));
        c.leave();
        if let Ok(o) = o {
            if o.kind == Kind::Ok {
                let mut t = vec![];
                lex(&s[..s.len() - o.rest.len()], &mut t);
                let key: String = t.iter().map(|x| format!("{}\u{1}{}\u{2}", if name_like(x.k) { IDENT } else { x.k }, x.val)).collect();
                refs.push(s);
                class.push(ev_hash(&key));
            }
        }
    }
    rel_run(c, r, &refs, &class);
}
fn rel_set(c: &mut Ctx, r: &Rel, v: Vec<(Vec<Tok<'static>>, String)>) {
    // three renderings of each, in buffers of their own; the class is the token sequence
    let mut texts: Vec<String> = vec![];
    let mut class: Vec<u64> = vec![];
    for (t, _) in &v {
        let key: String = t.iter().map(|x| format!("{}\u{1}{}\u{2}", if name_like(x.k) { IDENT } else { x.k }, x.val)).collect();
        let key = enum_comma(t, &key);
        for l in [Layout::Min, Layout::Mixed] {
            texts.push(layout(t, l));
            class.push(ev_hash(&key));
        }
        // escaped names are the same names
        if t.iter().any(|x| x.k == IDENT && !x.src.starts_with('_')) {
            let e: Vec<Tok> = t.iter().map(|x| if x.k == IDENT && !x.src.starts_with('_') { Tok { src: leak(format!("_{}", x.src)), ..*x } } else { *x }).collect();
            texts.push(layout(&e, Layout::Min));
            class.push(ev_hash(&key));
        }
    }
    let refs: Vec<&str> = texts.iter().map(|s| s.as_str()).collect();
    rel_run(c, r, &refs, &class);
}
fn rel_run(c: &mut Ctx, r: &Rel, texts: &[&str], class: &[u64]) {
    if texts.is_empty() { return }
    c.enter(r.name, "(pairwise comparison)");
    IN_CODE.with(|c| c.set(true));
    let res = std::panic::catch_unwind(|| (r.run)(texts, class));
    IN_CODE.with(|c| c.set(false));
    c.leave();
    let n = texts.len() as u64;
    // debug texts are compared through a table, not pair by pair
    let pairs = if VIEWS.load(Relaxed) { n } else { n * n };
    c.st.states += n;
    c.st.transitions += pairs;
    c.st.traces += n;
    let f = c.st.families.entry(c.family.to_string()).or_default();
    f.0 += pairs;
    f.1 += n;
    let s = c.st.samples.entry(c.family.to_string()).or_default();
    if s.len() < 4 { s.push(format!("{}: {} texts, all ordered pairs, e.g. {:?}", r.name, n, texts.last())) }
    match res {
        Err(p) => c.violate(r.name, &texts[0], "comparison panicked", "", &panic_msg(p)),
        Ok(Ok(k)) => { for i in 0..k.min(1 << 20) { c.st.outcomes.insert(ev_hash(r.name) ^ i as u64); } }
        Ok(Err((i, j, m))) => {
            let e = format!("{}#pair", r.name);
            c.violate(&e, &format!("{}\n----\n{}", texts[i], texts[j]), &m, "Eq/Ord/Hash/Clone agree with the token sequences", "");
        }
    }
}
/// the optional trailing comma of an enum is no part of its value
fn enum_comma(t: &[Tok], key: &str) -> String {
    let mut k = String::new();
    let (comma, brace) = (kind_of(","), kind_of("}"));
    let mut skipped = false;
    for (n, x) in t.iter().enumerate() {
        if x.k == comma && n > 0 && t[n - 1].k == STR && (n + 1 == t.len() || t[n + 1].k == brace) { skipped = true; continue; }
        if n + 1 == t.len() && x.src == "or" && n > 0 { skipped = true; continue; }
        k.push_str(&format!("{}\u{1}{}\u{2}", if name_like(x.k) { IDENT } else { x.k }, x.val));
    }
    if skipped { k } else { key.to_string() }
}

// ------------------------------------------------------------------ C19 positions

pub fn c19(sh: &Shared) {
    for (n, k) in [("Definition", sh.q(3, 4)), ("InterfaceMember", sh.q(2, 3)), ("MixinMember", 2), ("NamespaceMember", 2), ("DictionaryMember", sh.q(2, 3)), ("Argument", 2), ("ExtendedAttribute", sh.q(3, 4)), ("Type", 2)] {
        coincidences(sh, "names that coincide", &starts(n), k, |c, s, _| positions(c, doc(), s));
    }
    literal_texts(sh, |c, s| positions(c, doc(), s));
    short_values(sh, VALUE_HOSTS, |c, s| positions(c, doc(), s));
    special_elements(sh, "unusual elements", &LISTS.iter().map(|l| l.0).collect::<Vec<_>>(), |c, s, _| positions(c, doc(), s));
    for h in [BLANK_RUNS, NAME_RUNS, STRING_RUNS, NUMBER_RUNS] {
        in_runs(sh, h, |c, s| positions(c, doc(), s));
    }
    echoes(sh, |c, s, _| positions(c, doc(), s));
    structures(sh, Naming::Same, |c, d| positions(c, doc(), &layout(&d.toks, Layout::Min)));
    short_names(sh);
    source_words(sh, |c, s, _| positions(c, doc(), s));
    magic_names(sh, |c, s, _| positions(c, doc(), s));
    let every: Vec<&str> = LISTS.iter().map(|l| l.0).collect();
    list_lengths(sh, "list lengths", &every, &some_counts(sh), |c, s, _| positions(c, doc(), s));
    let lens = some_lens(sh);
    par(sh, "token lengths", &lens, |c, n| {
        let z = |s: &str| s.chars().cycle().take(*n).collect::<String>();
        let (nm, st, num) = (z("ab-0_Z"), z("s /\u{e9}*"), z("1234567890"));
        for t in [format!("interface {}:_{}{{const {} {}=0x{};long {}(optional {} {}=\"{}\");}};", nm, nm, nm, nm, num, nm, nm, nm, st), format!("{}enum {}{{\"{}\",\"{}\"}};/*{}*/[{}={}]{} includes {};", z(" \n"), nm, st, st, st, nm, nm, nm, nm), format!("dictionary {}{{long {}={}.{};any _{}=.{}e-{};}};", nm, nm, num, num, nm, num, num)] {
            step(c);
            positions(c, doc(), &t);
        }
    });
    let lay = [Layout::Min, Layout::Space, Layout::Mixed];
    for (f, n, k, naming) in [("definitions", "Definition", sh.q(4, 5), Naming::Tricky), ("interface members", "InterfaceMember", sh.q(3, 4), Naming::Same), ("mixin members", "MixinMember", sh.q(3, 4), Naming::Same),
        ("namespace members", "NamespaceMember", sh.q(3, 4), Naming::Same), ("dictionary members", "DictionaryMember", sh.q(3, 4), Naming::Same), ("arguments", "Argument", sh.q(2, 3), Naming::Same), ("attributes", "ExtendedAttribute", sh.q(2, 3), Naming::Same), ("types", "Type", sh.q(2, 3), Naming::Tricky)] {
        for vocab in [false, true] {
            let k = if vocab { k - 1 } else { k };
            par_derive(sh, f, &starts(n), cfg(k, naming, vocab), |c, d| {
                for l in lay {
                    let s = layout(&d.toks, l);
                    positions(c, doc(), &s);
                }
            });
        }
        sh.note(format!("{}: <= {} departures, 3 layouts", f, k));
    }
    par_derive(sh, "documents", &[Start { path: vec![model().s.id("Definitions")] }], cfg(sh.q(3, 4), Naming::Same, false), |c, d| {
        for l in lay {
            let s = layout(&d.toks, l);
            positions(c, doc(), &s);
        }
    });
    // leniently accepted documents too
    let b = small_bases();
    let alpha = all_tokens();
    par(sh, "token edits", &b, |c, d| {
        let mut s = String::new();
        token_edits(&d.toks, &alpha, &mut |t| {
            if c.stopped() { return; }
            for l in [Layout::Space, Layout::Min] {
                step(c);
                layout_into(t, l, &mut s);
                positions(c, doc(), &s);
            }
        });
    });
    // name and string slots with every spelling class, strings equal to other text of the document
    let slots = name_slots();
    let mut names = keyword_names();
    if !sh.thorough() { names = names.into_iter().step_by(3).collect(); }
    par(sh, "names in every position", &slots, |c, (_, sl)| {
        for n in &names {
            let d = fill(sl, mk_name(n), false);
            step(c);
            for l in lay {
                positions(c, doc(), &layout(&d.toks, l));
            }
        }
    });
    // equal tokens repeated: each must point at its own occurrence
    for (item, sep) in LISTS {
        let el = elements(item, 1, Naming::Same);
        let ctx = item_contexts(item);
        let jobs: Vec<(usize, usize)> = (0..ctx.len()).flat_map(|a| (0..el.len()).map(move |b| (a, b))).collect();
        par(sh, "repeated elements", &jobs, |c, (a, b)| {
            for n in 2..=4 {
                let x: Vec<&Deriv> = (0..n).map(|_| &el[*b]).collect();
                let d = fill_list(&ctx[*a], sep, &x);
                step(c);
                positions(c, doc(), &layout(&d.toks, Layout::Min));
            }
        });
    }
    // nodes by themselves
    let jobs: Vec<(&'static Entry, Deriv)> = entries().iter().flat_map(|e| node_derivs(e, sh.q(2, 3), true).into_iter().map(move |d| (e, d))).collect();
    par(sh, "nodes", &jobs, |c, (e, d)| {
        for l in lay {
            let s = layout(&d.toks, l);
            step(c);
            positions(c, e, &s);
        }
    });
    let mut files: Vec<_> = std::fs::read_dir("/repo/tests/defs").map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    let texts: Vec<String> = files.iter().filter_map(|f| std::fs::read_to_string(f).ok()).collect();
    par(sh, "sample files", &texts, |c, t| positions(c, doc(), t));
}
fn positions(c: &mut Ctx, e: &Entry, s: &str) {
    let o = match c.run(e, s, true) {
        Err(_) => return,
        Ok(o) => o,
    };
    if o.kind != Kind::Ok {
        return;
    }
    c.outcome(&o.out.ev);
    let base = s.as_ptr() as usize;
    let used = s.len() - o.rest.len();
    let mut ys = o.out.ys.iter().filter_map(|y| match y {
        Y::Term(_) => None,
        Y::Name(t) | Y::Lit(_, t) => Some(*t),
    });
    // the tokens that carry text, in source order; terminals of the tree are skipped by matching
    let mut all = o.out.ys.iter();
    let mut at = 0;
    while let Some((t, off)) = next_tok(s, at) {
        if off >= used && e.name != "parse" {
            break;
        }
        at = off + t.src.len();
        let y = all.clone().next();
        let (text, skip) = match y {
            Some(Y::Term(k)) if *k == t.k => {
                all.next();
                continue;
            }
            Some(Y::Name(x)) if name_like(t.k) => (*x, t.src.starts_with('_') as usize),
            Some(Y::Lit(k, x)) if *k == t.k => (*x, (t.k == STR) as usize),
            _ if t.src == "," || t.src == "or" => continue, // optional trailing separator
            _ => {
                c.violate(e.name, s, "the tree's tokens are not at the source's positions", &format!("{:?} at {}", t.src, off), &format!("{:?}", y));
                return;
            }
        };
        all.next();
        let _ = ys.next();
        let p = text.as_ptr() as usize;
        if p != base + off + skip || text.len() != t.val.len() {
            c.violate(e.name, s, "text is not borrowed from where it was written", &format!("{:?} at {}", t.val, off + skip), &format!("{:?} at {}", text, p.wrapping_sub(base) as isize));
            return;
        }
    }
}

// ------------------------------------------------------------------ self test of the model

/// The generator and the recogniser of the model agree: every derivation is recognised, with the
/// tree it was generated with, by the strict grammar, and accepted by the lenient one; the lexer
/// reads back every layout of it.
pub fn selftest() -> i32 {
    let sh = Shared::local("selftest");
    let mut sts: Vec<Start> = entries().iter().map(|e| Start { path: vec![model().s.id(e.node)] }).collect();
    for s in ["Definition", "InterfaceMember", "Type", "Argument", "ExtendedAttribute"] {
        sts.extend(starts(s));
    }
    let nodes: Vec<usize> = sts.iter().map(|s| s.path[0]).collect();
    let bad = std::sync::atomic::AtomicUsize::new(0);
    let count = std::sync::atomic::AtomicUsize::new(0);
    for (s, n) in sts.iter().zip(nodes) {
        let node = *model().s.named.iter().find(|(_, i)| **i == n).unwrap().0;
        par_derive(&sh, "selftest", std::slice::from_ref(s), GenCfg { max_list: 3, ..cfg(2, Naming::Distinct, true) }, |c, d| {
            count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            match c.j.judge(node, &d.toks) {
                Verdict::Accept(ev) if ev == d.ev => {}
                Verdict::Accept(ev) => { bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed); eprintln!("{}: ambiguous {:?}\n  {}\n  {}", node, layout(&d.toks, Layout::Min), d.ev, ev); }
                _ => { bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed); eprintln!("{}: not recognised {:?}", node, layout(&d.toks, Layout::Min)); }
            }
            for l in [Layout::Min, Layout::Space, Layout::Mixed] {
                let s = layout(&d.toks, l);
                let mut t = vec![];
                lex(&s, &mut t);
                let same = t.len() == d.toks.len() && t.iter().zip(&d.toks).all(|(a, b)| a.src == b.src && a.k == b.k && a.val == b.val);
                if !same { bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed); eprintln!("lexer: {:?}", s); }
            }
        });
    }
    let b = bad.load(std::sync::atomic::Ordering::Relaxed);
    println!("selftest: {} derivations, {} disagreements", count.load(std::sync::atomic::Ordering::Relaxed), b);
    (b > 0) as i32
}
