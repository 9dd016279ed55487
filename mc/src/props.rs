//! The families of executions explored for each property.
use crate::eng::*;
use crate::gram::*;
use crate::props2::step;
use crate::tok::*;
use crate::walk::*;
use crate::props2::{special_elements, in_runs, BLANK_RUNS, NAME_RUNS, NUMBER_RUNS, STRING_RUNS, short_values, VALUE_HOSTS, attribute_nesting, coincidences, echoes, literal_texts, list_lengths, magic_names, source_strings, some_counts, some_depths, type_nesting};

// ------------------------------------------------------------------ start points

fn root() -> Id {
    model().s.id("Definitions")
}
pub fn doc() -> &'static Entry {
    entry("parse")
}
/// every position of node `target` in a document
pub fn starts_id(target: Id) -> Vec<Start> {
    model().s.contexts(root(), target).into_iter().map(|path| Start { path }).collect()
}
pub fn starts(name: &str) -> Vec<Start> {
    let g = &model().s;
    let mut v = vec![];
    for id in g.every.get(name).unwrap_or_else(|| panic!("no node {}", name)) {
        v.extend(starts_id(*id));
    }
    assert!(!v.is_empty(), "{} never occurs", name);
    v
}
/// every separated list of `item` in a document (argument lists, attribute lists, ...)
pub fn list_starts(item: &str) -> Vec<Start> {
    let g = &model().s;
    let it = g.id(item);
    let mut v = vec![];
    for id in g.reachable(root()) {
        let hit = match &g.g[id] {
            G::Sep { item, .. } => *item == it,
            G::Many(x) => *x == it,
            _ => false,
        };
        if hit {
            v.extend(starts_id(id));
        }
    }
    v
}
fn whole() -> Vec<Start> {
    vec![Start { path: vec![root()] }]
}
pub fn cfg(bound: usize, naming: Naming, vocab: bool) -> GenCfg {
    GenCfg { naming, vocab, max_list: 3, bound, narrow: 0 }
}

/// One small document per construct and position: all derivations one departure away from the
/// default, from every start point.  Distinct texts only.
pub fn bases(bound: usize, vocab: bool) -> Vec<Deriv> {
    let mut v = vec![];
    let c = cfg(bound, Naming::Distinct, vocab);
    for s in ["Definition", "InterfaceMember", "MixinMember", "NamespaceMember", "DictionaryMember"] {
        v.extend(collect(&starts(s), c));
    }
    for s in ["Argument", "ExtendedAttribute"] {
        // one position is enough here for the inner structure; positions come with the lists
        v.extend(collect(&starts(s)[..1], c));
    }
    let one = GenCfg { max_list: 2, ..cfg(1, Naming::Distinct, false) };
    v.extend(collect(&list_starts("Argument"), one));
    v.extend(collect(&list_starts("ExtendedAttribute"), one));
    v.extend(collect(&starts("Type"), cfg(1, Naming::Distinct, false)));
    v.extend(collect(&starts("RecordKeyType"), cfg(1, Naming::Distinct, false)));
    v.extend(collect(&starts("UnionMemberType"), cfg(1, Naming::Distinct, false)));
    dedup(v)
}
/// the same without the per-position type vocabulary: a few hundred documents
pub fn small_bases() -> Vec<Deriv> {
    let c = cfg(1, Naming::Distinct, false);
    let c2 = GenCfg { max_list: 2, ..c };
    let mut v = vec![];
    for s in ["Definition", "InterfaceMember", "MixinMember", "NamespaceMember", "DictionaryMember"] {
        v.extend(collect(&starts(s)[..1], c2));
    }
    v.extend(collect(&starts("Argument")[..1], c));
    v.extend(collect(&starts("ExtendedAttribute")[..1], c));
    v.extend(collect(&starts("Type")[..1], c));
    dedup(v)
}
fn dedup(v: Vec<Deriv>) -> Vec<Deriv> {
    let mut seen = std::collections::HashSet::new();
    let mut v: Vec<Deriv> = v.into_iter().filter(|d| seen.insert(layout(&d.toks, Layout::Space))).collect();
    v.sort_by_key(|d| d.toks.len());
    v
}

// ------------------------------------------------------------------ derivations must be accepted

pub fn derive_check(sh: &Shared, family: &'static str, st: &[Start], c: GenCfg, layouts: &[Layout]) {
    par_derive(sh, family, st, c, |cx, d| {
        let mut s = String::new();
        for l in layouts {
            layout_into(&d.toks, *l, &mut s);
            cx.expect_tree(doc(), &s, &d.ev);
        }
    });
    sh.note(format!("{}: {} start points, <= {} departures, naming {:?}, vocab {}", family, st.len(), c.bound, c.naming, c.vocab));
}

/// few representatives of types, values and attributes, but many departures: combinations of optional parts,
/// list lengths and modifiers
pub fn structure(sh: &Shared, family: &'static str, st: &[Start], narrow: u8, bound: usize, max_list: usize) {
    derive_check(sh, family, st, GenCfg { narrow, max_list, ..cfg(bound, Naming::Distinct, false) }, M1);
}
pub fn structures<F: Fn(&mut Ctx, &Deriv) + Sync>(sh: &Shared, naming: Naming, f: F) {
    let whole: Vec<(Vec<Start>, u8, usize, usize)> = vec![(starts("Definition"), 1, sh.q(6, 8), 2), (whole(), 1, sh.q(4, 5), 3), (starts("InterfaceMember")[..1].to_vec(), 1, sh.q(7, 9), 2), (starts("MixinMember")[..1].to_vec(), 1, sh.q(7, 9), 2),
        (starts("NamespaceMember")[..1].to_vec(), 1, sh.q(7, 9), 2), (starts("DictionaryMember")[..1].to_vec(), 1, sh.q(8, 10), 2), (starts("Type")[..1].to_vec(), 2, sh.q(6, 7), 3),
        (list_starts("Argument")[..1].to_vec(), 1, sh.q(6, 8), 3), (list_starts("ExtendedAttribute")[..1].to_vec(), 3, sh.q(6, 7), 3)];
    for (st, narrow, bound, max_list) in whole {
        par_derive(sh, "structures", &st, GenCfg { narrow, max_list, ..cfg(bound, naming, false) }, &f);
    }
    sh.note(format!("structures: combinations of 4 to {} departures, narrow vocabulary, naming {:?}", sh.q(8, 10), naming));
}
pub const MM: &[Layout] = &[Layout::Min, Layout::Mixed];
pub const M1: &[Layout] = &[Layout::Min];

pub fn c02(sh: &Shared) {
    special_elements(sh, "unusual elements", &["Definition","StringLit","InterfaceMember","MixinMember","NamespaceMember","DictionaryMember"], |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    structure(sh, "definitions/structure", &starts("Definition"), 1, sh.q(7, 9), 2);
    structure(sh, "documents/structure", &whole(), 1, sh.q(5, 6), 3);
    coincidences(sh, "definitions/coincident names", &starts("Definition"), sh.q(3, 4), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    coincidences(sh, "documents/coincident names", &whole(), sh.q(3, 4), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    magic_names(sh, |c, s, _| { c.check_judged(doc(), s, ALL); });
    list_lengths(sh, "list lengths", &["Definition", "StringLit", "InterfaceMember", "MixinMember", "NamespaceMember", "DictionaryMember"], &some_counts(sh), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    let d = starts("Definition");
    derive_check(sh, "definitions", &d, cfg(sh.q(4, 5), Naming::Distinct, false), MM);
    derive_check(sh, "definitions/vocab", &d, cfg(sh.q(2, 3), Naming::Distinct, true), MM);
    derive_check(sh, "definitions/tricky-names", &d, cfg(sh.q(3, 4), Naming::Tricky, false), M1);
    derive_check(sh, "definitions/same-names", &d, cfg(sh.q(2, 3), Naming::Same, false), M1);
    derive_check(sh, "documents", &whole(), cfg(sh.q(4, 5), Naming::Distinct, false), M1);
    corpus(sh);
}

/// The repository's own sample files: the model must derive them and agree with the parser.
fn corpus(sh: &Shared) {
    let mut files: Vec<_> = std::fs::read_dir("/repo/tests/defs")
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    let texts: Vec<String> = files.iter().filter_map(|f| std::fs::read_to_string(f).ok()).collect();
    par(sh, "sample files", &texts, |cx, t| {
        cx.check_judged(doc(), t, ALL);
    });
    sh.note(format!("sample files: {}", texts.len()));
}

pub fn c03(sh: &Shared) {
    special_elements(sh, "unusual elements", &["InterfaceMember"], |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    structure(sh, "interface members/structure", &starts("InterfaceMember")[..1], 1, sh.q(9, 11), 2);
    structure(sh, "interface members/structure", &starts("InterfaceMember"), 1, sh.q(7, 8), 2);
    coincidences(sh, "interface members/coincident names", &starts("InterfaceMember"), sh.q(3, 4), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    magic_names(sh, |c, s, _| { c.check_judged(doc(), s, ALL); });
    list_lengths(sh, "list lengths", &["InterfaceMember"], &some_counts(sh), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    let s = starts("InterfaceMember");
    derive_check(sh, "interface members", &s, cfg(sh.q(5, 6), Naming::Distinct, false), M1);
    derive_check(sh, "interface members/layout", &s, cfg(sh.q(2, 3), Naming::Tricky, false), MM);
    derive_check(sh, "interface members/vocab", &s, cfg(sh.q(3, 4), Naming::Distinct, true), M1);
    derive_check(sh, "interface member lists", &list_starts("InterfaceMember"), cfg(sh.q(3, 4), Naming::Same, false), MM);
}
pub fn c04(sh: &Shared) {
    special_elements(sh, "unusual elements", &["MixinMember","NamespaceMember","DictionaryMember"], |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    for (n, f) in [("MixinMember", "mixin members/structure"), ("NamespaceMember", "namespace members/structure"), ("DictionaryMember", "dictionary members/structure")] {
    structure(sh, f, &starts(n), 1, sh.q(8, 10), 2);
}
    coincidences(sh, "mixin members/coincident names", &starts("MixinMember"), sh.q(3, 4), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    coincidences(sh, "namespace members/coincident names", &starts("NamespaceMember"), sh.q(3, 4), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    coincidences(sh, "dictionary members/coincident names", &starts("DictionaryMember"), sh.q(3, 4), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    magic_names(sh, |c, s, _| { c.check_judged(doc(), s, ALL); });
    list_lengths(sh, "list lengths", &["MixinMember", "NamespaceMember", "DictionaryMember"], &some_counts(sh), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    for (n, f, fv, fl) in [
        ("MixinMember", "mixin members", "mixin members/vocab", "mixin member lists"),
        ("NamespaceMember", "namespace members", "namespace members/vocab", "namespace member lists"),
        ("DictionaryMember", "dictionary members", "dictionary members/vocab", "dictionary member lists"),
    ] {
        let s = starts(n);
        derive_check(sh, f, &s, cfg(sh.q(4, 5), Naming::Distinct, false), MM);
        derive_check(sh, fv, &s, cfg(sh.q(3, 4), Naming::Tricky, true), M1);
        derive_check(sh, fl, &list_starts(n), cfg(sh.q(3, 4), Naming::Same, false), MM);
    }
    for n in ["MixinMember", "NamespaceMember", "DictionaryMember"] {
        lapses(sh, "members/a token missing", &starts(n)[..1], cfg(sh.q(3, 4), Naming::Distinct, false), false, ALL);
        lapses(sh, "members/parts missing or too many", &starts(n)[..1], GenCfg { narrow: 1, max_list: 2, ..cfg(sh.q(5, 6), Naming::Distinct, false) }, true, ALL);
    }
    value_lapses(sh, &["MixinMember", "NamespaceMember", "DictionaryMember"], ALL);
    distortions(sh, &small_member_bases(), ALL);
    // what a namespace or dictionary member must not be
    edits_of(sh, "member edits", small_member_bases(), REJ);
}
fn small_member_bases() -> Vec<Deriv> {
    let c = GenCfg { max_list: 1, ..cfg(1, Naming::Distinct, false) };
    let mut v = vec![];
    for s in ["MixinMember", "NamespaceMember", "DictionaryMember"] {
        v.extend(collect(&starts(s)[..1], c));
    }
    dedup(v)
}
pub fn c05(sh: &Shared) {
    special_elements(sh, "unusual elements", &["UnionMemberType"], |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    structure(sh, "types/structure", &starts("Type"), 2, sh.q(4, 5), 3);
    structure(sh, "types/structure", &starts("Type")[..1], 2, sh.q(7, 8), 3);
    coincidences(sh, "types/coincident names", &starts("Type"), sh.q(3, 4), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    coincidences(sh, "one type/coincident names", &starts("Type")[..1], sh.q(4, 5), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    magic_names(sh, |c, s, _| { c.check_judged(doc(), s, ALL); });
    list_lengths(sh, "list lengths", &["UnionMemberType"], &some_counts(sh), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    type_nesting(sh, &some_depths(sh));
    derive_check(sh, "types/every position", &starts("Type"), cfg(sh.q(3, 4), Naming::Distinct, false), M1);
    derive_check(sh, "types/one position", &starts("Type")[..1], cfg(sh.q(5, 6), Naming::Distinct, false), MM);
    derive_check(sh, "return types", &starts("ReturnType"), cfg(sh.q(3, 4), Naming::Distinct, true), MM);
    derive_check(sh, "constant types", &starts("ConstType"), cfg(sh.q(4, 5), Naming::Distinct, true), MM);
    derive_check(sh, "record keys", &starts("RecordKeyType"), cfg(sh.q(3, 4), Naming::Tricky, false), M1);
    derive_check(sh, "union members", &starts("UnionMemberType"), cfg(sh.q(3, 4), Naming::Distinct, false), MM);
    derive_check(sh, "annotated types", &starts("AttributedType"), cfg(sh.q(3, 4), Naming::Same, false), M1);
    lapses(sh, "types/a token missing", &starts("Type")[..1], cfg(sh.q(4, 5), Naming::Distinct, false), false, ALL);
    lapses(sh, "types/a token missing", &starts("Type"), cfg(sh.q(2, 3), Naming::Distinct, false), false, ALL);
    lapses(sh, "types/parts missing or too many", &starts("Type")[..1], GenCfg { narrow: 2, max_list: 3, ..cfg(sh.q(4, 5), Naming::Distinct, false) }, true, ALL);
    value_lapses(sh, &["Type", "ReturnType", "AttributedType", "ConstType"], ALL);
    distortions(sh, &dedup(collect(&starts("Type")[..2], cfg(sh.q(2, 3), Naming::Distinct, false))), ALL);
    // all token strings over the type vocabulary, against the model
    let toks = tokens_of(&["x", "long", "unsigned", "short", "float", "unrestricted", "any", "DOMString", "sequence", "Promise", "record", "<", ">", ",", "?", "(", ")", "or", "[", "]"]);
    trie(sh, "type token strings", entry("Type"), &toks, &[], &[], sh.q(7, 8), ALL);
    let doc_ctx = (tokens_of(&["typedef"]), tokens_of(&["y", ";"]));
    trie(sh, "typedef token strings", doc(), &toks, &doc_ctx.0, &doc_ctx.1, sh.q(6, 7), ALL);
}
pub fn c06(sh: &Shared) {
    special_elements(sh, "unusual elements", &["Argument"], |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    structure(sh, "argument lists/structure", &list_starts("Argument"), 1, sh.q(6, 7), 3);
    structure(sh, "argument lists/structure", &list_starts("Argument")[..1], 1, sh.q(7, 9), 3);
    coincidences(sh, "argument lists/coincident names", &list_starts("Argument"), sh.q(2, 3), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    coincidences(sh, "one argument list/coincident names", &list_starts("Argument")[..1], sh.q(3, 4), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    magic_names(sh, |c, s, _| { c.check_judged(doc(), s, ALL); });
    list_lengths(sh, "list lengths", &["Argument"], &some_counts(sh), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    derive_check(sh, "arguments/every list", &list_starts("Argument"), cfg(sh.q(3, 4), Naming::Distinct, false), M1);
    derive_check(sh, "arguments/one position", &starts("Argument")[..1], cfg(sh.q(4, 5), Naming::Distinct, true), M1);
    derive_check(sh, "arguments/every position", &starts("Argument"), cfg(sh.q(2, 3), Naming::Tricky, true), MM);
    derive_check(sh, "argument lists", &list_starts("Argument")[..1], cfg(sh.q(4, 5), Naming::Same, false), M1);
    derive_check(sh, "default values", &starts("Default"), cfg(3, Naming::Distinct, true), MM);
    lapses(sh, "arguments/a token missing", &list_starts("Argument")[..1], cfg(sh.q(3, 4), Naming::Distinct, false), false, ALL);
    lapses(sh, "arguments/a token missing", &list_starts("Argument"), cfg(sh.q(2, 3), Naming::Distinct, false), false, ALL);
    lapses(sh, "arguments/parts missing or too many", &list_starts("Argument")[..1], GenCfg { narrow: 1, max_list: 3, ..cfg(sh.q(4, 5), Naming::Distinct, false) }, true, ALL);
    value_lapses(sh, &["Argument"], ALL);
    distortions(sh, &dedup(collect(&list_starts("Argument")[..2], cfg(sh.q(2, 2), Naming::Distinct, false))), ALL);
    let toks = tokens_of(&["x", "long", "optional", "...", ",", "=", "5", "\"s\"", "null", "[", "]", "{", "}", "(", ")", "or", "?", "async"]);
    trie(sh, "argument token strings", entry("ArgumentList"), &toks, &[], &[], sh.q(7, 8), ALL);
    let ctx = (tokens_of(&["callback", "c", "=", "undefined", "("]), tokens_of(&[")", ";"]));
    trie(sh, "argument token strings in a callback", doc(), &toks, &ctx.0, &ctx.1, sh.q(6, 7), ALL);
    let c = cfg(1, Naming::Distinct, false);
    let b = dedup(collect(&starts("Argument")[..3], c));
    edits_of(sh, "argument edits", b, ALL);
}
pub fn c07(sh: &Shared) {
    special_elements(sh, "unusual elements", &["ExtendedAttribute","Identifier"], |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    short_values(sh, &VALUE_HOSTS[..4], |c, s| { c.check_judged(doc(), s, ALL); });
    structure(sh, "attribute lists/structure", &list_starts("ExtendedAttribute"), 3, sh.q(4, 5), 3);
    structure(sh, "attribute lists/structure", &list_starts("ExtendedAttribute")[..1], 3, sh.q(7, 8), 3);
    coincidences(sh, "attribute lists/coincident names", &list_starts("ExtendedAttribute"), sh.q(2, 3), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    coincidences(sh, "one attribute/coincident names", &starts("ExtendedAttribute")[..1], sh.q(4, 5), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    magic_names(sh, |c, s, _| { c.check_judged(doc(), s, ALL); });
    list_lengths(sh, "list lengths", &["ExtendedAttribute", "Identifier"], &some_counts(sh), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    attribute_nesting(sh);
    derive_check(sh, "attributes/every position", &list_starts("ExtendedAttribute"), cfg(sh.q(3, 4), Naming::Distinct, false), M1);
    derive_check(sh, "attributes/one position", &starts("ExtendedAttribute")[..1], cfg(sh.q(5, 6), Naming::Distinct, false), MM);
    derive_check(sh, "attributes/vocab", &starts("ExtendedAttribute"), cfg(sh.q(2, 3), Naming::Tricky, true), MM);
    derive_check(sh, "attribute lists/same names", &list_starts("ExtendedAttribute"), cfg(sh.q(2, 3), Naming::Same, false), M1);
    lapses(sh, "attributes/a token missing", &list_starts("ExtendedAttribute")[..1], cfg(sh.q(3, 4), Naming::Distinct, false), false, ALL);
    lapses(sh, "attributes/a token missing", &list_starts("ExtendedAttribute"), cfg(sh.q(2, 3), Naming::Distinct, false), false, ALL);
    lapses(sh, "attributes/parts missing or too many", &list_starts("ExtendedAttribute")[..1], GenCfg { narrow: 3, max_list: 3, ..cfg(sh.q(4, 5), Naming::Distinct, false) }, true, ALL);
    value_lapses(sh, &["ExtendedAttribute"], ALL);
    distortions(sh, &dedup(collect(&list_starts("ExtendedAttribute")[..2], cfg(sh.q(2, 2), Naming::Distinct, false))), ALL);
    let toks = tokens_of(&["x", "y", "=", "(", ")", ",", "*", "\"s\"", "long", "[", "]", "optional", "5"]);
    let ctx = (tokens_of(&["["]), tokens_of(&["]", "a", "includes", "b", ";"]));
    trie(sh, "attribute token strings", doc(), &toks, &ctx.0, &ctx.1, sh.q(7, 8), ALL);
    trie(sh, "attribute token strings/node", entry("ExtendedAttribute"), &toks, &[], &[], sh.q(7, 8), ALL);
    // attachment: two annotated neighbours, every pair of positions is covered by 2 departures
    derive_check(sh, "attachment", &starts("Definition"), cfg(sh.q(4, 5), Naming::Indexed, false), M1);
}

// ------------------------------------------------------------------ token strings

pub fn tokens_of(v: &[&'static str]) -> Vec<Tok<'static>> {
    let mut out = vec![];
    for s in v {
        let (t, _) = next_tok(s, 0).unwrap();
        assert_eq!(t.src, *s);
        out.push(t);
    }
    out
}
/// one token per kind (identifiers, literals and a character outside the grammar included)
pub fn all_tokens() -> Vec<Tok<'static>> {
    let mut v: Vec<Tok<'static>> = (0..nterms() as u8).map(mk_term).collect();
    v.extend(tokens_of(&["x", "_y", "\"s\"", "5", "0x1F", "07", "1.5", "@"]));
    v
}
/// Depth-first search over all token strings that are viable prefixes in the lenient model, plus
/// each one-token step off it; the string is embedded between `pre` and `post`.
#[allow(clippy::too_many_arguments)]
/// judge a token sequence once, run it with single spaces and with no space that is not needed (and, in
/// the thorough tier, with mixed white space and comments)
pub fn layouts_of(c: &mut Ctx, e: &'static Entry, t: &[Tok<'static>], text: &mut String, sel: Sel) {
    let v = c.j.judge(e.node, t);
    if let Verdict::Open = v {
        c.st.open += 1;
    }
    let n = if c.sh.thorough() { 3 } else { 2 };
    for l in &[Layout::Space, Layout::Min, Layout::Mixed][..n] {
        c.st.transitions += 1;
        layout_into(t, *l, text);
        let r = c.run(e, text, true);
        c.compare(e, text, t, &v, r, sel);
    }
}
pub fn trie(sh: &Shared, family: &'static str, e: &'static Entry, alpha: &[Tok<'static>], pre: &[Tok<'static>], post: &[Tok<'static>], depth: usize, sel: Sel) {
    // roots: all prefixes of length <= 2 that are viable
    let mut roots: Vec<Vec<Tok<'static>>> = vec![vec![]];
    let mut jobs: Vec<(Vec<Tok<'static>>, usize)> = vec![];
    for lvl in 0..=2usize.min(depth) {
        let mut next = vec![];
        for r in &roots {
            jobs.push((r.clone(), if lvl == 2 { depth } else { lvl }));
            if lvl < 2 {
                for a in alpha {
                    let mut p = r.clone();
                    p.push(*a);
                    next.push(p);
                }
            }
        }
        roots = next;
    }
    // jobs for levels 0 and 1 only run the node itself; level-2 jobs run their subtree
    par(sh, family, &jobs, |c, (p, d)| {
        let mut cur: Vec<Tok<'static>> = pre.to_vec();
        if p.len() == 2 {
            // skip subtrees whose first token already left the language
            cur.push(p[0]);
            let m = model();
            c.j.rl.accepts(&m.l, m.l.id(e.node), &cur);
            if !c.j.rl.hit_eof {
                return;
            }
            cur.push(p[1]);
        } else {
            cur.extend_from_slice(p);
        }
        trie_rec(c, e, alpha, &mut cur, pre.len(), post, if p.len() == 2 { *d } else { p.len() }, sel);
    });
    sh.note(format!("{}: alphabet {}, depth {}", family, alpha.len(), depth));
}
#[allow(clippy::too_many_arguments)]
fn trie_rec(c: &mut Ctx, e: &'static Entry, alpha: &[Tok<'static>], cur: &mut Vec<Tok<'static>>, base: usize, post: &[Tok<'static>], depth: usize, sel: Sel) {
    if c.stopped() {
        return;
    }
    let n = cur.len();
    c.st.transitions += 1;
    let m = model();
    c.j.rl.accepts(&m.l, m.l.id(e.node), cur);
    let viable = c.j.rl.hit_eof;
    cur.extend_from_slice(post);
    let mut text = String::new();
    layouts_of(c, e, cur, &mut text, sel);
    cur.truncate(n);
    if viable && n - base < depth {
        for a in alpha {
            cur.push(*a);
            trie_rec(c, e, alpha, cur, base, post, depth, sel);
            cur.pop();
        }
    }
}

// ------------------------------------------------------------------ edits

/// every single-token edit: deletion, duplication, adjacent swap, insertion and replacement by
/// every token kind
pub fn token_edits(t: &[Tok<'static>], alpha: &[Tok<'static>], f: &mut dyn FnMut(&[Tok<'static>])) {
    let n = t.len();
    let mut b: Vec<Tok<'static>> = Vec::with_capacity(n + 1);
    for i in 0..n {
        b.clear();
        b.extend_from_slice(&t[..i]);
        b.extend_from_slice(&t[i + 1..]);
        f(&b);
        b.clear();
        b.extend_from_slice(&t[..=i]);
        b.extend_from_slice(&t[i..]);
        f(&b);
        if i + 1 < n {
            b.clear();
            b.extend_from_slice(t);
            b.swap(i, i + 1);
            f(&b);
        }
        for a in alpha {
            b.clear();
            b.extend_from_slice(t);
            b[i] = *a;
            f(&b);
        }
    }
    for i in 0..=n {
        for a in alpha {
            b.clear();
            b.extend_from_slice(&t[..i]);
            b.push(*a);
            b.extend_from_slice(&t[i..]);
            f(&b);
        }
    }
}
/// every edit of a run of tokens: deletion, duplication, exchange of adjacent runs, and insertion of
/// every phrase that is well-formed somewhere
pub fn slice_edits(t: &[Tok<'static>], frags: &[Vec<Tok<'static>>], longest: usize, f: &mut dyn FnMut(&[Tok<'static>])) {
    let n = t.len();
    let mut b: Vec<Tok<'static>> = Vec::with_capacity(2 * n + 8);
    for i in 0..n {
        for l in 2..=longest.min(n - i) {
            b.clear();
            b.extend_from_slice(&t[..i]);
            b.extend_from_slice(&t[i + l..]);
            f(&b);
            b.clear();
            b.extend_from_slice(&t[..i + l]);
            b.extend_from_slice(&t[i..]);
            f(&b);
        }
        for l in 1..=longest {
            for m in 1..=longest {
                if i + l + m > n || l + m == 2 || l + m > longest + 1 {
                    continue;
                }
                b.clear();
                b.extend_from_slice(&t[..i]);
                b.extend_from_slice(&t[i + l..i + l + m]);
                b.extend_from_slice(&t[i..i + l]);
                b.extend_from_slice(&t[i + l + m..]);
                f(&b);
            }
        }
    }
    for i in 0..=n {
        for a in frags {
            b.clear();
            b.extend_from_slice(&t[..i]);
            b.extend_from_slice(a);
            b.extend_from_slice(&t[i..]);
            f(&b);
        }
    }
}
pub fn phrases() -> Vec<Vec<Tok<'static>>> {
    [
        "[A]", "[A,B]", "[A=b]", "[A()]", "[]", "()", "(x)", "(long x)", "(long or x)", "{}", "<long>", "<x,y>", "? ?", "= 5", "=\"s\"", "= []", ": B", ", x", "x,", "; ;", "= x",
        "\"s\",", ",\"s\"", "long long", "unsigned long", "unsigned short", "unrestricted float", "sequence<long>", "sequence<any>?", "Promise<x>", "record<DOMString,x>", "readonly attribute", "static attribute",
        "inherit attribute", "stringifier attribute", "static readonly", "inherit readonly", "stringifier readonly", "partial interface", "interface mixin", "callback interface",
        "long x;", "attribute long x;", "const long x=5;", "readonly attribute any x;", "long x();", "static long x();", "required long x;", "long x=5;", "stringifier;", "iterable<x>;", "async iterable<x>;",
        "maplike<x,y>;", "setlike<x>;", "constructor();", "optional long x,", "long... x,", ", long x", ", optional any x=5", "x includes y;", "x implements y;", "typedef long x;",
        "interface x{};", "enum x{\"s\"};", "dictionary x{};", "[5]", "[x]", "[long]", ": : x", ". x", "( ... )", "(x, y)", "(5)", "(\"s\")", "= { x }", "= {\"a\"}", "= [5]", "= (5)", "= - 5", "= x ( )", "= * ,", "| x", "& x", "} ;", "; }", "{ ;", ", )", "( ,", "< >", "< ? >", "<long, long, long>", "or ( long )", "? or", "? ...", ": x, y", ": x : y", "{ long x; }", "{ x }", "x : long", "= null", "= true", "+ 5", "- 5", "5 5", "\"s\" \"t\"", "* *", "= *", "@ x", "# x", "async x", "optional", "static static", "readonly readonly", "unsigned unsigned", "unsigned x", "unrestricted long", "any ?", "Promise<x> ?", "void", "undefined x",
        "x y", "or x", "or long", "x or", "optional x", "... x", "- 1", "@ @", "getter long", "getter x(x y);", "deleter", "legacycaller any",
    ]
    .iter()
    .map(|s| {
        let mut v = vec![];
        lex(s, &mut v);
        v
    })
    .collect()
}
pub fn slices_of(sh: &Shared, family: &'static str, b: &[Deriv], longest: usize, sel: Sel) {
    let frags = phrases();
    par(sh, family, b, |c, d| {
        let mut text = String::new();
        slice_edits(&d.toks, &frags, longest, &mut |t| {
            if c.stopped() {
                return;
            }
            layouts_of(c, doc(), t, &mut text, sel);
        });
    });
    sh.note(format!("{}: all deletions, duplications and exchanges of runs of up to {} tokens and all insertions of {} phrases, in {} documents", family, longest, frags.len(), b.len()));
}
pub fn edits_of(sh: &Shared, family: &'static str, b: Vec<Deriv>, sel: Sel) {
    let alpha = all_tokens();
    par(sh, family, &b, |c, d| {
        let mut text = String::new();
        token_edits(&d.toks, &alpha, &mut |t| {
            if c.stopped() {
                return;
            }
            layouts_of(c, doc(), t, &mut text, sel);
        });
    });
    sh.note(format!("{}: all single-token edits of {} documents", family, b.len()));
}

fn judged(c: &mut Ctx, t: &[Tok<'static>], text: &mut String, sel: Sel) {
    let v = c.j.judge("Definitions", t);
    c.st.transitions += 1;
    layout_into(t, Layout::Min, text);
    let r = c.run(doc(), text, true);
    c.compare(doc(), text, t, &v, r, sel);
}
/// every derivation with one token left out; with `much`, also with one of a few things too many or in the place
/// of a token
pub fn lapses(sh: &Shared, family: &'static str, st: &[Start], g: GenCfg, much: bool, sel: Sel) {
    let mut extra: Vec<Vec<Tok<'static>>> = vec![];
    if much {
        for p in ["?", ",", ";", "x", "= null", "= 5", "= []", "optional", "required", "readonly", "static", "...", "or x", ": x", "[A]", "\"s\"", "( )", "<x>"] {
            let mut v = vec![];
            lex(p, &mut v);
            extra.push(v);
        }
    }
    par_derive(sh, family, st, g, |c, d| {
        let mut text = String::new();
        let mut t: Vec<Tok<'static>> = Vec::with_capacity(d.toks.len() + 4);
        for i in 0..=d.toks.len() {
            if c.stopped() { return; }
            if i < d.toks.len() {
                t.clear();
                t.extend_from_slice(&d.toks[..i]);
                t.extend_from_slice(&d.toks[i + 1..]);
                judged(c, &t, &mut text, sel);
            }
            for x in &extra {
                for skip in 0..2 {
                    if i + skip > d.toks.len() { continue }
                    t.clear();
                    t.extend_from_slice(&d.toks[..i]);
                    t.extend_from_slice(x);
                    t.extend_from_slice(&d.toks[i + skip..]);
                    judged(c, &t, &mut text, sel);
                }
            }
        }
    });
    sh.note(format!("{}: {} start points, <= {} departures, each token left out, {} things too many or in the place of a token", family, st.len(), g.bound, extra.len()));
}
fn mate(t: &[Tok]) -> Vec<(usize, usize)> {
    let mut st: Vec<usize> = vec![];
    let mut v = vec![];
    for (i, x) in t.iter().enumerate() {
        match x.src {
            "(" | "[" | "{" | "<" => st.push(i),
            ")" | "]" | "}" | ">" => {
                if let Some(j) = st.pop() { v.push((j, i)) }
            }
            _ => {}
        }
    }
    v
}
/// changes in two or more places that belong together: matching brackets of another kind, doubled or left out;
/// brackets or quotes around a run of tokens; all tokens of one kind replaced, left out or doubled; words
/// spelled otherwise; what is left of a text that breaks off or begins too late
pub fn distortions(sh: &Shared, b: &[Deriv], sel: Sel) {
    let all = all_tokens();
    let kinds: [(&str, &str); 4] = [("(", ")"), ("[", "]"), ("{", "}"), ("<", ">")];
    let around: Vec<(String, String)> = {
        let mut v: Vec<(String, String)> = kinds.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        v.extend("'`\"|%$#!&^~\\:;,.*+-/=?@_".chars().map(|c| (c.to_string(), c.to_string())));
        for (x, y) in [("<!--", "-->"), ("{{", "}}"), ("%{", "%}"), ("(*", "*)"), ("#if x\n", "\n#endif"), ("\"\"\"", "\"\"\""), ("<", "/>"), ("/", "/"), ("\u{201c}", "\u{201d}"), ("\u{ab}", "\u{bb}"), ("r\"", "\""), ("\\\"", "\\\""), ("b'", "'"), ("[[", "]]"), ("@(", ")"), ("\u{feff}", ""), ("", "\u{feff}"), ("#", "\n"), ("--", "\n"), ("%", "\n"), ("'", "\n"), ("///", ""), ("\\", "\n")] {
            v.push((x.into(), y.into()));
        }
        let novel: Vec<&str> = crate::dict::dict().strings.iter().copied().filter(|w| !PUNCT.contains(w) && !WORDS.contains(w) && !w.is_empty() && w.len() < 12).take(14).collect();
        for x in &novel {
            v.push((x.to_string(), "\n".into()));
            v.extend(novel.iter().map(|y| (x.to_string(), y.to_string())));
        }
        v
    };
    par(sh, "distortions", b, |c, d| {
        let mut text = String::new();
        let n = d.toks.len();
        let mut go = |c: &mut Ctx, t: &[Tok<'static>]| judged(c, t, &mut text, sel);
        // brackets
        for (i, j) in mate(&d.toks) {
            for (x, y) in kinds {
                if c.stopped() { return }
                let mut t = d.toks.clone();
                let (x, y) = (tokens_of(&[x])[0], tokens_of(&[y])[0]);
                t[i] = x;
                t[j] = y;
                go(c, &t);
                t = d.toks.clone();
                t.insert(j + 1, y);
                t.insert(i, x);
                go(c, &t);
                t = d.toks.clone();
                t.insert(j, y);
                t.insert(i + 1, x);
                go(c, &t);
            }
            let mut t = d.toks.clone();
            t.remove(j);
            t.remove(i);
            go(c, &t);
            // and without what is between them
            let mut t = d.toks.clone();
            t.drain(i + 1..j);
            go(c, &t);
            let mut t = d.toks.clone();
            t.drain(i..=j);
            go(c, &t);
        }
        // all tokens of one kind
        let mut seen: Vec<&str> = vec![];
        for k in 0..n {
            let w = d.toks[k].src;
            if seen.contains(&w) || d.toks[k].k == IDENT { continue }
            seen.push(w);
            if c.stopped() { return }
            let t: Vec<_> = d.toks.iter().copied().filter(|x| x.src != w).collect();
            go(c, &t);
            let t: Vec<_> = d.toks.iter().copied().flat_map(|x| std::iter::repeat(x).take(if x.src == w { 2 } else { 1 })).collect();
            go(c, &t);
            if d.toks.iter().filter(|x| x.src == w).count() > 1 {
                for a in &all {
                    let t: Vec<_> = d.toks.iter().map(|x| if x.src == w { *a } else { *x }).collect();
                    go(c, &t);
                }
            }
        }
        // beginnings and ends, and all gaps of one or more tokens
        for i in 0..n {
            for j in i + 1..=n {
                if c.stopped() { return }
                if j - i < 6 && i > 0 && j < n { continue }
                let mut t = d.toks.clone();
                t.drain(i..j);
                go(c, &t);
            }
        }
        // words spelled otherwise
        for i in 0..n {
            let w = d.toks[i].src;
            if d.toks[i].k == IDENT || !w.as_bytes()[0].is_ascii_alphabetic() { continue }
            let mut cap = w.to_string();
            cap[..1].make_ascii_uppercase();
            let mut low = w.to_string();
            low[..1].make_ascii_lowercase();
            for x in [w.to_ascii_uppercase(), w.to_ascii_lowercase(), cap, low, format!("{}s", w), format!("_{}", w), format!("{}_", w), format!("-{}", w), format!("{}{}", w, w), format!("@{}", w), format!("#{}", w), format!("{}:", w), format!("\\{}", w), format!("{}.", w), format!("$ {}", w)] {
                if c.stopped() { return }
                if x == w { continue }
                let s = format!("{} {} {}", layout(&d.toks[..i], Layout::Min), x, layout(&d.toks[i + 1..], Layout::Min));
                step(c);
                c.check_judged(doc(), &s, sel);
            }
        }
        // something around a run of tokens
        for i in 0..n {
            for j in i + 1..=n.min(i + sh.q(3, 6)).max(if i == 0 { n } else { 0 }) {
                if j > i + 6 && j < n { continue }
                let (l, m, r) = (layout(&d.toks[..i], Layout::Min), layout(&d.toks[i..j], Layout::Min), layout(&d.toks[j..], Layout::Min));
                for (x, y) in &around {
                    if c.stopped() { return }
                    step(c);
                    c.check_judged(doc(), &format!("{} {}{}{} {}", l, x, m, y, r), sel);
                }
            }
        }
    });
    sh.note(format!("distortions: {} documents; matching brackets changed, doubled, left out; all tokens of one kind changed; every run of tokens left out; words spelled otherwise; {} kinds of marks around a run of tokens", b.len(), around.len()));
}
/// every two characters, and every three of a few, between the tokens and characters of the smallest documents
pub fn inserted_characters(sh: &Shared, sel: Sel) {
    let docs: Vec<String> = default_definitions().iter().map(|d| layout(&d.0, Layout::Min)).chain(["enum a{\"b\"};", "interface a{const long b=15;};", "[a=\"b\"]c includes d;", "dictionary a{long b=.5e1;};"].map(String::from)).collect();
    let jobs: Vec<(usize, usize)> = docs.iter().enumerate().flat_map(|(k, d)| (0..=d.len()).map(move |i| (k, i))).collect();
    let two: Vec<u8> = (0u8..128).filter(|b| *b == b'\n' || *b == b'\t' || *b >= 32 && *b < 127).filter(|b| sh.thorough() || !b.is_ascii_alphanumeric() || b"aexAEX0179".contains(b)).collect();
    let three: &[u8] = b"a1\"'/*\\-_.;, \n";
    par(sh, "inserted characters", &jobs, |c, (k, i)| {
        let (l, r) = docs[*k].split_at(*i);
        let mut s = String::new();
        let mut go = |c: &mut Ctx, m: &[u8]| {
            s.clear();
            s.push_str(l);
            s.push_str(std::str::from_utf8(m).unwrap());
            s.push_str(r);
            step(c);
            c.check_judged(doc(), &s, sel);
        };
        for a in &two {
            for b in &two {
                if c.stopped() { return }
                go(c, &[*a, *b]);
            }
        }
        for a in three {
            for b in three {
                for d in three {
                    if c.stopped() { return }
                    go(c, &[*a, *b, *d]);
                }
            }
        }
    });
    sh.note(format!("inserted characters: all pairs of {} and triples of {} characters at {} places", two.len(), three.len(), jobs.len()));
}
/// unusual names, strings and numbers in documents with one token left out or written twice
pub fn value_lapses(sh: &Shared, items: &[&str], sel: Sel) {
    let magic = &crate::dict::dict().magic;
    let mut names: Vec<&'static str> = vec!["Exposed", "Window", "toString", "A", "z9", "_x", "a-", "b_c", "x1-y2_z3"];
    names.extend(magic.iter().take(sh.q(150, 400)));
    names.retain(|w| word_kind(w).is_none());
    let pc = ",;=(){}[]<>?*:/-_. a1";
    let mut strs: Vec<String> = vec![String::new()];
    strs.extend(pc.chars().map(|c| c.to_string()));
    strs.extend(pc.chars().flat_map(|a| pc.chars().map(move |b| format!("{}{}", a, b))));
    strs.extend(crate::dict::dict().strings.iter().map(|s| s.to_string()).filter(|s| !s.contains('"')).take(100));
    let strs: Vec<&'static str> = strs.into_iter().map(|w| crate::props2::leak(format!("\"{}\"", w))).collect();
    let mut nums: Vec<String> = vec![];
    for n in [1usize, 2, 3, 4, 5, 7, 8, 9, 10, 11, 16, 17, 20, 32, 64] {
        for sign in ["", "-"] {
            let d: String = "1234567890".chars().cycle().take(n).collect();
            let h: String = "fA90bC18".chars().cycle().take(n).collect();
            let o: String = "76543210".chars().cycle().take(n).collect();
            for x in [d.clone(), format!("0x{}", h), format!("0X{}", h), format!("0{}", o), format!("{}.", d), format!(".{}", d), format!("{}.{}", d, d), format!("1e{}", d), format!("1.5E-{}", d), format!(".5e+{}", d)] {
                nums.push(format!("{}{}", sign, x));
            }
        }
    }
    let mut nums: Vec<&'static str> = nums.into_iter().map(crate::props2::leak).collect();
    nums.extend(["0", "-0", "0.0", "NaN", "Infinity", "-Infinity", "true", "false", "null"]);
    let g = cfg(2, Naming::Distinct, false);
    let mut b: Vec<Deriv> = vec![];
    for n in items { b.extend(collect(&starts(n)[..1], GenCfg { max_list: 2, ..g })) }
    let b = dedup(b);
    let lex1 = |w: &'static str| { let mut v = vec![]; lex(w, &mut v); v[0] };
    let names: Vec<Tok<'static>> = names.into_iter().map(mk_name).collect();
    let strs: Vec<Tok<'static>> = strs.into_iter().map(mk_str).collect();
    let nums: Vec<Tok<'static>> = nums.into_iter().map(lex1).collect();
    par(sh, "unusual values and a token missing", &b, |c, d| {
        let mut text = String::new();
        let mut t = d.toks.clone();
        for i in 0..t.len() {
            let w = match t[i].k { IDENT => &names, STR => &strs, DEC | HEX | OCT | FLOAT => &nums, _ => continue };
            for x in w {
                t[i] = *x;
                for j in 0..t.len() {
                    if c.stopped() { return; }
                    let y = t[j];
                    t.remove(j);
                    judged(c, &t, &mut text, sel);
                    t.insert(j, y);
                    t.insert(j, y);
                    judged(c, &t, &mut text, sel);
                    t.remove(j);
                }
            }
            t[i] = d.toks[i];
        }
    });
    sh.note(format!("unusual values and a token missing: {} names, {} strings, {} numbers in every place of {} documents, each token left out or doubled", names.len(), strs.len(), nums.len(), b.len()));
}

/// single-token edits of every combination of optional parts and list lengths (narrow vocabulary)
pub fn rich_edits(sh: &Shared, k: usize, sel: Sel) {
    let few = tokens_of(&["x", ";", ",", "=", "?", ")", "(", "]", "{", "}", "<", "\"s\"", "5", "optional", "static", "readonly", "or", "..."]);
    let g = GenCfg { narrow: 1, max_list: 2, ..cfg(k, Naming::Distinct, false) };
    for (n, d) in [("Definition", 1), ("InterfaceMember", 2), ("MixinMember", 2), ("NamespaceMember", 2), ("DictionaryMember", 2), ("Type", 2), ("ExtendedAttribute", 2)] {
        let st = starts(n);
        let g = GenCfg { bound: g.bound + d, ..g };
        par_derive(sh, "edits of combined parts", &st[..1], g, |c, d| {
            let mut text = String::new();
            token_edits(&d.toks, &few, &mut |t| {
                if c.stopped() { return; }
                let v = c.j.judge("Definitions", t);
                c.st.transitions += 1;
                layout_into(t, Layout::Min, &mut text);
                let r = c.run(doc(), &text, true);
                c.compare(doc(), &text, t, &v, r, sel);
            });
        });
        sh.note(format!("edits of combined parts: {} with <= {} departures, every single-token edit with {} tokens", n, g.bound, few.len()));
    }
    let g = GenCfg { narrow: 1, max_list: 3, ..cfg(k, Naming::Distinct, false) };
    par_derive(sh, "edits of combined parts", &list_starts("Argument")[..1], g, |c, d| {
        let mut text = String::new();
        token_edits(&d.toks, &few, &mut |t| {
            if c.stopped() { return; }
            let v = c.j.judge("Definitions", t);
            c.st.transitions += 1;
            layout_into(t, Layout::Min, &mut text);
            let r = c.run(doc(), &text, true);
            c.compare(doc(), &text, t, &v, r, sel);
        });
    });
    sh.note("edits of combined parts: argument lists".into());
}
pub const EDIT_CHARS: &[char] = &[
    'a', 'Z', 'x', 'e', '_', '-', '0', '7', '9', '.', '"', '/', '*', '\n', '\r', '\t', ' ', '(', ')', '[', ']', '{', '}',
    '<', '>', ',', ';', ':', '=', '?', '@', '+', '\'', '\\', '#', '\u{e9}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{b}', '\u{c}', '\0',
    '\u{663}', '\u{ff41}', '\u{1f600}',
];
/// every single-character edit: deletion, case flip, adjacent swap, insertion and replacement
pub fn char_edits(s: &str, alpha: &[char], f: &mut dyn FnMut(&str)) {
    let cs: Vec<char> = s.chars().collect();
    let mut b = String::with_capacity(s.len() + 8);
    let put = |b: &mut String, v: &[char]| v.iter().for_each(|c| b.push(*c));
    for i in 0..cs.len() {
        b.clear();
        put(&mut b, &cs[..i]);
        put(&mut b, &cs[i + 1..]);
        f(&b);
        if i + 1 < cs.len() {
            b.clear();
            put(&mut b, &cs[..i]);
            b.push(cs[i + 1]);
            b.push(cs[i]);
            put(&mut b, &cs[i + 2..]);
            f(&b);
        }
        let c = cs[i];
        let flip = if c.is_ascii_lowercase() { Some(c.to_ascii_uppercase()) } else if c.is_ascii_uppercase() { Some(c.to_ascii_lowercase()) } else { None };
        for r in alpha.iter().copied().chain(flip) {
            b.clear();
            put(&mut b, &cs[..i]);
            b.push(r);
            put(&mut b, &cs[i + 1..]);
            f(&b);
        }
    }
    for i in 0..=cs.len() {
        for r in alpha {
            b.clear();
            put(&mut b, &cs[..i]);
            b.push(*r);
            put(&mut b, &cs[i..]);
            f(&b);
        }
    }
}
pub fn char_edits_of(sh: &Shared, family: &'static str, b: &[Deriv], sel: Sel) {
    par(sh, family, b, |c, d| {
        let s = layout(&d.toks, Layout::Min);
        char_edits(&s, EDIT_CHARS, &mut |t| {
            if c.stopped() {
                return;
            }
            c.st.transitions += 1;
            c.check_judged(doc(), t, sel);
        });
    });
    sh.note(format!("{}: all single-character edits of {} documents, {} characters", family, b.len(), EDIT_CHARS.len()));
}

pub fn c12(sh: &Shared) {
    for h in [BLANK_RUNS, NAME_RUNS, STRING_RUNS, NUMBER_RUNS] {
        in_runs(sh, h, |c, s| { c.check_judged(doc(), s, REJ); });
    }
    source_strings(sh, |c, s| { c.check_judged(doc(), s, REJ); });
    magic_names(sh, |c, s, _| { c.check_judged(doc(), s, REJ); });
    // a fault at the start, in the middle and at the end of long lists
    for (item, sep) in LISTS {
        let ctx = item_contexts(item);
        let el = elements(item, 1, Naming::Distinct);
        let lens = [3usize, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300];
        let jobs: Vec<(usize, usize)> = lens.iter().flat_map(|n| (0..ctx.len().min(sh.q(2, 8))).map(move |c| (*n, c))).collect();
        let bad = tokens_of(&["@", ";", ",", "x", "\"s\"", "}", "or", "=", "5", "interface"]);
        par(sh, "faults in long lists", &jobs, |c, (n, ci)| {
            let els: Vec<&Deriv> = (0..*n).map(|i| &el[i % el.len().min(4)]).collect();
            let d = fill_list(&ctx[*ci], sep, &els);
            let m = d.toks.len();
            let mut text = String::new();
            let span = 6.min(m / 2);
            let at: std::collections::BTreeSet<usize> = (0..span + 4).chain(m / 2 - span.min(m / 2)..m / 2 + span).chain(m - span - 4..m).filter(|i| *i < m).collect();
            for i in at {
                for k in 0..=bad.len() {
                    if c.stopped() { return; }
                    let mut t = d.toks.clone();
                    if k == bad.len() { t.remove(i); } else { t.insert(i, bad[k]); }
                    layouts_of(c, doc(), &t, &mut text, REJ);
                }
            }
        });
        sh.note(format!("faults in long lists: {} in {} contexts, {} lengths", item, ctx.len().min(sh.q(2, 8)), lens.len()));
    }
    let b = bases(1, sh.thorough());
    distortions(sh, &b, REJ);
    inserted_characters(sh, REJ);
    char_edits_of(sh, "character edits", &b, REJ);
    edits_of(sh, "token edits", bases(1, sh.thorough()), REJ);
    slices_of(sh, "phrase edits", &b, sh.q(5, 8), REJ);
    let all = all_tokens();
    trie(sh, "document token strings", doc(), &all, &[], &[], sh.q(4, 5), REJ);
    // member level, inside each container
    for (f, pre) in [
        ("token strings in an interface", &["interface", "x", "{"][..]),
        ("token strings in a mixin", &["interface", "mixin", "x", "{"][..]),
        ("token strings in a namespace", &["namespace", "x", "{"][..]),
        ("token strings in a dictionary", &["dictionary", "x", "{"][..]),
        ("token strings in an enum", &["enum", "x", "{"][..]),
    ] {
        trie(sh, f, doc(), &all, &tokens_of(pre), &tokens_of(&["}", ";"]), sh.q(4, 5), REJ);
    }
    // two departures on the default document of each kind
    let tiny: Vec<Deriv> = collect(&starts("Definition"), GenCfg { max_list: 1, ..cfg(sh.q(1, 2), Naming::Distinct, false) });
    let n = sh.q(17, 200);
    let tiny: Vec<Deriv> = dedup(tiny).into_iter().take(n).collect();
    let alpha = tokens_of(&["x", ";", "{", "}", "(", ")", "[", "]", ",", ":", "=", "\"s\"", "interface", "partial", "mixin", "includes", "@"]);
    par(sh, "pairs of token edits", &tiny, |c, d| {
        let mut text = String::new();
        token_edits(&d.toks, &alpha, &mut |t1| {
            let t1 = t1.to_vec();
            token_edits(&t1, &alpha, &mut |t| {
                if c.stopped() {
                    return;
                }
                layouts_of(c, doc(), t, &mut text, REJ);
            });
        });
    });
    sh.note(format!("pairs of token edits: {} documents", tiny.len()));
    // a fault and, somewhere, a gap of another kind
    let sb = small_bases();
    let few = tokens_of(&["x", ";", "{", "}", ",", "=", "\"s\"", "?", ")", "]"]);
    par(sh, "edits with one other gap", &sb, |c, d| {
        let mut text = String::new();
        token_edits(&d.toks, &few, &mut |t| {
            if c.stopped() { return; }
            let v = c.j.judge("Definitions", t);
            if !matches!(v, Verdict::Reject) { return; }
            for g in 0..=t.len() {
                for sep in ["/* c */", "//\n", "\n\n", " /*;*/ // } ;\n"] {
                    text.clear();
                    for (i, x) in t.iter().enumerate() {
                        if i == g { text.push_str(sep) } else if i > 0 && !glue_ok(&t[i - 1], x) { text.push(' ') }
                        text.push_str(x.src);
                    }
                    if g == t.len() { text.push_str(sep) }
                    c.st.transitions += 1;
                    let r = c.run(doc(), &text, true);
                    c.compare(doc(), &text, t, &v, r, REJ);
                }
            }
        });
    });
    sh.note(format!("edits with one other gap: {} documents x token edits x every gap x 4 separators", sb.len()));
    value_lapses(sh, &["Definition", "InterfaceMember", "MixinMember", "NamespaceMember", "DictionaryMember", "Argument", "ExtendedAttribute", "Type"], REJ);
    for n in ["Definition", "InterfaceMember", "MixinMember", "NamespaceMember", "DictionaryMember"] {
        lapses(sh, "a token missing", &starts(n)[..1], cfg(4, Naming::Distinct, false), false, REJ);
    }
    lapses(sh, "a token missing", &starts("InterfaceMember"), cfg(2, Naming::Distinct, false), false, REJ);
    for (n, k) in [("Type", 4), ("Argument", 3), ("ExtendedAttribute", 3)] {
        lapses(sh, "a token missing", &starts(n)[..1], cfg(k + sh.q(0, 1), Naming::Distinct, false), false, REJ);
    }
    // one fault in documents with several optional parts
    rich_edits(sh, sh.q(3, 4), REJ);
    // a malformed definition among well-formed ones
    let defs = collect(&starts("Definition"), cfg(0, Naming::Distinct, false));
    let kinds = default_definitions();
    let _ = defs;
    par(sh, "malformed among well-formed", &kinds, |c, (t, _)| {
        let mut text = String::new();
        for good in &default_definitions() {
            token_edits(t, &alpha, &mut |bad| {
                if c.stopped() {
                    return;
                }
                let mut v = good.0.clone();
                v.extend_from_slice(bad);
                let mut w = bad.to_vec();
                w.extend_from_slice(&good.0);
                let mut u = v.clone();
                u.extend_from_slice(&good.0);
                for x in [v, w, u] {
                    layouts_of(c, doc(), &x, &mut text, REJ);
                }
            });
        }
    });
}

/// the default derivation of each of the 14 definition kinds: (tokens, tree without list marks)
pub fn default_definitions() -> Vec<(Vec<Tok<'static>>, String)> {
    let g = &model().s;
    let G::Alt(v) = &g.g[g.id("Definition")] else { unreachable!() };
    v.iter()
        .map(|id| {
            let mut d = Deriv { toks: vec![], ev: String::new() };
            let mut ch = Chooser::new(vec![], Naming::Distinct, false, 3);
            g.gen(*id, &mut ch, &mut d);
            (d.toks, d.ev)
        })
        .collect()
}

pub fn c13(sh: &Shared) {
    for (n, k) in [("Definition", sh.q(3, 4)), ("InterfaceMember", sh.q(2, 3)), ("MixinMember", 2), ("NamespaceMember", 2), ("DictionaryMember", sh.q(2, 3)), ("Argument", 2), ("ExtendedAttribute", sh.q(3, 4)), ("Type", 2)] {
        coincidences(sh, "names that coincide", &starts(n), k, |c, s, d| spell_case(c, s, &d.toks));
    }
    literal_texts(sh, |c, s| {
        let mut toks = vec![];
        lex(s, &mut toks);
        spell_case(c, s, &toks);
    });
    echoes(sh, |c, s, d| spell_case(c, s, &d.toks));
    short_values(sh, VALUE_HOSTS, |c, s| {
        let mut toks = vec![];
        lex(s, &mut toks);
        spell_case(c, s, &toks);
    });
    special_elements(sh, "unusual elements", &LISTS.iter().map(|l| l.0).collect::<Vec<_>>(), |c, s, d| spell_case(c, s, &d.toks));
    for h in [BLANK_RUNS, NAME_RUNS, STRING_RUNS, NUMBER_RUNS] {
        in_runs(sh, h, |c, s| {
            let mut toks = vec![];
            lex(s, &mut toks);
            spell_case(c, s, &toks);
        });
    }
    structures(sh, Naming::Indexed, |c, d| spell_case(c, &layout(&d.toks, Layout::Min), &d.toks));
    crate::props2::short_names(sh);
    magic_names(sh, |c, s, t| spell_case(c, s, t));
    let every: Vec<&str> = LISTS.iter().map(|l| l.0).collect();
    list_lengths(sh, "list lengths", &every, &some_counts(sh), |c, s, d| spell_case(c, s, &d.toks));
    for (f, naming) in [("derivations/same names", Naming::Same), ("derivations/indexed names", Naming::Indexed)] {
        for (st, b) in [(starts("Definition"), sh.q(4, 5)), (starts("InterfaceMember"), sh.q(3, 4)), (starts("MixinMember"), sh.q(3, 4)),
            (starts("NamespaceMember"), sh.q(3, 4)), (starts("DictionaryMember"), sh.q(3, 4)), (list_starts("Argument"), sh.q(3, 4)),
            (list_starts("ExtendedAttribute"), sh.q(2, 3)), (starts("Type"), sh.q(2, 3)), (whole(), sh.q(3, 4))]
        {
            par_derive(sh, f, &st, cfg(b, naming, false), |cx, d| {
                for l in MM {
                    let s = layout(&d.toks, *l);
                    spell_case(cx, &s, &d.toks);
                }
            });
        }
        sh.note(f.to_string());
    }
    par_derive(sh, "derivations/vocab", &starts("Definition"), cfg(2, Naming::Distinct, true), |cx, d| {
        let s = layout(&d.toks, Layout::Min);
        spell_case(cx, &s, &d.toks);
    });
    edits_of(sh, "token edits", bases(1, sh.thorough()), SPELL);
    slices_of(sh, "phrase edits", &bases(1, false), sh.q(5, 8), SPELL);
    char_edits_of(sh, "character edits", &if sh.thorough() { bases(1, false) } else { small_bases() }, SPELL);
    let all = all_tokens();
    trie(sh, "document token strings", doc(), &all, &[], &[], sh.q(4, 5), SPELL);
    // duplicates: every list with 2 and 3 identical elements, each element one departure from default
    for (item, sep) in LISTS {
        let el = elements(item, 1, Naming::Same);
        let ctx = item_contexts(item);
        let jobs: Vec<(usize, usize)> = (0..ctx.len()).flat_map(|a| (0..el.len()).map(move |b| (a, b))).collect();
        par(sh, "repeated elements", &jobs, |c, (a, b)| {
            for n in 2..=3 {
                let x: Vec<&Deriv> = (0..n).map(|_| &el[*b]).collect();
                let d = fill_list(&ctx[*a], sep, &x);
                c.st.transitions += 1;
                let s = layout(&d.toks, Layout::Min);
                spell_case(c, &s, &d.toks);
            }
        });
    }
    sh.note("repeated elements in every list".into());
    corpus_spell(sh);
}
fn corpus_spell(sh: &Shared) {
    let mut files: Vec<_> = std::fs::read_dir("/repo/tests/defs").map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    let texts: Vec<String> = files.iter().filter_map(|f| std::fs::read_to_string(f).ok()).collect();
    par(sh, "sample files", &texts, |cx, t| {
        let mut toks = vec![];
        lex(t, &mut toks);
        spell_case(cx, t, &toks);
    });
}
/// accepted => the tree spells the tokens; a well-formed derivation that is rejected outright is not this property's business
fn spell_case(cx: &mut Ctx, s: &str, toks: &[Tok]) {
    match cx.run(doc(), s, true) {
        Err(_) => {}
        Ok(o) => {
            if o.kind == Kind::Ok {
                cx.outcome(&o.out.ev);
                if let Some(m) = spells(&o.out.ys, toks) {
                    cx.violate("parse", s, "the tree does not spell its input", &m, &o.out.ev);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ lists of siblings

/// (element, separator) of every list in the grammar
pub const LISTS: &[(&str, &str)] = &[
    ("Definition", ""), ("InterfaceMember", ""), ("MixinMember", ""), ("NamespaceMember", ""), ("DictionaryMember", ""),
    ("Argument", ","), ("ExtendedAttribute", ","), ("UnionMemberType", "or"), ("StringLit", ","), ("Identifier", ","),
];
/// all elements of that kind, up to `bound` departures
pub fn elements(item: &str, bound: usize, naming: Naming) -> Vec<Deriv> {
    let c = GenCfg { max_list: 2, ..cfg(bound, naming, item == "StringLit" || item == "Identifier") };
    let mut v = collect(&[Start { path: vec![model().s.id(item)] }], c);
    let mut seen = std::collections::HashSet::new();
    v.retain(|d| seen.insert(d.ev.clone()));
    v
}
/// positions where such a list element occurs (the chain ends at the element)
pub fn item_contexts(item: &str) -> Vec<Start> {
    let g = &model().s;
    let mut v = vec![];
    let target: Vec<Id> = match item {
        "Identifier" => {
            // identifier lists: a Sep whose item is a name
            g.reachable(root()).into_iter().filter_map(|i| match &g.g[i] {
                G::Sep { item, .. } if matches!(g.g[*item], G::Name(_)) => Some(*item),
                _ => None,
            }).collect()
        }
        _ => vec![g.id(item)],
    };
    for t in target {
        for s in starts_id(t) {
            let parent = s.path[s.path.len() - 2];
            if matches!(g.g[parent], G::Sep { .. } | G::Many(_)) {
                v.push(s);
            }
        }
    }
    assert!(!v.is_empty(), "no list of {}", item);
    v
}
pub fn fill_list(ctx: &Start, sep: &str, els: &[&Deriv]) -> Deriv {
    let g = &model().s;
    let mut d = Deriv { toks: vec![], ev: String::new() };
    let mut ch = Chooser::new(vec![], Naming::Distinct, false, 3);
    g.gen_path(&ctx.path, &mut ch, &mut d, &mut |_, _, d| {
        for (i, e) in els.iter().enumerate() {
            if i > 0 && !sep.is_empty() {
                d.toks.push(mk_term(kind_of(sep)));
            }
            d.toks.extend_from_slice(&e.toks);
            d.ev.push_str(&e.ev);
        }
    });
    d
}

pub fn c15(sh: &Shared) {
    special_elements(sh, "unusual elements", &LISTS.iter().map(|l| l.0).collect::<Vec<_>>(), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    magic_names(sh, |c, s, _| { c.check_judged(doc(), s, ALL); });
    let every: Vec<&str> = LISTS.iter().map(|l| l.0).collect();
    list_lengths(sh, "list lengths", &every, &some_counts(sh), |c, s, d| { c.expect_tree(doc(), s, &d.ev); });
    // concatenation of documents
    let defs = elements("Definition", 2, Naming::Distinct);
    let n = defs.len();
    let seps = ["", " ", "\n// c\n", "/* x */"];
    let expect = |v: &[&Deriv]| { let mut s = String::from("[["); v.iter().for_each(|d| s.push_str(&d.ev)); s.push_str("]]"); s };
    let lim = n.min(3000);
    par_n(sh, "pairs of definitions", lim, |c, i| {
        let a = &defs[i];
        let sa = layout(&a.toks, Layout::Min);
        for b in &defs[..lim] {
            if c.stopped() { return; }
            let sb = layout(&b.toks, Layout::Min);
            let sep = &seps[..];
            for s in sep {
                c.st.transitions += 1;
                let t = format!("{}{}{}", sa, s, sb);
                c.expect_tree(doc(), &t, &expect(&[a, b]));
            }
        }
    });
    sh.note(format!("pairs of definitions: {} definitions", lim));
    let kinds = default_definitions();
    par_n(sh, "triples of definitions", kinds.len().pow(3), |c, i| {
        let k = kinds.len();
        let (x, y, z) = (&kinds[i % k], &kinds[i / k % k], &kinds[i / k / k]);
        let t = format!("{} {}{}", layout(&x.0, Layout::Min), layout(&y.0, Layout::Min), layout(&z.0, Layout::Mixed));
        c.st.transitions += 1;
        c.expect_tree(doc(), &t, &format!("[[{}{}{}]]", x.1, y.1, z.1));
    });
    // siblings at every other list level
    for (item, sep) in LISTS.iter().skip(1) {
        let ctx = item_contexts(item);
        for (bound, nctx) in [(1, sh.q(12, usize::MAX)), (3, sh.q(1, 3))] {
            let mut el = elements(item, bound, Naming::Distinct);
            if el.len() > 120 && (bound > 1 || !sh.thorough()) {
                // one element per shape: drops the pure type and name vocabulary
                let mut seen = std::collections::HashSet::new();
                el.retain(|d| seen.insert(shape(&d.toks)));
            }
            let lim = sh.q(1500, 6000);
            el.truncate(lim);
            let ctx: Vec<&Start> = ctx.iter().take(nctx).collect();
            let jobs: Vec<(usize, usize)> = (0..ctx.len()).flat_map(|a| (0..el.len()).map(move |b| (a, b))).collect();
            par(sh, "pairs of siblings", &jobs, |c, (a, b)| {
                for e2 in &el {
                    if c.stopped() { return; }
                    let d = fill_list(ctx[*a], sep, &[&el[*b], e2]);
                    c.st.transitions += 1;
                    let s = layout(&d.toks, Layout::Min);
                    c.expect_tree(doc(), &s, &d.ev);
                }
            });
            sh.note(format!("pairs of siblings: {} x {}^2 {} (<= {} departures)", ctx.len(), el.len(), item, bound));
        }
        let mut el = elements(item, 1, Naming::Distinct);
        let mut seen = std::collections::HashSet::new();
        el.retain(|d| seen.insert(shape(&d.toks)));
        let n = el.len();
        let el = &el;
        let ctx: Vec<&Start> = ctx.iter().take(sh.q(3, 12)).collect();
        par_n(sh, "triples of siblings", n * n, |c, i| {
            for x in &ctx {
                for k in 0..n {
                    if c.stopped() { return; }
                    let d = fill_list(x, sep, &[&el[i / n], &el[i % n], &el[k]]);
                    c.st.transitions += 1;
                    let s = layout(&d.toks, Layout::Min);
                    c.expect_tree(doc(), &s, &d.ev);
                }
            }
        });
        sh.note(format!("triples of siblings: {} x {}^3 {}", ctx.len(), n, item));
    }
    // where errors point
    let alpha = tokens_of(&["@", "x", ";", "}", "interface", "\"s\""]);
    let goods = default_definitions();
    let mut kinds: Vec<Vec<Tok<'static>>> = kinds.into_iter().map(|k| k.0).collect();
    kinds.extend(dedup(collect(&starts("Definition"), cfg(sh.q(2, 3), Naming::Distinct, false))).into_iter().map(|d| d.toks));
    for m in ["InterfaceMember", "DictionaryMember", "NamespaceMember", "MixinMember"] {
        kinds.extend(dedup(collect(&starts(m)[..1], cfg(sh.q(1, 2), Naming::Distinct, false))).into_iter().map(|d| d.toks));
    }
    par_n(sh, "error positions", kinds.len(), |c, i| {
        let mut bads: Vec<Vec<Tok<'static>>> = vec![];
        token_edits(&kinds[i], &alpha, &mut |t| bads.push(t.to_vec()));
        for bad in &bads {
            for gi in (i % 5..goods.len()).step_by(if i < 14 { 1 } else { 5 }) {
                for mode in 0..4 {
                    if c.stopped() { return; }
                    // before: 0..2 good definitions; after: 0..1
                    let before = mode % 2 + (mode / 2) * 2 - if mode == 3 { 1 } else { 0 };
                    let after = mode / 2;
                    let mut toks: Vec<Tok<'static>> = bad.clone();
                    for _ in 0..after { toks.extend_from_slice(&goods[(gi + 3) % goods.len()].0); }
                    // the first definition must be underivable even leniently
                    if !no_definition_prefix(c, &toks) { continue; }
                    for (lead, lay) in [("", Layout::Space), ("\n // k\n", Layout::Min), ("/* ; */ ", Layout::Mixed)] {
                        let mut t = String::new();
                        for b in 0..before { t.push_str(&layout(&goods[(gi + b) % goods.len()].0, lay)); if lay == Layout::Mixed { t.push('\n') } t.push_str(if b == 0 { "\n // k\n" } else { lead }); }
                        if before == 0 { t.push_str(lead) }
                        let mut bad = layout(&toks, lay);
                        // the mixed layout starts with a line break
                        if lay == Layout::Mixed { t.push_str(&bad[..MIX[0].len()]); bad.drain(..MIX[0].len()); }
                        let pos = t.len();
                        t.push_str(&bad);
                        let end = t.len();
                        c.st.transitions += 1;
                        match c.run(doc(), &t, true) {
                            Err(p) => c.violate("parse", &t, "panicked", "Err", &p),
                            Ok(o) => {
                                if o.kind != Kind::Err {
                                    c.violate("parse", &t, "malformed definition accepted", "Err", &show(&o));
                                } else if !is_suffix(o.rest, &t) || o.rest.len() != end - pos {
                                    c.violate("parse", &t, "error does not point at the first malformed definition", &t[pos..], o.rest);
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    // cut anywhere, also inside a token: no proper prefix of a definition is a definition
    let cut = bases(1, false);
    par(sh, "error positions/cut", &cut, |c, d| {
        let s = layout(&d.toks, Layout::Min);
        for before in ["", "a includes b;", "interface a{};\n//\ntypedef any b;/**/ "] {
            for (i, _) in s.char_indices().skip(1) {
                if c.stopped() { return; }
                c.st.transitions += 1;
                let t = format!("{}{}", before, &s[..i]);
                match c.run(doc(), &t, true) {
                    Err(p) => c.violate("parse", &t, "panicked", "Err", &p),
                    Ok(o) if o.kind != Kind::Err => c.violate("parse", &t, "malformed definition accepted", "Err", &show(&o)),
                    Ok(o) => if !is_suffix(o.rest, &t) || o.rest.len() != i { c.violate("parse", &t, "error does not point at the first malformed definition", &s[..i], o.rest) },
                }
            }
        }
    });
    // behind every kind of gap, and behind characters of more than one byte
    let mut leads: Vec<String> = vec![];
    let w = ["\u{e9}", "\u{2603}", "\u{1f600}", "\u{301}", "\u{a0}", "\u{2028}", "\u{feff}", "\0", "a"];
    for x in w {
        for n in (1..34).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 70000]) {
            if n > 300 && x.len() < 2 { continue }
            let r = x.repeat(n);
            leads.push(format!("/*{}*/", r));
            leads.push(format!("//{}\n", r));
            leads.push(format!("enum e{{\"{}\"}};", r));
            leads.push(format!("[a=\"{}\"]b includes c;\n", r));
            leads.push(format!("/*{}*/a includes b;//{}\r\n \t", x, r));
        }
    }
    for g in [" ", "\n", "\r\n", "\t", "\r", "/**/", "//\n", "/***/", "/*//*/", "//*/\n", "\n\n\n", " /* */ // \n\t"] {
        for h in ["", " ", "\n", "/**/", "//x\n"] {
            leads.push(format!("{}{}", g, h));
            leads.push(format!("a includes b;{}{}", g, h));
            leads.push(format!("{}a includes b;{}", g, h));
            leads.push(format!("interface a{{{}}};{}typedef any b;{}", g, h, g));
        }
    }
    par(sh, "error positions/gaps", &leads, |c, l| {
        for bad in ["interface{};", "a includes;", "@", "enum e{s};", "interface a{attribute long;};", "[x]", "\u{e9}", "\u{1f600} a includes b;", "enum a{\"\u{e9}\" \"\u{e9}\"};", "interface a{/*\u{2603}*/};typedef;", "\"", "enum a{\"", "interface a{}", "/"] {
            // only the last of these begins with a definition
            let skip = bad.find("typedef;").unwrap_or(0);
            for after in ["", " a includes b;", "/*\u{e9}*/"] {
                if c.stopped() || (!after.is_empty() && matches!(bad, "[x]" | "/" | "\"" | "enum a{\"" | "interface a{}")) { continue; }
                c.st.transitions += 1;
                let t = format!("{}{}{}", l, bad, after);
                let pos = l.len() + skip;
                match c.run(doc(), &t, true) {
                    Err(p) => c.violate("parse", &t, "panicked", "Err", &p),
                    Ok(o) if o.kind != Kind::Err => c.violate("parse", &t, "malformed definition accepted", "Err", &show(&o)),
                    Ok(o) => if !is_suffix(o.rest, &t) || o.rest.len() != t.len() - pos { c.violate("parse", &t, "error does not point at the first malformed definition", &t[pos..], o.rest) },
                }
            }
        }
    });
    sh.note(format!("error positions/gaps: 14 faults behind {} gaps and texts with wide characters", leads.len()));
    // behind and in front of many good definitions
    let ns: Vec<usize> = (0..140).chain([200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10000, 65535, 65536, 65537]).chain(crate::dict::sizes(70000)).collect();
    par(sh, "error positions/many", &ns, |c, n| {
        for (g, sep) in [("a includes b;", ""), ("interface a{attribute long b;};", "\n"), ("[x]enum e{\"s\"};", "//\n"), ("dictionary d{long l=1;};", " ")] {
            for bad in ["interface{};", "a includes;", "@", "enum e{s};", "interface a{attribute long;};", "[x]"] {
                for after in [0, *n] {
                    if c.stopped() || (*n > 2000 && bad.len() < 9) { continue; }
                    c.st.transitions += 1;
                    let mut t = format!("{}{}", g, sep).repeat(*n);
                    let pos = t.len();
                    t.push_str(bad);
                    // an attribute list alone would belong to what follows
                    if bad != "[x]" { t.push_str(&format!("{}{}", g, sep).repeat(after)); }
                    match c.run(doc(), &t, true) {
                        Err(p) => c.violate("parse", &t, "panicked", "Err", &p),
                        Ok(o) if o.kind != Kind::Err => c.violate("parse", &t, "malformed definition accepted", "Err", &show(&o)),
                        Ok(o) => if !is_suffix(o.rest, &t) || o.rest.len() != t.len() - pos { c.violate("parse", &t, "error does not point at the first malformed definition", &t[pos..], o.rest) },
                    }
                }
            }
        }
    });
    sh.note(format!("error positions: {} definitions cut at every character; faults behind and in front of 0 to 65537 definitions", cut.len()));
    sh.note(format!("error positions: every single-token edit of {} definitions", kinds.len()));
}
/// the token kinds, all words alike
fn shape(t: &[Tok]) -> u64 {
    t.iter().map(|t| if name_like(t.k) { 1u64 } else { t.k as u64 + 7 }).fold(t.len() as u64, |a, b| a.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(b)) ^ t.first().map_or(0, |t| t.k as u64) ^ (t.last().map_or(0, |t| t.k as u64) << 8)
}
fn no_definition_prefix(c: &mut Ctx, t: &[Tok]) -> bool {
    if t.is_empty() { return false; }
    let m = model();
    // some non-empty prefix derivable from Definition?
    for n in 1..=t.len() {
        if c.j.rl.accepts(&m.l, m.l.id("Definition"), &t[..n]) { return false; }
    }
    true
}
