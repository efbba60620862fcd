//! Exhaustive enumeration of documents.
use crate::common::*;
use crate::refmodel as rm;
use std::collections::HashSet;

/// Single characters (and combinations that form one user-perceived character).
pub const CHARS: &[&str] = &["a", " ", "\n", ".", ",", "\\", "<", ">", "{", "}", "[", "]", "\r\n", "\u{301}", "あ", "🏳️‍🌈", "\0"];
pub const CHARS_SMALL: &[&str] = &["a", " ", "\n", ".", ",", "\\", "<", ">", "[", "]"];
/// Characters that are nothing special, but that programs like to treat so.
pub const UNUSUAL: &[&str] = &["a", "\t", "\r", "\u{feff}", "\u{a0}", "\u{2028}", "\u{85}", "\u{200d}", "\u{3000}", "\u{c}", "\"", "A", "\n", " ", "[m.c ", "]", "\\"];
/// Fragments, so that whole commands are reached with few symbols.
pub const CHUNKS: &[&str] = &["[m.c", "]", " ", "x", ",", "\n", "{m.d", "}", "<m.e", ">", "\\,", ".", "\\", "[", "é\u{301}"];
pub const CHUNKS_DEEP: &[&str] = &["[m.c ", "]", "x", ", ", "\n", "{n.d ", "}", "<m.e ", ">", " ", "\\]"];
pub const NEST: &[&str] = &["[m.c ", "]", "{n.d ", "}", "<m.e ", ">", ","];
/// Commands whose module or identifier is a macro
pub const HEADS: &[&str] = &["[", "]", "<", ">", "m", ".", "c", " ", ","];

pub struct Space { pub name: &'static str, pub symbols: &'static [&'static str], pub max: usize }

/// Calls `f` on every document of the space for whose prefixes `keep` holds; counts model states
/// and transitions on the way.
pub fn explore<S>(
    ctx: &Ctx, space: &Space, init: impl Fn() -> S + Sync,
    keep: impl Fn(&str) -> bool + Sync,
    f: impl Fn(&mut S, &str, usize) + Sync, done: impl Fn(S) + Sync,
) {
    // tasks: all prefixes of length 2 (shorter documents are done by the first task)
    let n = space.symbols.len();
    let mut tasks: Vec<Option<(usize, usize)>> = vec![None];
    for a in 0..n { for b in 0..n { tasks.push(Some((a, b))) } }
    struct W<S> { s: S, states: HashSet<u64>, trans: HashSet<u64>, docs: u64, cut: u64 }
    fn visit<S>(ctx: &Ctx, sp: &Space, doc: &mut String, depth: usize, from: u64, sym: usize, w: &mut W<S>,
        keep: &(impl Fn(&str) -> bool + Sync), f: &(impl Fn(&mut S, &str, usize) + Sync), only: usize) {
        if ctx.stopped() { return }
        if depth > 0 && !keep(doc) { w.cut += 1; return }
        let st = fnv(rm::state(&rm::tokenize(doc)).as_bytes());
        w.states.insert(st);
        if depth > 0 { w.trans.insert(from.wrapping_mul(31).wrapping_add(sym as u64)); }
        ctx.enter(doc);
        w.docs += 1;
        f(&mut w.s, doc, depth);
        if depth == only { return }
        for (i, s) in sp.symbols.iter().enumerate() {
            let len = doc.len();
            doc.push_str(s);
            visit(ctx, sp, doc, depth + 1, st, i, w, keep, f, only);
            doc.truncate(len);
        }
    }
    par(ctx, &tasks, || W { s: init(), states: HashSet::new(), trans: HashSet::new(), docs: 0, cut: 0 }, |w, task| {
        let mut doc = String::new();
        match task {
            None => visit(ctx, space, &mut doc, 0, 0, 0, w, &keep, &f, 1.min(space.max)),
            Some((a, b)) if space.max >= 2 => {
                doc.push_str(space.symbols[*a]);
                if !keep(&doc) { return }
                let from = fnv(rm::state(&rm::tokenize(&doc)).as_bytes());
                doc.push_str(space.symbols[*b]);
                visit(ctx, space, &mut doc, 2, from, *b, w, &keep, &f, space.max)
            }
            _ => (),
        }
    }, |w| {
        ctx.add_states(&w.states, &w.trans);
        ctx.traces.fetch_add(w.docs, std::sync::atomic::Ordering::Relaxed);
        ctx.count(&format!("documents in {}", space.name), w.docs);
        if w.cut > 0 { ctx.count(&format!("prefixes of {} with no continuation of interest", space.name), w.cut); }
        done(w.s);
    });
    ctx.note(&format!("space {}", space.name), serde_json::json!({"symbols": space.symbols, "max_symbols": space.max}));
}

/// Long, wide and deep documents: every pattern of up to `len` symbols, repeated.
pub fn periodic(symbols: &[&str], len: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut layer = vec![String::new()];
    for _ in 0..len {
        layer = layer.iter().flat_map(|p| symbols.iter().map(move |s| format!("{p}{s}"))).collect();
        out.extend(layer.iter().cloned());
    }
    out
}

/// Well-formed documents: every command of up to two arguments (and some of three) that are texts,
/// escapes, lines, commands or combinations of those, commands with macros in their header, and
/// commands next to text, to each other, and in lines and paragraphs of their own.
pub fn shapes() -> (Vec<String>, Vec<String>) {
    let cmd = |b: rm::Br, args: &[&str]| format!("{}m.c{}{}{}", b.open(), if args.is_empty() { "" } else { " " }, args.join(", "), b.close());
    let simple: Vec<String> = rm::BRS.iter().flat_map(|b| [cmd(*b, &[]), cmd(*b, &["x"]), cmd(*b, &["x", "y"])]).collect();
    let one: Vec<String> = rm::BRS.iter().map(|b| cmd(*b, &["x"])).collect();
    let mut args: Vec<String> = ["x", "x y", "\\,", "x\ny"].map(String::from).to_vec();
    args.extend(simple.iter().cloned());
    for s in &one { args.extend([format!("z{s}"), format!("{s}z"), format!("{s} z"), format!("{s}{s}")]) }
    let mut small = simple.clone();
    let mut all = vec![];
    let few: Vec<&str> = std::iter::once("x").chain(one.iter().map(|s| &s[..])).collect();
    for b in rm::BRS {
        for a in &args { small.push(cmd(b, &[a])) }
        for a in &args { for c in &args { all.push(cmd(b, &[a, c])) } }
        for x in &few { for y in &few { for z in &few { all.push(cmd(b, &[x, y, z])) } } }
        for head in ["<m.e x>.c", "m.<m.e x>", "<m.e>.<m.e>"] { small.push(format!("{}{head} a{}", b.open(), b.close())) }
    }
    for a in &simple {
        all.push(format!("t {a}u.v, w"));
        for b in &simple { for sep in ["", " ", "\n", "\n\n"] { all.push(format!("{a}{sep}{b}")) } }
    }
    (small, all)
}

/// Surroundings of a document: deeply nested, behind many arguments, commands, lines or paragraphs.
/// What is put between prefix and suffix must be treated as it would be in a short document.
pub fn frames(ks: &[usize]) -> Vec<(String, String)> {
    let mut out = vec![];
    let mut f = |a: String, b: String| out.push((a, b));
    for k in ks {
        let k = *k;
        for (open, close) in [
            ("[m.c ", "]"), ("{n.d ", "}"), ("<m.e ", ">"), ("[m.c x, ", "]"), ("[m.c x,{n.d y, ", ", z},z]"), ("{n.d ", ", z}"), ("[m.c <m.e ", ">]"), ("[m.c x\n", "\nx]"), ("[m.c [m.c x]", "]"),
            ("<m.e {n.d [m.c ", "]}>"), ("[m.c x{n.d }", "{n.d }]"),
        ] { f(open.repeat(k), close.repeat(k)) }
        // as the module, and as the identifier
        f("[".to_string() + &"<".repeat(k), "m.c>.c".repeat(k) + " x]");
        f(format!("[m.{}", "<m.".repeat(k)), ">".repeat(k) + " x]");
        for many in ["[m.c x]", "x\n", "x\n\n", "{n.d x}\n", "\\,", "xé", "<m.e x> ", "[m.c [m.c x], x]\r\n\r\n"] {
            f(many.repeat(k), String::new());
            f(String::new(), many.repeat(k));
        }
        f(format!("[m.c {}", "x, ".repeat(k)), "]".into());
        f("[m.c ".into(), format!("{}]", ", x".repeat(k)));
        f(format!("[m.c {}", "[m.c x], ".repeat(k)), format!("{}]\n\nx", ", {n.d x}".repeat(k)));
        f(format!("[{}.{} ", "m".repeat(k), "c".repeat(k)), "]".into());
    }
    out
}
/// The flat ones of these, much larger.
pub fn wide_frames(ks: &[usize]) -> Vec<(String, String)> {
    let mut out = vec![];
    for k in ks {
        let mut f = |a: String, b: String| if a.len() + b.len() < 4000 { out.push((a, b)) };
        for many in ["[m.c x]", "x\n", "x\n\n", "{n.d x}\n", "\\,", "xé", "<m.e x> "] {
            f(many.repeat(*k), String::new());
            f(String::new(), many.repeat(*k));
        }
        f(format!("[m.c {}", "x, ".repeat(*k)), "]".into());
        f("[m.c ".into(), format!("{}]", ", x".repeat(*k)));
        f(format!("[m.c {}", "[m.c x], ".repeat(*k)), "]\n\nx".into());
        f(format!("[{}.{} ", "m".repeat(*k), "c".repeat(*k)), "]".into());
        f(format!("[m.c {}", "x".repeat(*k)), " x]".into());
    }
    out
}
pub const WIDE: &[usize] = &[17, 32, 33, 65, 129, 257, 513, 1025];
pub const FRAMES: &[usize] = &[2, 3, 4, 5, 7, 8, 9, 12];
pub const FRAMES_DEEP: &[usize] = &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17];
pub const FRAMED: &[&str] = &["x", "[m.c x]", "{n.d x, y}", "<m.e>", "[<m.e x>.c z]", "[m.<m.e> z]", "[m.c ", "]", "}", ">", "[", "[m.c", ".", ",", " ", "\\]", "\\", "\n", "\n\n", "é\u{301}", "<m.e x", "{.d x}", "{n. x}"];

/// Mistakes and more, for wide surroundings.
pub const LATE: &[&str] = &["a.b", "a,,b", "\\a", "a]", "[m a]", "[m..c a]", "{m.c a]", "a . b", "[m.c a.b]", "[m.c a, ]"];

pub const EDITS: &[&str] = &[".", ",", " ", "\n", "\\", "[", "]", "{", "}", "<", ">", "x", "\u{301}"];
/// Every document that differs from `doc` in one place: a symbol more, a character less, or a symbol
/// instead of a character.
pub fn edits(doc: &str, mut f: impl FnMut(String)) {
    use unicode_segmentation::UnicodeSegmentation;
    for (at, g) in doc.grapheme_indices(true).chain(std::iter::once((doc.len(), ""))) {
        for s in EDITS {
            f(format!("{}{s}{}", &doc[..at], &doc[at..]));
            if !g.is_empty() && g != *s { f(format!("{}{s}{}", &doc[..at], &doc[at + g.len()..])) }
        }
        if !g.is_empty() { f(format!("{}{}", &doc[..at], &doc[at + g.len()..])) }
    }
}

/// Every character there is (in the quick tier, those of the more common blocks).
pub fn characters(thorough: bool) -> Vec<char> {
    (0..=0x10ffff).filter_map(char::from_u32).filter(|c| thorough || matches!(*c as u32, 0..0x3400 | 0xa000..0xac00 | 0xd7a0..0x12000 | 0x1d000..0x20000 | 0xe0000..0xe0200)).collect()
}
