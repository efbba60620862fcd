//! P08 - P11: expansion, code generation, hooks, and robustness of the whole pipeline.
use crate::common::*;
use crate::docs::*;
use crate::front;
use crate::plug::{self, Body};
use crate::refmodel::{self as rm, Br, Head, Item};
use brack_plugin::{feature_flag::FeatureFlag, plugin::Plugin, plugins::Plugins};
use brack_transformer::ast::AST;
use serde_json::{json, Value as Json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty { T, O, A, B, C, K, N, P, R, S }
impl Ty {
    fn json(self) -> Json { match self {
        Ty::T => plug::t(), Ty::O => plug::opt(), Ty::A => plug::arr(),
        Ty::B => json!("TBlock"), Ty::C => json!({"TInlineCmd": "c"}), Ty::K => json!({"TBlockCmd": "c"}), Ty::N => json!("TAST"),
        Ty::P => json!({"TOption": "TBlock"}), Ty::R => json!({"TArray": "TBlock"}), Ty::S => json!({"TArray": {"TOption": "TInline"}}),
    } }
    /// Whether it is one argument, an optional one or all that remain: that is all that counts.
    fn base(self) -> Ty { match self { Ty::O | Ty::P => Ty::O, Ty::A | Ty::R | Ty::S => Ty::A, _ => Ty::T } }
}
pub type Sig = Vec<Ty>;
/// (plugin, command, bracket) -> signature
pub type Vocabulary = BTreeMap<(String, String, &'static str), Sig>;

fn ret(b: Br) -> &'static str { match b { Br::Square => "TInline", Br::Curly => "TBlock", Br::Angle => "TAST" } }

/// The input of a command: None if the property does not say what it should be.
fn input(sig: &[Ty], args: &[String]) -> Result<Option<String>, String> {
    let sig: Vec<Ty> = sig.iter().map(|t| t.base()).collect();
    let min = sig.iter().filter(|t| **t == Ty::T).count();
    let unlimited = sig.contains(&Ty::A);
    if args.len() < min { return Err("too few arguments".into()) }
    if !unlimited && args.len() > sig.len() { return Err("too many arguments".into()) }
    let mut out = vec![];
    for (i, t) in sig.iter().enumerate() {
        let a = args.get(i);
        out.push(match t {
            Ty::T => match a { Some(a) => json!({"Text": a}), None => return Ok(None) },
            Ty::O => json!({"TextOption": a}),
            Ty::A => {
                if i + 1 != sig.len() { return Ok(None) }
                json!({"TextArray": args.iter().skip(i).collect::<Vec<_>>()})
            }
            _ => unreachable!(),
        });
    }
    Ok(Some(format!("[{}]", out.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","))))
}

/// Commands that always yield this: nothing, and what must not be read as anything but text.
const FIXED: &[(&str, &str)] = &[("nil", ""), ("odd", "[m.v \\\"'é\r\n\n</"), ("sp", " \n ")];

/// P09's reference: what a line, argument or command yields. Counts calls per plugin.
fn value(items: &[Item], v: &Vocabulary, calls: &mut BTreeMap<String, u64>) -> Result<Option<String>, String> {
    let mut out = String::new();
    let mut unknown = false;
    for i in items {
        match i {
            Item::Text(t) => out.push_str(t),
            Item::Cmd(c) => {
                let mut args = vec![];
                for a in &c.args { match value(a, v, calls)? { Some(a) => args.push(a), None => unknown = true } }
                let (Head::Name(m), Head::Name(n)) = (&c.module, &c.ident) else { return Ok(None) };
                if c.b == Br::Angle { return Ok(None) }
                if traps(n, ret(c.b)) && v.contains_key(&(m.clone(), n.clone(), ret(c.b))) { return Err(format!("{m}.trap fails")) }
                if let Some((_, fixed)) = FIXED.iter().find(|f| f.0 == n) {
                    if c.args.is_empty() && v.contains_key(&(m.clone(), n.clone(), ret(c.b))) { out.push_str(fixed); *calls.entry(m.clone()).or_default() += 1; continue }
                }
                let sig = v.get(&(m.clone(), n.clone(), ret(c.b))).ok_or_else(|| format!("no {m}.{n} of type {}", ret(c.b)))?;
                match input(sig, &args)? {
                    Some(j) => out.push_str(&format!("{}({})", plug::answer_name(m, n, ret(c.b)), plug::mapped(&j))),
                    None => unknown = true,
                }
                *calls.entry(m.clone()).or_default() += 1;
            }
        }
    }
    Ok(if unknown { None } else { Some(out) })
}

pub fn ast_of(doc: &str) -> Result<Option<AST>, String> {
    let tokens = front::tokenize(doc)?;
    let Some(cst) = front::parse(&tokens)? else { return Ok(None) };
    Ok(Some(front::transform(&cst)?.0))
}
fn generate(ast: &AST, p: &mut Plugins) -> Result<Result<String, String>, String> {
    catch(|| brack_codegen::generate::generate(ast, p)).map(|r| r.map_err(|e| format!("{e}").chars().take(200).collect()))
}
fn well_formed(doc: &str) -> Option<rm::Meaning> {
    let t = rm::tokenize(doc);
    if t.unspecified_from != usize::MAX { return None }
    let tree = rm::parse(&t.toks)?;
    if !rm::judge(&tree).defects.is_empty() { return None }
    Some(rm::meaning(&tree))
}
fn uses_macros(items: &[Item]) -> bool {
    items.iter().any(|i| match i {
        Item::Text(_) => false,
        Item::Cmd(c) => c.b == Br::Angle || matches!(c.module, Head::Macro(_)) || matches!(c.ident, Head::Macro(_)) || c.args.iter().any(|a| uses_macros(a)),
    })
}

// ---------------------------------------------------------------- P09

fn p09_doc(doc: &str, v: &Vocabulary, p: &mut Plugins) -> Result<&'static str, String> {
    let Some(meaning) = well_formed(doc) else { return Ok("not well formed") };
    if meaning.iter().flatten().any(|l| uses_macros(l)) { return Ok("with macros") }
    let Some(ast) = ast_of(doc)? else { return Err("rejected by the parser".into()) };
    let mut calls = BTreeMap::new();
    let mut want: Result<Option<String>, String> = Ok(Some(String::new()));
    for line in meaning.iter().flatten() {
        match (value(line, v, &mut calls), &mut want) {
            (Ok(Some(s)), Ok(Some(w))) => w.push_str(&s),
            (Err(e), _) => { want = Err(e); break }
            _ => want = Ok(None),
        }
    }
    let before: BTreeMap<String, u64> = v.keys().filter(|k| k.1 == "count").map(|k| k.0.clone()).collect::<Vec<_>>().iter().map(|m| (m.clone(), plug::count(p, m))).collect();
    let got = generate(&ast, p)?;
    match (want, got) {
        (Ok(None), _) => return Ok("arguments the signature does not place"),
        (Err(_), Err(_)) => return Ok("errors"),
        (Err(e), Ok(out)) => return Err(format!("{e}, but the output is {out:?}")),
        (Ok(Some(w)), Err(e)) => return Err(format!("should yield {w:?}, but fails: {e}")),
        (Ok(Some(w)), Ok(g)) => if w != g { return Err(format!("should yield {w:?}, but yields {g:?}")) },
    }
    for (m, n) in &before {
        let (got, want) = (plug::count(p, m) - n, calls.get(m).copied().unwrap_or(0));
        if got != want { return Err(format!("commands of {m} should be called {want} times, but were called {got} times")) }
    }
    Ok("outputs")
}

fn signatures(max: usize, types: &[Ty]) -> Vec<Sig> {
    let mut out: Vec<Sig> = vec![vec![]];
    let mut layer = out.clone();
    for _ in 0..max {
        layer = layer.iter().flat_map(|s| types.iter().map(move |t| { let mut s = s.clone(); s.push(*t); s })).collect();
        out.extend(layer.iter().cloned());
    }
    out
}
/// The line with this text where a character 1 stands.
fn put(items: &[Item], text: &str) -> Vec<Item> {
    items.iter().map(|i| match i {
        Item::Text(t) => Item::Text(t.replace('\u{1}', text)),
        Item::Cmd(c) => { let mut c = c.clone(); c.args = c.args.iter().map(|a| put(a, text)).collect(); Item::Cmd(c) }
    }).collect()
}
fn sig_name(s: &Sig) -> String { format!("s{}", s.iter().map(|t| format!("{t:?}")).collect::<String>()) }

/// Commands that fail: in both forms, or in one only.
fn traps(name: &str, result: &str) -> bool { name == "trap" || name == "half" && result == "TInline" || name == "rest" && result == "TBlock" }
fn echo_plugin(dir: &Path, name: &str, cmds: &[(&str, &'static str, Sig)], v: &mut Vocabulary) -> PathBuf {
    let mut list: Vec<plug::Command> = cmds.iter().map(|(n, r, s)| plug::cmd(n, r, s.iter().map(|t| t.json()).collect(), Body::Echo)).collect();
    for (n, r, s) in cmds { v.insert((name.to_string(), n.to_string(), r), s.clone()); }
    for (n, text) in FIXED { for r in ["TInline", "TBlock"] {
        list.push(plug::cmd(n, r, vec![], Body::Const(text.to_string())));
        v.insert((name.to_string(), n.to_string(), r), vec![]);
    } }
    for r in ["TInline", "TBlock"] {
        for n in ["trap", "half", "rest"] {
            list.push(plug::cmd(n, r, vec![plug::arr()], if traps(n, r) { Body::Trap } else { Body::Echo }));
            v.insert((name.to_string(), n.into(), r), vec![Ty::A]);
        }
    }
    list.push(plug::cmd("count", "TInline", vec![], Body::Count));
    v.insert((name.to_string(), "count".into(), "TInline"), vec![]);
    plug::write(dir, name, &list)
}

fn run_space(ctx: &Ctx, space: &Space, well: bool, init: &(impl Fn() -> Plugins + Sync), check: &(impl Fn(&str, &mut Plugins) -> Result<&'static str, String> + Sync)) {
    let labels = Mutex::new(BTreeMap::<&str, u64>::new());
    explore(ctx, space, || (init(), BTreeMap::<&'static str, u64>::new()),
        |doc| !well || !rm::hopeless(doc, 0),
        |(p, seen), doc, depth| match check(doc, p) {
            Ok(label) => *seen.entry(label).or_default() += 1,
            Err(e) => ctx.violation(depth, doc, format!("{}: document {doc:?}: {e}", ctx.prop), json!({"document": doc})),
        },
        |(_, seen)| for (k, v) in seen { *labels.lock().unwrap().entry(k).or_default() += v });
    for (k, v) in labels.into_inner().unwrap() { ctx.count(&format!("{k} ({})", space.name), v) }
    if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("{} {:.1} s, {} docs", space.name, ctx.start.elapsed().as_secs_f64(), ctx.traces.load(std::sync::atomic::Ordering::Relaxed)) }
}

/// The documents each task stands for, whatever they are.
fn run_docs<T: Sync>(ctx: &Ctx, name: &str, tasks: &[T], docs: impl Fn(&T, &mut dyn FnMut(&str)) + Sync, init: &(impl Fn() -> Plugins + Sync), check: &(impl Fn(&str, &mut Plugins) -> Result<&'static str, String> + Sync)) {
    let labels = Mutex::new(BTreeMap::<&str, u64>::new());
    par(ctx, tasks, || (init(), BTreeMap::<&'static str, u64>::new()), |(p, seen), t| docs(t, &mut |doc| {
        if ctx.stopped() { return }
        ctx.enter(doc);
        ctx.trace();
        match check(doc, p) {
            Ok(label) => *seen.entry(label).or_default() += 1,
            Err(e) => ctx.violation(100 + doc.len(), doc, format!("{}: document {doc:?}: {e}", ctx.prop), json!({"document": doc})),
        }
    }), |(_, seen)| for (k, v) in seen { *labels.lock().unwrap().entry(k).or_default() += v });
    for (k, v) in labels.into_inner().unwrap() { ctx.count(&format!("{k} ({name})"), v) }
    if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("{name} {:.1} s, {} docs", ctx.start.elapsed().as_secs_f64(), ctx.traces.load(std::sync::atomic::Ordering::Relaxed)) }
}

/// Every shape of command, every document one edit away from one, and every character in `forms`
/// (where @ stands for it). `rename` makes the commands those of the plugins.
fn run_families(ctx: &Ctx, rename: &(impl Fn(&str) -> String + Sync), forms: &[&str], init: &(impl Fn() -> Plugins + Sync), check: &(impl Fn(&str, &mut Plugins) -> Result<&'static str, String> + Sync)) {
    let (small, all) = shapes();
    let tasks: Vec<(String, bool)> = small.iter().map(|d| (rename(d), true)).chain(all.iter().map(|d| (rename(d), ctx.thorough))).collect();
    run_docs(ctx, "shapes and edits", &tasks, |(doc, edit), f| { f(doc); if *edit { edits(doc, |d| f(&d)) } }, init, check);
    let tasks = frames(FRAMES);
    let mut inner = periodic(&FRAMED[..if ctx.thorough { FRAMED.len() } else { 6 }], 2);
    inner.push(String::new());
    if !ctx.thorough { inner.extend(FRAMED[6..].iter().map(|s| s.to_string())) }
    run_docs(ctx, "deep, wide and long surroundings", &tasks, |(a, b), f| for i in &inner { f(&rename(&format!("{a}{i}{b}"))) }, init, check);
    let tasks = wide_frames(WIDE);
    run_docs(ctx, "wider and longer surroundings", &tasks, |(a, b), f| for i in ["", "x", "[m.c x]", "{n.d x, y}", "<m.e>"] { f(&rename(&format!("{a}{i}{b}"))) }, init, check);
    let chars = characters(ctx.thorough);
    let tasks: Vec<&[char]> = chars.chunks(256).collect();
    run_docs(ctx, "each character", &tasks, |cs, f| for c in *cs { for form in forms { f(&form.replace('@', &c.to_string())) } }, init, check);
}

fn no_hooks() -> FeatureFlag { FeatureFlag::default() }

pub fn p09(ctx: &Ctx) -> i32 {
    let t = |q, th| if ctx.thorough { th } else { q };
    let dir = tmp_dir("p09");
    // every signature, every number of arguments, both brackets
    let mut v = Vocabulary::new();
    let mut sigs = signatures(4, &[Ty::T, Ty::O, Ty::A]);
    let common = sigs.len();
    sigs.extend(signatures(if ctx.thorough { 3 } else { 2 }, &[Ty::T, Ty::O, Ty::A, Ty::B, Ty::C, Ty::K, Ty::N, Ty::P, Ty::R, Ty::S]).into_iter().filter(|s| s.iter().any(|t| t.base() != *t)));
    let names: Vec<String> = sigs.iter().map(sig_name).collect();
    let cmds: Vec<(&str, &'static str, Sig)> = sigs.iter().zip(&names).flat_map(|(s, n)| [(&n[..], "TInline", s.clone()), (&n[..], "TBlock", s.clone())]).collect();
    let m = echo_plugin(&dir, "m", &cmds, &mut v);
    let tasks: Vec<String> = names.iter().flat_map(|n| (0..=5usize).flat_map(move |k| {
        let args: Vec<String> = (0..k).map(|i| format!("{}", (b'p' + i as u8) as char)).collect();
        let sp = if k == 0 { "" } else { " " };
        ["[", "{"].map(|b| format!("{b}m.{n}{sp}{}{}", args.join(", "), if b == "[" { "]" } else { "}" }))
    })).collect();
    // very many arguments
    let numbers: Vec<usize> = (6..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500]).collect();
    let tasks: Vec<String> = tasks.into_iter().chain(names[..common].iter().flat_map(|n| numbers.iter().flat_map(move |k| ["[", "{"].map(|b| format!("{b}m.{n} {}{}", (0..*k).map(|i| format!("a{i}")).collect::<Vec<_>>().join(", "), if b == "[" { "]" } else { "}" }))))).collect();
    // every signature of up to three parameters with arguments that come out empty, blank or odd
    let mut tasks = tasks;
    let mut lists: Vec<Vec<&str>> = vec![vec![]];
    let mut layer = lists.clone();
    for _ in 0..3 {
        layer = layer.iter().flat_map(|l| ["p", "[m.nil]", "{m.nil}", "[m.odd]", "[m.sp]", "[m.nil] \n[m.nil]", "\\,"].map(|a| { let mut l = l.clone(); l.push(a); l })).collect();
        lists.extend(layer.iter().cloned());
    }
    for n in sigs.iter().zip(&names).take(common).filter(|(s, _)| s.len() <= 3).map(|x| x.1) {
        for l in lists.iter().filter(|l| !l.is_empty()) {
            for (b, e) in [("[", "]"), ("{", "}")] { tasks.push(format!("{b}m.{n} {}{e}", l.join(", "))) }
        }
    }
    let labels = Mutex::new(BTreeMap::<&str, u64>::new());
    par(ctx, &tasks, || plug::loaded(&[("m", m.clone(), no_hooks())]), |p, doc| {
        ctx.enter(doc);
        match p09_doc(doc, &v, p) {
            Ok(l) => *labels.lock().unwrap().entry(l).or_default() += 1,
            Err(e) => ctx.violation(doc.len(), doc, format!("P09: document {doc:?}: {e}"), json!({"document": doc})),
        }
        ctx.state(doc);
        ctx.trace();
    }, |_| ());
    for (k, n) in labels.into_inner().unwrap() { ctx.count(&format!("{k} (signatures)"), n) }
    // composition
    let dir2 = tmp_dir("p09");
    let mut v = Vocabulary::new();
    let m = echo_plugin(&dir2, "m", &[("v", "TInline", vec![Ty::A]), ("v", "TBlock", vec![Ty::A]), ("w", "TBlock", vec![Ty::T, Ty::A]), ("o", "TInline", vec![Ty::T, Ty::O]), ("o", "TBlock", vec![Ty::O, Ty::O]), ("c", "TInline", vec![Ty::A]), ("c", "TBlock", vec![Ty::A])], &mut v);
    let n = echo_plugin(&dir2, "n", &[("v", "TInline", vec![Ty::A]), ("o", "TInline", vec![Ty::O])], &mut v);
    let init = || plug::loaded(&[("m", m.clone(), no_hooks()), ("n", n.clone(), no_hooks())]);
    let check = |doc: &str, p: &mut Plugins| p09_doc(doc, &v, p);
    for space in [
        Space { name: "compositions", symbols: &["[m.v ", "{m.w ", "[n.v ", "]", "}", "x", ", ", "\n", " ", "é\""], max: t(6, 7) },
        Space { name: "failing commands", symbols: &["[m.trap]", "{m.trap ", "[m.v ", "{m.w ", "]", "}", "x", ", ", "\n"], max: t(5, 6) },
        Space { name: "commands that fail in one form", symbols: &["[m.half ", "{m.half ", "[m.rest ", "{m.rest ", "]", "}", "x", ","], max: t(5, 6) },
        Space { name: "fixed outputs", symbols: &["[m.v ", "{m.o ", "[n.nil]", "[m.nil]", "{m.odd}", "]", "}", "x", ", ", "\n", " "], max: t(5, 6) },
        Space { name: "names", symbols: &["[", "{", "m", "n", "z", ".v", ".o", ".w", " x", ",y", "]", "}"], max: t(6, 8) },
        Space { name: "long compositions", symbols: &["[m.v ", "{m.v ", "]", "}", "x", ",", "\n\n"], max: t(8, 10) },
    ] { run_space(ctx, &space, true, &init, &check) }
    // results of many bytes, as output, as arguments and as arguments of arguments
    let sizes: Vec<usize> = [10usize, 12, 15, 16, 17, 20].iter().chain(if ctx.thorough { &[22usize][..] } else { &[] }).flat_map(|p| [(1 << p) - 1, 1 << p, (1 << p) + 1]).collect();
    let tasks: Vec<(usize, &str)> = sizes.iter().flat_map(|n| ["@", "[m.v @]", "{m.w x, @}@", "[m.v [m.v @], {m.w @}]"].map(|f| (*n, f))).collect();
    let mut list = vec![plug::cmd("count", "TInline", vec![], Body::Count), plug::cmd("v", "TInline", vec![plug::arr()], Body::Echo), plug::cmd("w", "TBlock", vec![plug::t(), plug::arr()], Body::Echo)];
    for n in &sizes { list.push(plug::cmd(&format!("b{n}"), "TInline", vec![], Body::Big(*n))) }
    let big = plug::write(&tmp_dir("p09"), "m", &list);
    let mut bv = Vocabulary::new();
    for (n, r, s) in [("v", "TInline", vec![Ty::A]), ("w", "TBlock", vec![Ty::T, Ty::A])] { bv.insert(("m".into(), n.into(), r), s); }
    par(ctx, &tasks, || plug::loaded(&[("m", big.clone(), no_hooks())]), |p, (n, form)| {
        let doc = form.replace('@', &format!("[m.b{n}]"));
        ctx.enter(&doc);
        let r = (|| {
            let text = plug::big(*n);
            let stand_in = rm::meaning(&rm::parse(&rm::tokenize(&form.replace('@', "\u{1}")).toks).ok_or("no tree")?);
            let mut want = String::new();
            for line in stand_in.iter().flatten() { want.push_str(&value(&put(line, &text), &bv, &mut BTreeMap::new())?.ok_or("unspecified")?) }
            let ast = ast_of(&doc)?.ok_or("rejected by the parser")?;
            match generate(&ast, p)? {
                Ok(g) if g == want => Ok(()),
                Ok(g) => Err(format!("yields {} bytes instead of {}, different from byte {:?} on", g.len(), want.len(), g.bytes().zip(want.bytes()).position(|(a, b)| a != b))),
                Err(e) => Err(format!("fails: {e}")),
            }
        })();
        if let Err(e) = r { ctx.violation(300 + n, &doc, format!("P09: document {doc:?}, where m.b{n} answers with {n} bytes: {e}"), json!({"document": doc})) }
        ctx.state(&doc);
        ctx.trace();
    }, |_| ());
    ctx.count("documents with large results", tasks.len() as u64);
    if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("large results {:.1} s", ctx.start.elapsed().as_secs_f64()) }
    run_families(ctx, &|d| d.replace("{n.d", "{m.c"), &["@", "x@y", "[m.v @]", "{m.w x@, @}", "\\@"], &init, &check);
    for doc in ["[m.v a, [n.v b]]{m.w c}", "[m.o]", "text"] {
        ctx.sample(json!({"document": doc, "result": format!("{:?}", p09_doc(doc, &v, &mut init())), "output": ast_of(doc).ok().flatten().map(|a| format!("{:?}", generate(&a, &mut init())))}));
    }
    ctx.finish("model_checking", !ctx.stopped(), &[
        "the reference evaluation in harness/src/back.rs states the composition correctly",
        "plugins are generated WebAssembly modules that answer with exactly what they were given; arguments behind an array, and required arguments behind absent optional ones, are not specified",
    ])
}

// ---------------------------------------------------------------- P08

pub struct Macros { pub known: Vec<(String, String)> }

/// Expected expansion: Err if a macro is unknown, None if the result is not specified.
fn expand_model(root: &Json, node: &Json, known: &dyn Fn(&str, &str, &str, u64) -> Option<Json>, calls: &mut BTreeMap<String, u64>) -> Result<Option<Json>, String> {
    let (kind, body) = node.as_object().unwrap().iter().next().unwrap();
    if kind == "Angle" {
        let mut module = None;
        let mut ident = None;
        for c in body["children"].as_array().unwrap() {
            match c.as_object().unwrap().iter().next().unwrap() {
                (k, l) if k == "Module" => module = l["value"].as_str(),
                (k, l) if k == "Ident" => ident = l["value"].as_str(),
                _ => (),
            }
        }
        let (Some(m), Some(i)) = (module, ident) else { return Ok(None) };
        let n = calls.entry(m.to_string()).or_default();
        let given = format!("[{},{}]", root["json"].as_str().unwrap(), body["id"]);
        let r = known(m, i, &given, *n + 1).ok_or_else(|| format!("no macro {m}.{i}"))?;
        *n += 1;
        return Ok(Some(r));
    }
    let Some(children) = body.get("children").and_then(|c| c.as_array()) else { return Ok(Some(node.clone())) };
    let mut out = vec![];
    let mut unspecified = false;
    for c in children { match expand_model(root, c, known, calls)? { Some(c) => out.push(c), None => unspecified = true } }
    if unspecified { return Ok(None) }
    let mut body = body.clone();
    body["children"] = Json::Array(out);
    let mut m = serde_json::Map::new();
    m.insert(kind.clone(), body);
    Ok(Some(Json::Object(m)))
}

fn p08_doc(doc: &str, p: &mut Plugins, consts: &BTreeMap<(String, String), Json>) -> Result<&'static str, String> {
    let Some(ast) = ast_of(doc)? else { return Ok("rejected by the parser") };
    let whole = serde_json::to_value(&ast).unwrap();
    let root = json!({"json": serde_json::to_string(&ast).unwrap()});
    let base: BTreeMap<String, u64> = ["m", "n"].iter().map(|m| (m.to_string(), plug::count(p, m))).collect();
    let mut calls = base.clone();
    let known = |m: &str, i: &str, given: &str, n: u64| -> Option<Json> {
        if let Some(c) = consts.get(&(m.to_string(), i.to_string())) { return Some(c.clone()) }
        if !(["m", "n"].contains(&m) && i == "e") { return None } // also m.trap and m.junk, which are no trees
        let location: Json = serde_json::from_str(plug::MACRO_LOCATION).unwrap();
        Some(json!({"Text": {"id": "result", "location": location, "value": format!("{}#{:09}({})", plug::answer_name(m, i, "TAST"), n, plug::mapped(given))}}))
    };
    let want = expand_model(&root, &whole, &known, &mut calls);
    let got = catch(|| brack_expander::expand::expander(&ast, p))?;
    let same_input = serde_json::to_value(&ast).unwrap() == whole;
    match (want, got) {
        (Ok(None), _) => return Ok("macro without a name"),
        (Err(_), Err(_)) => return Ok("unknown macro"),
        (Err(e), Ok(g)) => return Err(format!("{e}, but expansion succeeds: {g:?}")),
        (Ok(Some(_)), Err(e)) => return Err(format!("expansion fails: {e}")),
        (Ok(Some(w)), Ok(g)) => {
            let g = serde_json::to_value(&g).unwrap();
            if w != g { return Err(format!("should expand to {w}, but expands to {g}")) }
        }
    }
    if !same_input { return Err("expansion changes the document it was given".into()) }
    let mut any = false;
    for (m, n) in &calls {
        let (got, want) = (plug::count(p, m) - base[m], n - base[m]);
        any |= want > 0;
        if got != want { return Err(format!("macros of {m} should be called {want} times, but were called {got} times")) }
    }
    Ok(if any { "expanded" } else { "without macros" })
}

fn const_node(text: &str) -> Json {
    let l: Json = serde_json::from_str(plug::MACRO_LOCATION).unwrap();
    let leaf = |k: &str, v: &str| json!({k: {"id": format!("c{v}"), "value": v, "location": l}});
    let inner = |k: &str, c: Vec<Json>| json!({k: {"id": format!("c{k}"), "children": c, "location": l}});
    match text {
        "text" => leaf("Text", "T"),
        "expr" => inner("Expr", vec![leaf("Text", "T"), inner("Angle", vec![leaf("Module", "m"), leaf("Ident", "e")])]),
        "angle" => inner("Angle", vec![leaf("Module", "z"), leaf("Ident", "e")]),
        "module" => leaf("Module", "m"),
        "ident" => leaf("Ident", "c"),
        _ => inner("Square", vec![leaf("Module", "m"), leaf("Ident", "c")]),
    }
}

fn macro_plugins(dir: &Path) -> (PathBuf, PathBuf, BTreeMap<(String, String), Json>) {
    let mut consts = BTreeMap::new();
    let mut cmds = vec![plug::cmd("e", "TAST", vec![plug::t()], Body::Macro), plug::cmd("c", "TInline", vec![plug::arr()], Body::Echo), plug::cmd("count", "TInline", vec![], Body::Count)];
    for k in ["text", "expr", "angle", "module", "ident", "square"] {
        let n = const_node(k);
        cmds.push(plug::cmd(k, "TAST", vec![], Body::Const(n.to_string())));
        consts.insert(("m".to_string(), k.to_string()), n);
    }
    cmds.push(plug::cmd("trap", "TAST", vec![], Body::Trap));
    for (n, x) in [("junk", "{\"a\":"), ("nothing", ""), ("string", "\"x\""), ("kind", "{\"Texts\":{}}")] { cmds.push(plug::cmd(n, "TAST", vec![], Body::Const(x.into()))) }
    let m = plug::write(dir, "m", &cmds);
    let n = plug::write(dir, "n", &[plug::cmd("e", "TAST", vec![], Body::Macro), plug::cmd("count", "TInline", vec![], Body::Count), plug::cmd("c", "TBlock", vec![plug::arr()], Body::Echo)]);
    (m, n, consts)
}

pub fn p08(ctx: &Ctx) -> i32 {
    let t = |q, th| if ctx.thorough { th } else { q };
    let dir = tmp_dir("p08");
    let (m, n, consts) = macro_plugins(&dir);
    let init = || plug::loaded(&[("m", m.clone(), no_hooks()), ("n", n.clone(), no_hooks())]);
    let check = |doc: &str, p: &mut Plugins| p08_doc(doc, p, &consts);
    for (space, well) in [
        (Space { name: "macros among commands", symbols: &["<m.e ", "<n.e ", ">", "x", "[m.c ", "{n.c ", "]", "}", ",", "\n", "\n\n"], max: t(6, 7) }, true),
        (Space { name: "macros with other results", symbols: &["<m.e>", "<m.text>", "<m.expr x>", "<m.square>", "<m.angle>", "[m.c ", "]", ",", "x", "\n", "<m.e ", ">"], max: t(5, 6) }, true),
        (Space { name: "failing macros", symbols: &["<m.e>", "<m.trap>", "<m.junk>", "<m.nothing x>", "<m.string>", "<m.kind>", "[m.c ", "]", "x", "\n\n"], max: t(4, 5) }, true),
        (Space { name: "unknown macros", symbols: &["<m.e>", "<z.e>", "<m.c>", "<m.z ", ">", "[z.z ", "]", "x", "\n\n"], max: t(5, 7) }, true),
        (Space { name: "macros as modules and identifiers", symbols: &["[", "]", "<m.module>", "<m.e>", "<n.e ", ">", ".", "m", "c", " x", "<m.ident>", ","], max: t(5, 7) }, true),
        (Space { name: "with mistakes", symbols: &["<m.e", "<", ">", " x", "[m.c ", "]", ",", "\n", "\\", "<n.e "], max: t(5, 6) }, false),
    ] { run_space(ctx, &space, well, &init, &check) }
    run_families(ctx, &|d| d.replace("<m.c", "<m.e"), &["@<m.e x@y>", "[m.c <n.e @>@]"], &init, &check);
    for doc in ["<m.e x>[m.c <n.e>, <m.text>]", "<m.e <n.e>>", "a<z.e>"] {
        ctx.sample(json!({"document": doc, "result": format!("{:?}", p08_doc(doc, &mut init(), &consts))}));
    }
    ctx.finish("model_checking", !ctx.stopped(), &[
        "the syntax tree handed to the expander is the one P07 checks; the reference expansion works on its JSON form",
        "macros whose module or identifier is itself a macro are not specified",
    ])
}

// ---------------------------------------------------------------- P10

const HOOKS: [(&str, &str); 4] = [("text", "TInline"), ("expr", "TInline"), ("stmt", "TBlock"), ("document", "TBlock")];
fn flags(bits: usize) -> FeatureFlag {
    FeatureFlag { text_hook: bits & 1 != 0, expr_hook: bits & 2 != 0, stmt_hook: bits & 4 != 0, document_hook: bits & 8 != 0 }
}

/// What the tree yields when hook h belongs to plugin owner[h].
fn hooked(a: &AST, owner: &[Option<&str>; 4], fixed: Option<&str>, calls: &mut u64) -> String {
    let hook = |h: usize, s: String, calls: &mut u64| match owner[h] {
        None => s,
        Some(_) if fixed.is_some() => { *calls += 1; fixed.unwrap().to_string() }
        Some(m) => { *calls += 1; format!("{}({})", plug::answer_name(m, HOOKS[h].0, HOOKS[h].1), plug::mapped(&json!([{"Text": s}]).to_string())) }
    };
    let all = |c: &[AST], calls: &mut u64| c.iter().map(|c| hooked(c, owner, fixed, calls)).collect::<String>();
    match a {
        AST::Text(l) => { let s = l.value.clone().unwrap_or_default(); hook(0, s, calls) }
        AST::Expr(n) => { let s = all(&n.children, calls); hook(1, s, calls) }
        AST::Stmt(n) => { let s = all(&n.children, calls); hook(2, s, calls) }
        AST::Document(n) => { let s = all(&n.children, calls); hook(3, s, calls) }
        AST::Square(n) | AST::Curly(n) => {
            let r = if matches!(a, AST::Square(_)) { "TInline" } else { "TBlock" };
            let args: Vec<String> = n.children[2..].iter().map(|c| hooked(c, owner, fixed, calls)).collect();
            *calls += 1;
            let m = n.children[0].value().unwrap();
            let i = n.children[1].value().unwrap();
            format!("{}({})", plug::answer_name(&m, &i, r), plug::mapped(&json!([{"TextArray": args}]).to_string()))
        }
        _ => String::new(),
    }
}

pub fn p10(ctx: &Ctx) -> i32 {
    let t = |q, th| if ctx.thorough { th } else { q };
    let dir = tmp_dir("p10");
    // which plugins load: every hook not offered, offered, or offered with the wrong type, and every set of enabled hooks
    // and every set of them offered in both types, in either order
    let kinds: Vec<usize> = (0..81 + 32).collect();
    let loads = Mutex::new((0u64, 0u64));
    par(ctx, &kinds, || (), |_, kind| {
        let offer: Vec<usize> = if *kind < 81 { (0..4).map(|h| kind / 3usize.pow(h) % 3).collect() } else { (0..4).map(|h| if (kind - 81) >> h & 1 == 1 { 3 + (kind - 81) / 16 } else { 1 }).collect() };
        let mut cmds = vec![plug::cmd("other", "TInline", vec![plug::t()], Body::Echo)];
        for (h, o) in offer.iter().enumerate() {
            let (name, right) = HOOKS[h];
            let wrong = if right == "TInline" { "TBlock" } else { "TInline" };
            match o { 1 => cmds.push(plug::cmd(name, right, vec![plug::t()], Body::Echo)), 2 => cmds.push(plug::cmd(name, wrong, vec![plug::t()], Body::Echo)),
                3 => for t in [right, wrong] { cmds.push(plug::cmd(name, t, vec![plug::t()], Body::Echo)) },
                4 => for t in [wrong, right] { cmds.push(plug::cmd(name, t, vec![plug::t()], Body::Echo)) },
                _ => () }
        }
        let path = plug::write(&dir, &format!("k{kind}"), &cmds);
        for bits in 0..16 {
            if (0..4).any(|h| bits >> h & 1 == 1 && offer[h] > 2) { continue } // not specified
            let want = (0..4).all(|h| bits >> h & 1 == 0 || offer[h] == 1);
            let what = format!("a plugin offering {:?} with hooks {:?} enabled", offer.iter().enumerate().map(|(h, o)| format!("{}:{}", HOOKS[h].0, ["no", "yes", "wrong type", "and in the wrong type as well", "in the wrong type first"][*o])).collect::<Vec<_>>(), flags(bits));
            ctx.enter(&what);
            match catch(|| Plugin::new("k", &path, flags(bits)).is_ok()) {
                Ok(got) if got == want => { let mut l = loads.lock().unwrap(); if got { l.0 += 1 } else { l.1 += 1 } }
                Ok(got) => ctx.violation(1, &what, format!("P10: {what} should {}, but it {}", if want { "load" } else { "be rejected" }, if got { "loads" } else { "is rejected" }), json!({"plugin": what})),
                Err(e) => ctx.violation(1, &what, format!("P10: {what}: {e}"), json!({"plugin": what})),
            }
            ctx.state(&what);
            ctx.trace();
        }
    }, |_| ());
    let l = *loads.lock().unwrap();
    ctx.count("plugins loaded with hooks", l.0);
    ctx.count("plugins rejected for their hooks", l.1);
    let offering = |name: &str| {
        let mut cmds: Vec<plug::Command> = HOOKS.iter().map(|(n, r)| plug::cmd(n, r, vec![plug::t()], Body::Echo)).collect();
        cmds.push(plug::cmd("c", "TInline", vec![plug::arr()], Body::Echo));
        cmds.push(plug::cmd("c", "TBlock", vec![plug::arr()], Body::Echo));
        cmds.push(plug::cmd("d", "TBlock", vec![plug::arr()], Body::Echo));
        cmds.push(plug::cmd("count", "TInline", vec![], Body::Count));
        plug::write(&dir, name, &cmds)
    };
    let (m, n) = (offering("m"), offering("n"));
    // two (and three) plugins that enable hooks
    let pairs: Vec<(usize, usize)> = (0..16).flat_map(|a| (0..16).map(move |b| (a, b))).collect();
    par(ctx, &pairs, || (), |_, (a, b)| {
        let what = format!("two plugins with hooks {:?} and {:?}", flags(*a), flags(*b));
        ctx.enter(&what);
        let want = a & b == 0;
        match catch(|| plug::load(&[("m", m.clone(), flags(*a)), ("n", n.clone(), flags(*b))]).is_ok()) {
            Ok(got) if got == want => (),
            r => ctx.violation(1, &what, format!("P10: {what} should {}: {r:?}", if want { "load" } else { "be rejected" }), json!({"plugins": what})),
        }
        ctx.state(&what);
        ctx.trace();
    }, |_| ());
    ctx.count("pairs of plugins with hooks", 256);
    // outputs: all well-formed documents of a space, under every assignment of hooks to plugins
    let docs = Mutex::new(vec![]);
    for space in [
        Space { name: "documents", symbols: &["[m.c ", "{n.d ", "]", "}", "x", ",", "\n", "\n\n", " ", "\\]"], max: t(5, 6) },
        Space { name: "nested documents", symbols: &["[m.c ", "]", "{n.d ", "}", "x", ","], max: t(7, 8) },
    ] {
        explore(ctx, &space, Vec::new, |d| !rm::hopeless(d, 0), |v: &mut Vec<String>, d, _| if well_formed(d).is_some() { v.push(d.to_string()) }, |v| docs.lock().unwrap().extend(v));
    }
    ctx.traces.store(0, std::sync::atomic::Ordering::SeqCst); // the same documents are counted below, as executions
    let mut docs = docs.into_inner().unwrap();
    let (small, all) = shapes();
    docs.extend(small.into_iter().chain(all).chain(UNUSUAL.iter().flat_map(|c| [c.to_string(), format!("x{c}y"), format!("[m.c {c}, {c}]{c}")])).filter(|d| !d.contains('<') && well_formed(d).is_some()));
    docs.extend(frames(if ctx.thorough { FRAMES } else { &[2, 3, 5, 9] }).iter().flat_map(|(a, b)| ["x", "", "[m.c x]", "{n.d x, y}\\]"].map(|i| format!("{a}{i}{b}"))).filter(|d| !d.contains('<') && !d.contains("[mm") && well_formed(d).is_some()));
    docs.sort_by_key(|d| (d.len(), d.clone()));
    docs.dedup();
    ctx.count("well-formed documents", docs.len() as u64);
    let parts = 4;
    // hooks that answer with what they were given, and hooks of m that always answer the same
    let answering = |fixed: &str| {
        let mut cmds: Vec<plug::Command> = HOOKS.iter().map(|(n, r)| plug::cmd(n, r, vec![plug::t()], Body::Const(fixed.to_string()))).collect();
        for (n, r) in [("c", "TInline"), ("c", "TBlock"), ("d", "TBlock")] { cmds.push(plug::cmd(n, r, vec![plug::arr()], Body::Echo)) }
        cmds.push(plug::cmd("count", "TInline", vec![], Body::Count));
        let dir = tmp_dir("p10");
        plug::write(&dir, "m", &cmds)
    };
    let fixed: Vec<(&str, PathBuf)> = FIXED.iter().map(|(_, f)| (*f, answering(f))).collect();
    // a hook that fails makes the generation fail wherever it is needed
    let failing = {
        let mut cmds: Vec<plug::Command> = HOOKS.iter().map(|(n, r)| plug::cmd(n, r, vec![plug::t()], Body::Trap)).collect();
        for (n, r) in [("c", "TInline"), ("c", "TBlock"), ("d", "TBlock")] { cmds.push(plug::cmd(n, r, vec![plug::arr()], Body::Echo)) }
        let dir = tmp_dir("p10");
        plug::write(&dir, "m", &cmds)
    };
    let short: Vec<&String> = docs.iter().take(2000).collect();
    let sets: Vec<usize> = (1..16).collect();
    par(ctx, &sets, || (), |_, bits| {
        let mut plugins = plug::loaded(&[("m", failing.clone(), flags(*bits))]);
        let owner: [Option<&str>; 4] = [0, 1, 2, 3].map(|h| if bits >> h & 1 == 1 { Some("m") } else { None });
        for doc in &short {
            if ctx.stopped() { break }
            ctx.enter(doc);
            let r = (|| {
                let ast = ast_of(doc)?.ok_or("rejected by the parser")?;
                let (mut all, mut without) = (0, 0);
                let _ = (hooked(&ast, &owner, None, &mut all), hooked(&ast, &[None; 4], None, &mut without));
                let got = generate(&ast, &mut plugins)?;
                if got.is_ok() != (all == without) { return Err(format!("{} hooks are called and fail, but the output is {got:?}", all - without)) }
                Ok(())
            })();
            if let Err(e) = r { ctx.violation(doc.len(), doc, format!("P10: document {doc:?} with failing hooks {:?}: {e}", flags(*bits)), json!({"document": doc})) }
            ctx.trace();
        }
    }, |_| ());
    ctx.count("documents with failing hooks", (short.len() * sets.len()) as u64);
    let mut assignments: Vec<(usize, usize, Option<usize>)> = (0..81).flat_map(|a| (0..parts).map(move |p| (a, p, None))).collect();
    for f in 0..fixed.len() { for a in (0..81usize).filter(|a| *a > 0 && (0..4).all(|h| a / 3usize.pow(h) % 3 < 2)) { for p in 0..parts { assignments.push((a, p, Some(f))) } } }
    par(ctx, &assignments, || (), |_, (a, part, answer)| {
        let m = match answer { Some(f) => &fixed[*f].1, None => &m };
        let answer = answer.map(|f| fixed[f].0);
        let owner: Vec<Option<&str>> = (0..4).map(|h| [None, Some("m"), Some("n")][a / 3usize.pow(h) % 3]).collect();
        let owner: [Option<&str>; 4] = owner.try_into().unwrap();
        let bits = |p: &str| (0..4).filter(|h| owner[*h] == Some(p)).map(|h| 1 << h).sum::<usize>();
        let mut plugins = plug::loaded(&[("m", m.clone(), flags(bits("m"))), ("n", n.clone(), flags(bits("n")))]);
        let mut runs = 0;
        for (i, doc) in docs.iter().enumerate() {
            if i % parts != *part { continue }
            if ctx.stopped() { break }
            ctx.enter(doc);
            runs += 1;
            let r = (|| {
                let ast = ast_of(doc)?.ok_or("rejected by the parser")?;
                let before = plug::count(&mut plugins, "m") + plug::count(&mut plugins, "n");
                let mut calls = 0;
                let want = hooked(&ast, &owner, answer, &mut calls);
                let got = generate(&ast, &mut plugins)??;
                if got != want { return Err(format!("should yield {want:?}, but yields {got:?}")) }
                let after = plug::count(&mut plugins, "m") + plug::count(&mut plugins, "n");
                if after - before != calls { return Err(format!("{calls} calls expected, {} made", after - before)) }
                Ok(())
            })();
            if let Err(e) = r { ctx.violation(doc.len(), doc, format!("P10: document {doc:?} with hooks {:?}{}: {e}", HOOKS.iter().zip(owner).map(|(h, o)| format!("{}:{}", h.0, o.unwrap_or("-"))).collect::<Vec<_>>(), answer.map_or(String::new(), |a| format!(" that answer {a:?}"))), json!({"document": doc, "hooks": owner, "answer": answer})) }
        }
        ctx.traces.fetch_add(runs, std::sync::atomic::Ordering::Relaxed);
    }, |_| ());
    ctx.sample(json!({"document": docs.last(), "hooks": "81 assignments of the 4 hooks to none, m or n, and 15 sets of hooks with each of 3 fixed answers"}));
    ctx.finish("model_checking", !ctx.stopped(), &["the division of a document into paragraphs, lines, arguments and texts is that of the syntax tree, which P07 checks"])
}

// ---------------------------------------------------------------- P11

/// Every stage on one document. Panics are violations, errors are fine.
pub fn p11_doc(doc: &str, p: &mut Plugins) -> Result<&'static str, String> {
    let tokens = match catch(|| brack_tokenizer::tokenize::tokenize_str(doc)).map_err(|e| format!("tokenizer: {e}"))? { Ok(t) => t, Err(_) => return Ok("ends at the tokenizer") };
    let cst = match catch(|| brack_parser::parse::parse(&tokens)).map_err(|e| format!("parser: {e}"))? { Ok(t) => t, Err(_) => return Ok("ends at the parser") };
    let (ast, errors) = catch(|| brack_transformer::transform::transform(&cst)).map_err(|e| format!("transformer: {e}"))?;
    catch(|| errors.iter().map(|e| (e.get_message(), format!("{e:?}"), e.get_location())).count()).map_err(|e| format!("errors: {e}"))?;
    let expanded = catch(|| brack_expander::expand::expander(&ast, p)).map_err(|e| format!("expander: {e}"))?;
    // output is attempted for unexpanded trees as well
    let direct = catch(|| brack_codegen::generate::generate(&ast, p).is_ok()).map_err(|e| format!("generator on the unexpanded document: {e}"))?;
    let expanded = match expanded { Ok(a) => a, Err(_) => return Ok("ends at the expander") };
    let _ = direct;
    match catch(|| brack_codegen::generate::generate(&expanded, p)).map_err(|e| format!("generator: {e}"))? { Ok(_) => Ok("output"), Err(_) => Ok("ends at the generator") }
}

fn p11_plugins(dir: &Path) -> Vec<PathBuf> {
    let node = |k: &str| Body::Const(const_node(k).to_string());
    let mut cmds = vec![
        plug::cmd("c", "TInline", vec![plug::arr()], Body::Echo), plug::cmd("d", "TBlock", vec![plug::arr()], Body::Echo),
        plug::cmd("e", "TAST", vec![], node("text")), plug::cmd("o", "TInline", vec![plug::opt(), plug::t()], Body::Echo),
        plug::cmd("a", "TInline", vec![plug::arr(), plug::t(), plug::opt()], Body::Echo), plug::cmd("b", "TBlock", vec![plug::t(), plug::opt(), plug::t()], Body::Echo),
        plug::cmd("trap", "TInline", vec![plug::arr()], Body::Trap), plug::cmd("junk", "TAST", vec![], Body::Const("{\"a\":".into())),
        plug::cmd("f", "TAST", vec![], node("module")), plug::cmd("g", "TAST", vec![], node("angle")), plug::cmd("h", "TAST", vec![], node("square")),
        plug::cmd("i", "TAST", vec![], node("expr")),
        plug::cmd("count", "TInline", vec![], Body::Count),
    ];
    for (h, r) in HOOKS { cmds.push(plug::cmd(h, r, vec![plug::t()], Body::Echo)) }
    vec![plug::write(dir, "m", &cmds), plug::write(dir, "n", &cmds)]
}

pub fn p11_init() -> (PathBuf, impl Fn(bool) -> Plugins + Sync) {
    let dir = tmp_dir("p11");
    let ps = p11_plugins(&dir);
    (dir, move |hooks: bool| plug::loaded(&[("m", ps[0].clone(), flags(if hooks { 15 } else { 0 })), ("n", ps[1].clone(), flags(0))]))
}

pub fn p11(ctx: &Ctx) -> i32 {
    let t = |q, th| if ctx.thorough { th } else { q };
    let (dir, load) = p11_init();
    let plain = || load(false);
    let hooks = || load(true);
    for space in [
        Space { name: "characters", symbols: CHARS, max: t(5, 6) },
        Space { name: "few characters", symbols: CHARS_SMALL, max: t(6, 7) },
        Space { name: "fragments", symbols: CHUNKS, max: t(5, 6) },
        Space { name: "nested fragments", symbols: NEST, max: t(6, 7) },
        Space { name: "arguments", symbols: &["[m.o ", "[m.a ", "{m.b ", "]", "}", "x", ",", "<m.f>", "\n"], max: t(5, 6) },
        Space { name: "macro results", symbols: &["<m.e>", "<m.f>", "<m.g>", "<m.h>", "<m.i>", "[m.c ", "[<m.f>.c ", "[m.<m.g> ", "]", "x", ","], max: t(4, 5) },
        Space { name: "failing plugins", symbols: &["[m.trap ", "]", "<m.junk>", "x", "[m.c ", ","], max: t(3, 4) },
    ] { run_space(ctx, &space, false, &plain, &p11_doc) }
    run_space(ctx, &Space { name: "fragments, with hooks", symbols: CHUNKS_DEEP, max: t(5, 6) }, false, &hooks, &p11_doc);
    run_families(ctx, &|d| d.to_string(), &["@", "[m.c @]", "[@", "<m.e @", "\\@"], &plain, &p11_doc);
    // names of every length up to a bound, whose characters begin at every offset
    let numbers: Vec<usize> = (1..=t(90, 300)).chain([120, 121, 125, 126, 127, 128, 250, 254, 255, 256, 257, 510, 511, 512, 1000, 1023, 1024, 1025]).collect();
    run_docs(ctx, "long names", &numbers, |n, f| for c in ["あ", "é", "𝒳", "e\u{301}", "\"", "m"] { for lead in ["", "x", "xy", "xyz"] {
        let name = format!("{lead}{}", c.repeat(*n));
        for form in ["[m.@ y]", "{m.@ y}", "<m.@ y>", "[@.c y]", "<@.e y>", "{@.d y}", "[@.@]", "[m.c @]", "[m.trap @]", "[m @ y]", "{@ y}", "<m.@", "[@.c y}", "[.@ y]", "\\@", "[m.c <m.@>]", "[<@.e>.c x]"] { f(&form.replace('@', &name)) }
    } }, &plain, &p11_doc);
    if !ctx.stopped() { long_documents(ctx, &dir) }
    for doc in ["[m.c x", "{m.b a, b}", "<m.f>"] { ctx.sample(json!({"document": doc, "result": format!("{:?}", p11_doc(doc, &mut plain()))})) }
    ctx.finish("model_checking", !ctx.stopped(), &["the long, wide and deep documents are run through the unoptimized brack binary with its default stack; an execution that takes more than 120 s counts as endless"])
}

pub fn brack() -> PathBuf { PathBuf::from(format!("{VERIF}/target/brack/debug/brack")) }

/// Long, wide and deep documents through the real program, every stage.
fn long_documents(ctx: &Ctx, dir: &Path) {
    let n = if ctx.thorough { 30_000 } else { 10_000 };
    let depth = if ctx.thorough { 150 } else { 100 };
    let mut docs: Vec<(String, String)> = vec![];
    for p in ["a", ".", "[", "]", "\\", " ", "<", ">", "{", "}", ",", "\0", "あ", "a\n", "\\\\", "a.", "<m.", "[]", "a\n\n", "\\]",
        "[m.c x]", "{m.d x, y}", "<m.e x>", "[m.c x]\n", "[m.c [m.c x]]", "[m.c", "[m.c x\n", "<m.f>", "[m.c ]]", "{m.d x]"] {
        // a pattern that leaves brackets open nests ever deeper
        let opens = p.matches(['[', '{', '<']).count();
        let closes = p.matches([']', '}', '>']).count();
        let k = if opens > closes { depth } else if p.contains('<') { 400 } else if p.contains(['\n', '\\', ']', '}', '>']) { n / p.len().min(10) } else { 4 * n / p.len() };
        docs.push((format!("{p:?} repeated {k} times"), p.repeat(k)));
    }
    for (o, c) in [("[m.c ", "]"), ("{m.d ", "}"), ("<m.e ", ">"), ("[m.c {m.d ", "}]"), ("[m.c x, <m.e ", ">, y]"), ("[", "]"), ("<", ">"), ("[m.c \n", "\n]"), ("[m.c ", ""), ("{m.d x, [m.c ", ""), ("[<m.e>.c ", "]"), ("[m.c ", "}")] {
        let k = if o.matches(['[', '{', '<']).count() > 1 { depth / 2 } else { depth };
        docs.push((format!("{o:?}{c:?} nested {k} deep"), format!("{}x{}", o.repeat(k), c.repeat(k))));
    }
    docs.push(("a command with many arguments".into(), format!("[m.c {}x]", "x, ".repeat(n / 4))));
    docs.push(("one long argument".into(), format!("[m.c {}]", "x ".repeat(n / 4))));
    docs.push(("one long line".into(), "x\\]".repeat(n / 4)));
    let tasks: Vec<(usize, u8)> = (0..docs.len()).flat_map(|d| [3u8, 5].into_iter().map(move |l| (d, l))).collect();
    for (i, (_, d)) in docs.iter().enumerate() { std::fs::write(dir.join(format!("d{i}.[]")), d).unwrap() }
    par(ctx, &tasks, || (), |_, (i, level)| {
        let (name, doc) = &docs[*i];
        let begin = std::time::Instant::now();
        ctx.leave();
        let mut c = std::process::Command::new(brack());
        c.args(["compile", "-b", "x", "-p"]).arg(dir).arg("-f").arg(dir.join(format!("d{i}.[]"))).args(["--output-level", &level.to_string()]);
        match run_limited(&mut c, std::time::Duration::from_secs(120)) {
            Ended::Code(0 | 1, ..) => (),
            e => ctx.violation(2000 + doc.len(), name, format!("P11: compile --output-level {level} of a document of {} characters ({name}): {}", doc.chars().count(), e.describe()), json!({"document": doc, "level": level})),
        }
        if std::env::var("BRACKMC_TIMES").is_ok() && begin.elapsed().as_secs_f64() > 3.0 { eprintln!("{name} level {level}: {:.1} s", begin.elapsed().as_secs_f64()) }
        ctx.state(&format!("{name} {level}"));
        ctx.trace();
    }, |_| ());
    ctx.count("long, wide and deep documents run through the program", tasks.len() as u64);
}
