//! P24: `brack compile` against the stages of the compiler called in process.
use crate::back;
use crate::common::*;
use crate::docs::*;
use crate::front;
use crate::plug::{self, Body, Command as Cmd};
use crate::proj::normal;
use brack_parser::cst::CST;
use brack_plugin::{feature_flag::FeatureFlag, plugins::Plugins};
use brack_tokenizer::tokens::Token;
use brack_transformer::ast::AST;
use serde_json::{json, Value as Json};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

const LIMIT: Duration = Duration::from_secs(40);

fn commands() -> Vec<Cmd> {
    vec![
        plug::cmd("c", "TInline", vec![plug::arr()], Body::Echo), plug::cmd("d", "TBlock", vec![plug::arr()], Body::Echo),
        plug::cmd("e", "TAST", vec![plug::t()], Body::Macro), plug::cmd("f", "TInline", vec![plug::t()], Body::Trap),
        plug::cmd("g", "TInline", vec![], Body::Const("\n".into())), plug::cmd("h", "TBlock", vec![], Body::Const(" \r\n\n".into())), plug::cmd("i", "TInline", vec![], Body::Const("\0\t".into())), plug::cmd("n", "TInline", vec![], Body::Const(String::new())),
    ]
}
/// A plugin that says who it is, whatever its file is called.
fn module(name: &str) -> Vec<u8> { plug::wasm(name, &commands()) }

#[derive(Debug)]
enum Want { Fails, Text(String), /// the value, and what it reads back as
    Value(Json, What, String) }
#[derive(Debug, Clone, Copy)]
enum What { Tokens, Cst, Ast }

fn canonical(v: &Json) -> String { normal(&v.to_string()) }
fn reads_as(what: What, text: &str) -> Result<String, String> {
    let e = |e: serde_json::Error| format!("the JSON cannot be read back: {e}");
    Ok(normal(&match what {
        What::Tokens => format!("{:?}", serde_json::from_str::<Vec<Token>>(text).map_err(e)?),
        What::Cst => format!("{:?}", serde_json::from_str::<CST>(text).map_err(e)?),
        What::Ast => format!("{:?}", serde_json::from_str::<AST>(text).map_err(e)?),
    }))
}

/// What compiling this text prints at this level.
fn wanted(text: Option<&str>, level: usize, as_json: bool, load: &dyn Fn() -> Plugins) -> Result<Want, String> {
    let Some(text) = text else { return Ok(Want::Fails) };
    if level == 0 || level > 5 || level == 5 && as_json { return Ok(Want::Fails) }
    let tokens = front::tokenize(text)?;
    if level == 1 {
        return Ok(if as_json { Want::Value(json!(tokens), What::Tokens, normal(&format!("{tokens:?}"))) } else { Want::Text(tokens.iter().map(|t| format!("{t:?}\n")).collect()) })
    }
    let Some(cst) = front::parse(&tokens)? else { return Ok(Want::Fails) };
    if level == 2 {
        return Ok(if as_json { Want::Value(json!(cst), What::Cst, normal(&format!("{cst:?}"))) } else { Want::Text(format!("{cst:?}\n")) })
    }
    let (ast, errors) = catch(|| brack_transformer::transform::transform(&cst))?;
    if level == 3 {
        return Ok(if as_json { Want::Value(json!(ast), What::Ast, normal(&format!("{ast:?}"))) }
            else if errors.is_empty() { Want::Text(format!("{ast:?}\n")) } else { Want::Text(errors.iter().map(|e| format!("{e:?}\n")).collect()) })
    }
    let mut plugins = load();
    let Ok(ast) = catch(|| brack_expander::expand::expander(&ast, &mut plugins))? else { return Ok(Want::Fails) };
    if level == 4 {
        return Ok(if as_json { Want::Value(json!(ast), What::Ast, normal(&format!("{ast:?}"))) } else { Want::Text(format!("{ast:?}\n")) })
    }
    Ok(match catch(|| brack_codegen::generate::generate(&ast, &mut plugins))? { Ok(s) => Want::Text(s + "\n"), Err(_) => Want::Fails })
}

fn judge(end: &Ended, want: &Want) -> Result<&'static str, String> {
    if !matches!(end, Ended::Code(..)) { return Err(end.describe()) }
    match want {
        Want::Fails if end.ok() => Err(format!("exit status 0, and prints {:?}", end.out())),
        Want::Fails if !end.out().is_empty() => Err(format!("fails, but prints {:?}", end.out())),
        Want::Fails => Ok("failing"),
        _ if !end.ok() => Err(format!("fails: {}", end.describe())),
        Want::Text(t) if normal(t) == normal(end.out()) => Ok("text"),
        Want::Text(t) => Err(format!("prints {:?} and not {:?}", end.out(), t)),
        Want::Value(v, what, debug) => {
            let got: Json = serde_json::from_str(end.out()).map_err(|e| format!("prints no JSON ({e}): {:?}", end.out()))?;
            if canonical(&got) != canonical(v) { return Err(format!("prints {got} and not {v}")) }
            if reads_as(*what, end.out())? != *debug { return Err(format!("the JSON {got} describes another value than {debug}")) }
            Ok("JSON")
        }
    }
}

fn run(dir: &Path, plugins: Option<&OsStr>, env: Option<&OsStr>, file: &OsStr, level: &str, as_json: bool, backend: &str) -> Ended {
    let mut c = Command::new(back::brack());
    c.current_dir(dir).env_remove("BRACK_PLUGINS_PATH").arg("compile");
    if let Some(p) = plugins { c.arg("-p").arg(p); }
    if let Some(p) = env { c.env("BRACK_PLUGINS_PATH", p); }
    let mut name = OsString::from("--filename=");
    name.push(file);
    c.args(["-b", backend]).arg(name).args(["--output-level", level]);
    if as_json { c.arg("--json"); }
    run_limited(&mut c, LIMIT)
}

pub fn p24(ctx: &Ctx) -> i32 {
    let t = |q: usize, th: usize| if ctx.thorough { th } else { q };
    let base = tmp_dir("p24");
    let lib = base.join("lib");
    std::fs::create_dir_all(&lib).unwrap();
    for n in ["m", "k"] { std::fs::write(lib.join(format!("{n}_0.wasm")), module(n)).unwrap() }
    let load = || plug::loaded(&["m", "k"].map(|n| (n, lib.join(format!("{n}_0.wasm")), FeatureFlag::default())));
    let labels: Mutex<BTreeMap<String, u64>> = Mutex::default();
    let next = AtomicUsize::new(0);
    let scratch = || { let d = base.join(format!("w{}", next.fetch_add(1, Ordering::SeqCst))); std::fs::create_dir_all(&d).unwrap(); d };
    let time = |what: &str| if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("{what} {:.1} s", ctx.start.elapsed().as_secs_f64()) };
    let all = |dir: &PathBuf, bytes: &[u8], levels: &[usize], depth: usize| {
        let text = std::str::from_utf8(bytes).ok();
        std::fs::write(dir.join("a.[]"), bytes).unwrap();
        for level in levels { for as_json in [false, true] {
            if *level == 5 && as_json { continue }
            let r = wanted(text, *level, as_json, &load).and_then(|want| { ctx.leave(); judge(&run(dir, Some(lib.as_os_str()), None, OsStr::new("a.[]"), &level.to_string(), as_json, "html"), &want) });
            let shown = String::from_utf8_lossy(bytes);
            match r {
                Ok(l) => *labels.lock().unwrap().entry(format!("level {level}: {l}")).or_default() += 1,
                Err(e) => ctx.violation(depth, &shown, format!("P24: document {shown:?}, level {level}{}: {e}", if as_json { ", JSON" } else { "" }), json!({"document": shown, "level": level, "json": as_json})),
            }
        } }
    };
    const FRAGMENTS: &[&str] = &["[m.c ", "<m.e ", "{k.d ", "[z.c ", "[m.f ", "]", ">", "}", "x", ",", "\n", "\\["];
    const CHARACTERS: &[&str] = &["[", ".", "]", " ", "m", "𝒳", "\n", "\r\n", "\\", "\"", "\0"];
    const OUTPUTS: &[&str] = &["[m.g]", "{m.h}", "[m.i]", "[m.n]", "x", "\n", " "];
    explore(ctx, &Space { name: "outputs", symbols: OUTPUTS, max: t(3, 4) }, scratch, |_| true, |dir, doc, depth| all(dir, doc.as_bytes(), &[5], depth), |_| ());
    time("outputs");
    for (name, symbols, max) in [("fragments", FRAGMENTS, t(3, 4)), ("characters", CHARACTERS, t(3, 4))] {
        explore(ctx, &Space { name, symbols, max }, scratch, |_| true, |dir, doc, depth| all(dir, doc.as_bytes(), &[1, 2, 3, 4, 5], depth), |_| ());
        time(name);
    }
    // larger documents, and bytes that are no text
    let whole = "[m.c a, {k.d [m.c b], <m.e c>}]\n\nthis is \\[ [k.c 𝒳é, y]\nand <k.e [m.c z]> and <m.e x>\n\n\n{m.d }";
    let mut docs: Vec<Vec<u8>> = vec![whole.as_bytes().to_vec(), b"\xff".to_vec(), b"x\xc3".to_vec(), b"\xef\xbb\xbfx".to_vec(), b"[m.c x]\r\n[m.c y]\r\n".to_vec(), b"a\0b".to_vec()];
    for (i, _) in whole.char_indices() { docs.push(whole.as_bytes()[..i].to_vec()); docs.push(whole.as_bytes()[i..].to_vec()) }
    for n in [100, t(300, 1000)] { docs.push("[m.c x]\n".repeat(n).into_bytes()); docs.push("x".repeat(n).into_bytes()) }
    // many mistakes of every kind
    for n in [15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, t(150, 255), t(151, 257), t(200, 1001)] { for s in ["[m\nx] ", "] ", "[m] ", "[m. x] ", "[] > "] { docs.push(s.repeat(n).into_bytes()) } }
    for d in [5, 10] { docs.push(format!("{}x{}", "[m.c ".repeat(d), "]".repeat(d)).into_bytes()) }
    par(ctx, &docs, scratch, |dir, d| { ctx.enter(&String::from_utf8_lossy(d)); all(dir, d, &[1, 2, 3, 4, 5], 50); ctx.state(&String::from_utf8_lossy(d)); ctx.trace() }, |_| ());
    ctx.count("larger documents", docs.len() as u64);
    time("larger documents");
    if !ctx.stopped() { command_lines(ctx, &base, &lib) }
    time("command lines");
    if !ctx.stopped() { plugin_directories(ctx, &base) }
    for (k, v) in labels.into_inner().unwrap() { ctx.count(&k, v) }
    ctx.sample(json!(whole));
    let _ = std::fs::remove_dir_all(&base);
    ctx.finish("model_checking", !ctx.stopped(), &["the stages called in process are right (P01 to P11)", "two plugin files for one module, plugin directories that contain files named like plugins that are none, and levels that are no numbers are not specified beyond an error"])
}

/// Levels, file names, backends.
fn command_lines(ctx: &Ctx, base: &Path, lib: &Path) {
    let load = || plug::loaded(&["m", "k"].map(|n| (n, lib.join(format!("{n}_0.wasm")), FeatureFlag::default())));
    let dir = base.join("lines");
    std::fs::create_dir_all(dir.join("sub dir")).unwrap();
    std::fs::create_dir_all(dir.join("directory.[]")).unwrap();
    let doc = "[m.c x]<k.e y>";
    let files: Vec<(OsString, bool)> = ["a.[]", "sub dir/b.[]", "./a.[]", "あ.[]", ".[]", "sub dir/.[]", "a.b.[]", "-.[]", "a b.[]"].iter().map(|s| (OsString::from(s), true))
        .chain(["a", "a.txt", "a.[", "a.[].txt", "a.[]x", "a[]", "a.()", "a.[] ", "[]", "a.[]\n"].iter().map(|s| (OsString::from(s), false)))
        .collect();
    for (f, _) in &files { std::fs::write(dir.join(f), doc).unwrap() }
    let mut cases: Vec<(OsString, Option<&str>)> = files.into_iter().map(|(f, good)| (f, good.then_some(doc))).collect();
    for f in ["missing.[]", "no/a.[]", "directory.[]", "", "a.[]/a.[]"] { cases.push((f.into(), None)) }
    cases.push((dir.join("a.[]").into(), Some(doc)));
    // symbolic links
    let link = |to: &str, name: &str| { let _ = std::os::unix::fs::symlink(to, dir.join(name)); };
    link("a.txt", "linked.[]");
    link("linked.[]", "again.[]");
    link("sub dir", "linked dir");
    link("nowhere", "dangling.[]");
    for (f, good) in [("linked.[]", true), ("again.[]", true), ("linked dir/b.[]", true), ("dangling.[]", false)] { cases.push((f.into(), good.then_some(doc))) }
    let n = AtomicU64::new(0);
    let tasks: Vec<(usize, usize, bool, &str)> = (0..cases.len()).flat_map(|c| (0..10).flat_map(move |l| [false, true].into_iter().flat_map(move |j| ["html", "", "x y"].map(|b| (c, l, j, b))))).collect();
    let levels = ["0", "1", "2", "3", "4", "5", "6", "10", "255", "1000"];
    par(ctx, &tasks, || (), |_, (c, l, j, b)| {
        let (file, text) = &cases[*c];
        let level: usize = levels[*l].parse().unwrap();
        let r = wanted(*text, level, *j, &load).and_then(|want| { ctx.leave(); judge(&run(&dir, Some(lib.as_os_str()), None, file, levels[*l], *j, b), &want) });
        n.fetch_add(1, Ordering::Relaxed);
        ctx.state(&format!("{file:?} {l} {j} {b}"));
        ctx.trace();
        if let Err(e) = r { ctx.violation(2, &format!("{file:?} {l}"), format!("P24: file {file:?}, level {level}, JSON {j}, backend {b:?}: {e}"), json!({"file": file.to_string_lossy(), "level": level, "json": j})) }
    }, |_| ());
    ctx.count("command lines", n.load(Ordering::Relaxed));
}

/// Which files are plugins, and which directory counts.
fn plugin_directories(ctx: &Ctx, base: &Path) {
    // the name of a file, and the module it is
    let names: Vec<(Vec<u8>, Option<&str>)> = [
        ("m_0.wasm", Some("m")), ("m_0123456789abcdefABCDEF.wasm", Some("m")), ("m_x_1.wasm", Some("m_x")), ("m__1.wasm", Some("m_")), ("__1.wasm", Some("_")), ("m-n_1.wasm", Some("m-n")), ("あ_1.wasm", Some("あ")), ("mm_1.wasm", Some("mm")), ("9_9.wasm", Some("9")), ("__wasm_1.wasm", Some("__wasm")),
        ("m.wasm", None), ("m_.wasm", None), ("_0.wasm", None), ("m_0.wasm.bak", None), ("m_0.wasmx", None), ("m_0wasm", None), ("m_0.WASM", None), ("m_あ.wasm", None), ("m_0-1.wasm", None), ("m_0.1.wasm", None), ("m_0 .wasm", None), ("m_0.wat", None), (".wasm", None), ("_.wasm", None), ("m", None), ("m_0", None), ("README", None), (".m_0.wasm.tmp", None), ("m_0.wasm\n", None), ("m_0.wasm~", None),
    ].iter().map(|(n, m)| (n.as_bytes().to_vec(), *m)).chain([(b"\xff_0.wasm".to_vec(), None), (b"m_\xff.wasm".to_vec(), None), (b"\xff".to_vec(), None)]).collect();
    let paired = names.len();
    // names and hashes of every form and length
    let names: Vec<(Vec<u8>, Option<&str>)> = names.into_iter().chain([("na", "a".to_string()), ("nb", "Z".into()), ("nc", "abcdef".into()), ("nd", "XYZ".into()), ("ne", "7".into()), ("nf", "e".repeat(64)), ("ng", "0".repeat(64)), ("nh", "f00d".repeat(16)), ("ni", "a".repeat(128)), ("wasm", "wasm".into()), ("n.wasm", "1".into()), ("n.x", "b2".into()), ("n o", "c3".into()), ("N", "d".into())].into_iter().map(|(n, h)| (format!("{n}_{h}.wasm").into_bytes(), Some(n)))
        .chain((2..=180).filter(|n| n % 16 < 2).map(|n| { let m: &'static str = Box::leak("l".repeat(n).into_boxed_str()); (format!("{m}_{n}a.wasm").into_bytes(), Some(m)) }))).collect();
    let probes = ["m", "m_x", "m_", "_", "m-n", "あ", "mm", "9", "__wasm", "n"];
    let doc: String = "x".into();
    let text = |m: &str| format!("[{m}.c x]");
    let mut tasks: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..names.len() { tasks.push(vec![a]); for b in a + 1..if a < paired { paired } else { 0 } { if names[a].1 != names[b].1 || names[a].1.is_none() { tasks.push(vec![a, b]) } } }
    let all: Vec<usize> = (0..names.len()).filter(|i| *i != 1).collect();
    tasks.push(all);
    // files, links to files, a link to the directory
    let tasks: Vec<(Vec<usize>, usize)> = tasks.into_iter().flat_map(|s| { let ways = if s.len() == 2 { 1 } else { 3 }; (0..ways).map(move |w| (s.clone(), w)) }).collect();
    let next = AtomicUsize::new(0);
    let loads = AtomicU64::new(0);
    par(ctx, &tasks, || { let d = base.join(format!("d{}", next.fetch_add(1, Ordering::SeqCst))); std::fs::create_dir_all(&d).unwrap(); d }, |dir, (set, way)| {
        ctx.leave();
        let (lib, store) = (dir.join("lib"), dir.join("store"));
        let _ = std::fs::remove_file(&lib);
        for d in [&lib, &store] { let _ = std::fs::remove_dir_all(d); std::fs::create_dir_all(d).unwrap() }
        if *way == 2 { std::fs::remove_dir(&lib).unwrap(); std::os::unix::fs::symlink("store", &lib).unwrap() }
        // only some of the files are plugins, the others must not be loaded
        for i in set {
            let (n, m) = &names[*i];
            let content = match m { Some(m) => module(m), None => b"no plugin".to_vec() };
            if *way == 1 { std::fs::write(store.join(i.to_string()), content).unwrap(); std::os::unix::fs::symlink(format!("../store/{i}"), lib.join(OsStr::from_bytes(n))).unwrap() }
            else { std::fs::write(lib.join(OsStr::from_bytes(n)), content).unwrap() }
        }
        let way = ["", ", symbolic links", ", itself a symbolic link"][*way];
        let shown: Vec<String> = set.iter().map(|i| String::from_utf8_lossy(&names[*i].0).into_owned()).collect();
        let known: Vec<&str> = set.iter().filter_map(|i| names[*i].1).collect();
        let check = |doc: &str, want: Want| {
            std::fs::write(dir.join("a.[]"), doc).unwrap();
            let r = judge(&run(dir, Some(lib.as_os_str()), None, OsStr::new("a.[]"), "5", false, "b"), &want);
            loads.fetch_add(1, Ordering::Relaxed);
            if let Err(e) = r { ctx.violation(set.len() + 2, &format!("{shown:?}"), format!("P24: plugin directory {shown:?}{way}, document {doc:?}: {e}"), json!({"files": shown, "document": doc})) }
        };
        check(&doc, Want::Text("x\n".into()));
        let known: Vec<&str> = known.into_iter().filter(|m| !m.contains(['.', ' '])).collect(); // the others cannot be named in a document
        if !known.is_empty() { check(&known.iter().map(|m| text(m)).collect::<String>(), Want::Text(known.iter().map(|m| format!("{}({})", plug::answer_name(m, "c", "TInline"), plug::mapped(r#"[{"TextArray":["x"]}]"#))).collect::<String>() + "\n")) }
        if set.len() == 1 || set.len() > 2 { for p in probes { if !known.contains(&p) { check(&text(p), Want::Fails) } } }
        ctx.state(&format!("{set:?}{way}"));
        ctx.trace();
    }, |_| ());
    ctx.count("plugin directories", tasks.len() as u64);
    ctx.count("compilations with them", loads.load(Ordering::Relaxed));
    // where the directory is given
    let dir = base.join("where");
    std::fs::create_dir_all(dir.join("empty")).unwrap();
    for (d, who) in [("one", "one"), ("two", "two"), (".", "here")] { std::fs::create_dir_all(dir.join(d)).unwrap(); std::fs::write(dir.join(d).join("m_0.wasm"), module(who)).unwrap() }
    std::fs::write(dir.join("a.[]"), "[m.c x]").unwrap();
    std::fs::write(dir.join("file"), "x").unwrap();
    // names that mean something to a shell, to a list of directories or to a pattern
    const STRANGE: &[&str] = &["one:two", ":one", "one:", "one,two", "one;two", "a b", " ", "~", "$HOME", "*", "ö𝒳", "a\nb", "%2e", "'q'", "\"", "\\", "#one", "one?", "a=b", "-x", "--json", "C:", "one/deep", "x.wasm", "..."];
    for d in STRANGE { std::fs::create_dir_all(dir.join(d)).unwrap(); std::fs::write(dir.join(d).join("m_0.wasm"), module("strange")).unwrap() }
    std::fs::create_dir_all(dir.join("two/one")).unwrap(); // two/one holds no plugin
    let odd = OsString::from_vec(b"odd\xff".to_vec());
    std::fs::create_dir_all(dir.join(&odd)).unwrap();
    std::fs::write(dir.join(&odd).join("m_0.wasm"), module("odd")).unwrap();
    let absolute = dir.join("two").into_os_string();
    let answer = |d: &OsStr| match d.to_str() { Some("one" | "./one" | "one/") => Some("one"), Some("two") => Some("two"), Some("." | "./") => Some("here"), _ if *d == absolute => Some("two"), Some("two/../one" | "one//." | "one/deep/..") => Some("one"), Some(s) if STRANGE.contains(&s) => Some("strange"), _ => None };
    let places: Vec<Option<OsString>> = [None, Some("one"), Some("two"), Some("./one"), Some("one/"), Some("."), Some("empty"), Some("missing"), Some("file"), Some("one/m_0.wasm"), Some("")].iter().map(|o| o.map(OsString::from)).chain([Some(absolute.clone())]).collect();
    let plain = places.len();
    let places: Vec<Option<OsString>> = places.into_iter().chain(STRANGE.iter().chain(&["two/../one", "one//.", "one/deep/..", "two/one", "one:missing", "missing:one", "oneX", "ONE", "one ", "two:one"]).map(|o| Some(OsString::from(o)))).collect();
    let mut n = 0;
    for (i, p) in places.iter().enumerate() { for (j, e) in places.iter().enumerate() {
        if i >= plain && j >= plain { continue }
        // as an argument of its own it would be taken for an option
        if p.as_ref().is_some_and(|p| p.as_bytes().starts_with(b"-")) { continue }
        let used = p.as_ref().or(e.as_ref());
        let want = match used.and_then(|d| answer(d)) { Some(w) => Want::Text(format!("{}({})\n", plug::answer_name(w, "c", "TInline"), plug::mapped(r#"[{"TextArray":["x"]}]"#))), None => Want::Fails };
        let r = judge(&run(&dir, p.as_deref(), e.as_deref(), OsStr::new("a.[]"), "5", false, "b"), &want);
        n += 1;
        ctx.trace();
        ctx.state(&format!("{p:?} {e:?}"));
        if let Err(x) = r { ctx.violation(3, &format!("{p:?} {e:?}"), format!("P24: plugin directory {p:?}, in the environment {e:?}: {x}"), json!({"p": p.as_ref().map(|x| x.to_string_lossy()), "environment": e.as_ref().map(|x| x.to_string_lossy())})) }
    } }
    ctx.count("places of the plugin directory", n);
}
