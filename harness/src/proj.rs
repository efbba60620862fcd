//! P18 - P21, P23: projects, built by the brack binary in scratch directories, with a stand-in for GitHub.
use crate::back;
use crate::common::*;
use crate::config::canon;
use crate::net::{GitHub, Reply};
use crate::plug::{self, Body};
use brack_plugin::feature_flag::FeatureFlag;
use brack_project_manager::project::Project;
use serde_json::{json, Value as Json};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

const LIMIT: Duration = Duration::from_secs(40);
static NEXT: AtomicUsize = AtomicUsize::new(0);
pub fn seq() -> usize { NEXT.fetch_add(1, Ordering::SeqCst) }

// ---------------------------------------------------------------- projects

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Plug { pub name: String, pub owner: String, pub repo: String, pub version: String, /// text, expr, stmt, document; absent, false or true
    pub hooks: [Option<bool>; 4] }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Conf { pub backend: String, pub plugins: Vec<Plug> }

pub fn pl(name: &str) -> Plug { Plug { name: name.into(), owner: "o".into(), repo: format!("{name}-repo"), version: "1".into(), hooks: [None; 4] } }
pub const HOOK_KEYS: [&str; 4] = ["text_hook", "expr_hook", "stmt_hook", "document_hook"];

impl Plug {
    /// Where the release asset for this backend is.
    pub fn url(&self, backend: &str) -> String { format!("/{}/{}/releases/download/{}/{}.{}.wasm", self.owner, self.repo, self.version, self.name, backend) }
    fn flags(&self) -> FeatureFlag {
        let h = |i: usize| self.hooks[i].unwrap_or(false);
        FeatureFlag { text_hook: h(0), expr_hook: h(1), stmt_hook: h(2), document_hook: h(3) }
    }
}
impl Conf {
    pub fn toml(&self) -> String {
        let mut s = format!("[document]\nname = \"n\"\nversion = \"v\"\nbackend = {:?}\nauthors = [\"a\"]\n", self.backend);
        for p in &self.plugins {
            s += &format!("\n[plugins.{:?}]\nschema = \"github\"\nowner = {:?}\nrepo = {:?}\nversion = {:?}\n", p.name, p.owner, p.repo, p.version);
            for (k, h) in HOOK_KEYS.iter().zip(p.hooks) { if let Some(h) = h { s += &format!("{k} = {h}\n") } }
        }
        s
    }
    pub fn urls(&self) -> Vec<String> { self.plugins.iter().map(|p| p.url(&self.backend)).collect() }
}

/// The plugin at this address: its answers carry the address.
pub fn asset(url: &str) -> Vec<u8> {
    static MADE: Mutex<BTreeMap<String, Vec<u8>>> = Mutex::new(BTreeMap::new());
    if let Some(a) = MADE.lock().unwrap().get(url) { return a.clone() }
    let w = plug::wasm(url, &[
        plug::cmd("c", "TInline", vec![plug::arr()], Body::Echo), plug::cmd("d", "TBlock", vec![plug::arr()], Body::Echo), plug::cmd("e", "TAST", vec![plug::t()], Body::Macro), plug::cmd("f", "TInline", vec![plug::t()], Body::Trap),
        plug::cmd("n", "TInline", vec![], Body::Count),
        plug::cmd("text", "TInline", vec![plug::t()], Body::Echo), plug::cmd("expr", "TInline", vec![plug::t()], Body::Echo), plug::cmd("stmt", "TBlock", vec![plug::t()], Body::Echo), plug::cmd("document", "TBlock", vec![plug::t()], Body::Echo),
    ]);
    MADE.lock().unwrap().insert(url.into(), w.clone());
    w
}
/// A server that has every asset it is asked for (of these configurations).
pub fn serving(confs: &[&Conf]) -> HashMap<String, Reply> {
    confs.iter().flat_map(|c| c.urls()).map(|u| { let a = asset(&u); (u, Reply::Full(a)) }).collect()
}

/// The output of compiling a document with the plugins and hooks of a configuration, by the
/// compiler's libraries, loaded afresh. Err if it cannot be compiled.
pub fn compiled(doc: &[u8], conf: &Conf) -> Result<String, String> {
    static DONE: Mutex<BTreeMap<(Vec<u8>, Conf), Result<String, String>>> = Mutex::new(BTreeMap::new());
    let key = (doc.to_vec(), conf.clone());
    if let Some(r) = DONE.lock().unwrap().get(&key) { return r.clone() }
    let dir = tmp_dir("oracle");
    let r = (|| {
        let text = String::from_utf8(doc.to_vec()).map_err(|_| "not UTF-8".to_string())?;
        let loaded: Vec<(&str, PathBuf, FeatureFlag)> = conf.plugins.iter().enumerate().map(|(i, p)| {
            let path = dir.join(format!("{i}.wasm"));
            std::fs::write(&path, asset(&p.url(&conf.backend))).unwrap();
            (&p.name[..], path, p.flags())
        }).collect();
        let mut plugins = plug::load(&loaded).map_err(|e| e.to_string())?;
        let ast = back::ast_of(&text)?.ok_or("does not parse")?;
        let ast = catch(|| brack_expander::expand::expander(&ast, &mut plugins))?.map_err(|e| e.to_string())?;
        catch(|| brack_codegen::generate::generate(&ast, &mut plugins))?.map_err(|e| e.to_string())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    DONE.lock().unwrap().insert(key, r.clone());
    r
}

#[derive(Clone, PartialEq, Eq)]
pub enum Entry { File(Vec<u8>), Dir, Link(String) }
impl std::fmt::Debug for Entry {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self { Entry::File(b) => { let s = String::from_utf8_lossy(&b[..b.len().min(200)]); write!(f, "{} bytes {s:?}", b.len()) } Entry::Dir => write!(f, "a directory"), Entry::Link(t) => write!(f, "a link to {t}") }
    }
}
pub type Tree = BTreeMap<String, Entry>;
pub fn tree(dir: &Path) -> Tree {
    fn walk(at: &Path, name: String, t: &mut Tree) {
        for e in std::fs::read_dir(at).into_iter().flatten().flatten() {
            let n = format!("{name}{}", e.file_name().to_string_lossy());
            let p = e.path();
            match std::fs::symlink_metadata(&p) {
                Ok(m) if m.is_dir() => { t.insert(n.clone(), Entry::Dir); walk(&p, n + "/", t) }
                Ok(m) if m.is_symlink() => { t.insert(n, Entry::Link(std::fs::read_link(&p).map(|p| p.display().to_string()).unwrap_or_default())); }
                Ok(_) => { t.insert(n, Entry::File(std::fs::read(&p).unwrap_or_default())); }
                Err(_) => (),
            }
        }
    }
    let mut t = Tree::new();
    walk(dir, String::new(), &mut t);
    t
}
pub fn difference(a: &Tree, b: &Tree) -> Option<String> {
    for (k, v) in a { match b.get(k) { None => return Some(format!("{k} is gone")), Some(w) if v != w => return Some(format!("{k} was {v:?} and is {w:?}")), _ => () } }
    b.iter().find(|(k, _)| !a.contains_key(*k)).map(|(k, v)| format!("{k} is new: {v:?}"))
}
pub fn within(t: &Tree, top: &str) -> Tree { t.iter().filter(|(k, _)| k.split('/').next() == Some(top)).map(|(k, v)| (k.clone(), v.clone())).collect() }
pub fn without(t: &Tree, tops: &[&str]) -> Tree { t.iter().filter(|(k, _)| !tops.contains(&k.split('/').next().unwrap_or(""))).map(|(k, v)| (k.clone(), v.clone())).collect() }

const LINK: &[u8] = b"\0link to ";

/// A scratch directory with a project in it, and a server.
pub struct World { pub top: PathBuf, pub dir: PathBuf, pub hub: GitHub }
impl World {
    pub fn new(base: &Path) -> World {
        let top = base.join(format!("w{}", seq()));
        let dir = top.join("project");
        std::fs::create_dir_all(dir.join("docs")).unwrap();
        World { hub: GitHub::start(&top), top, dir }
    }
    /// An empty project directory.
    pub fn clear(&self) {
        let _ = std::fs::remove_dir_all(&self.dir);
        std::fs::create_dir_all(self.dir.join("docs")).unwrap();
    }
    pub fn restore(&self, t: &Tree) {
        self.clear();
        for (k, v) in t {
            let p = self.dir.join(k);
            match v { Entry::Dir => std::fs::create_dir_all(p).unwrap(), Entry::File(b) => std::fs::write(p, b).unwrap(), Entry::Link(to) => { let _ = std::os::unix::fs::symlink(to, p); } }
        }
    }
    /// A file, or a symbolic link if the content starts with LINK.
    pub fn set(&self, name: &str, content: &[u8]) {
        if let Some(to) = content.strip_prefix(LINK) {
            let p = self.dir.join(name);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            let _ = std::fs::remove_file(&p);
            return std::os::unix::fs::symlink(std::str::from_utf8(to).unwrap(), p).unwrap();
        } let p = self.dir.join(name); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, content).unwrap() }
    pub fn configure(&self, c: &Conf) { self.set("Brack.toml", c.toml().as_bytes()) }
    pub fn docs(&self, docs: &[(&str, &[u8])]) {
        let _ = std::fs::remove_dir_all(self.dir.join("docs"));
        std::fs::create_dir_all(self.dir.join("docs")).unwrap();
        for (n, c) in docs { self.set(&format!("docs/{n}"), c) }
    }
    pub fn command(&self, args: &[&str], shim: &[(&str, String)]) -> Command {
        let mut c = Command::new(back::brack());
        c.args(args).current_dir(&self.dir).env_remove("BRACK_PLUGINS_PATH");
        for (k, v) in self.hub.env() { c.env(k, v); }
        if !shim.is_empty() {
            c.env("LD_PRELOAD", format!("{VERIF}/target/shim.so")).env("BRACKMC_ROOT", &self.dir);
            for (k, v) in shim { c.env(k, v); }
        }
        c
    }
    pub fn run(&self, args: &[&str], shim: &[(&str, String)]) -> Ended { run_limited(&mut self.command(args, shim), LIMIT) }
    pub fn build(&self) -> Ended { self.run(&["build"], &[]) }
}

/// Which outputs a build of these documents yields.
pub fn outputs(docs: &BTreeMap<String, Vec<u8>>, conf: &Conf) -> BTreeMap<String, Result<String, String>> {
    docs.iter().filter_map(|(n, c)| {
        let stem = n.strip_suffix(".[]").filter(|s| !s.is_empty())?;
        Some((format!("out/{stem}.{}", conf.backend), compiled(c, conf)))
    }).collect()
}

/// Random identifiers replaced by their order of appearance.
pub fn normal(s: &str) -> String {
    let b = s.as_bytes();
    let is = |i: usize| i + 36 <= b.len() && (0..36).all(|k| if matches!(k, 8 | 13 | 18 | 23) { b[i + k] == b'-' } else { b[i + k].is_ascii_hexdigit() });
    let mut seen: HashMap<&[u8], usize> = HashMap::new();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if is(i) { let n = seen.len(); let n = *seen.entry(&b[i..i + 36]).or_insert(n); out.extend(format!("ID{n}").bytes()); i += 36 } else { out.push(b[i]); i += 1 }
    }
    String::from_utf8_lossy(&out).into_owned()
}
pub fn same_file(e: &Entry, want: &str) -> bool { matches!(e, Entry::File(b) if normal(&String::from_utf8_lossy(b)) == normal(want)) }

/// Checks a build's end and what it changed. Ok(true) if it succeeded.
pub fn judge_build(before: &Tree, after: &Tree, end: &Ended, want: &BTreeMap<String, Result<String, String>>) -> Result<bool, String> {
    if let Some(d) = difference(&without(before, &["out", "plugins"]), &without(after, &["out", "plugins"])) { return Err(format!("the build changed the project: {d}")) }
    let bad = want.iter().find(|(_, r)| r.is_err());
    if matches!(end, Ended::Timeout | Ended::Signal(..)) { return Err(end.describe()) }
    match (bad, end.ok()) {
        (Some((n, Err(e))), true) => return Err(format!("the build succeeds although the document of {n} cannot be compiled ({e})")),
        (None, false) => return Err(format!("the build fails: {}", end.describe())),
        _ => (),
    }
    // outputs: as they should be; after a failure also as they were
    let (old, new) = (within(before, "out"), within(after, "out"));
    for (k, v) in &new {
        if k == "out" { continue }
        let should = want.get(k).and_then(|r| r.as_ref().ok());
        let fine = match &should { Some(s) if same_file(v, s) => true, Some(_) if end.ok() => false, _ => old.get(k) == Some(v) };
        if !fine { return Err(format!("{k} is {v:?}, {}", match should { Some(s) => format!("but should be {s:?}"), None => format!("but was {:?}", old.get(k)) })) }
    }
    for k in old.keys() { if !new.contains_key(k) { return Err(format!("{k} is gone")) } }
    if end.ok() { for k in want.keys() { if !new.contains_key(k) { return Err(format!("there is no {k}")) } } }
    Ok(end.ok())
}

// ---------------------------------------------------------------- P18

const CONTENTS: [&[u8]; 12] = [b"", b"x", b"[m.c x]", "{m.d 𝒳,b}\n\né y\r\nz".as_bytes(), b"<m.e x>", b"[m.c <m.e>][m.n]", b"\\[a [k.c [m.c q]]", b"<k.e a>\n<m.e b>", b"[z.c x]", b"\n\na", b"\xff\xfe", b"[m.f x]"];

fn base_conf() -> Conf { Conf { backend: "html".into(), plugins: vec![pl("m"), pl("k")] } }

pub fn docs_of(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    std::fs::read_dir(dir.join("docs")).unwrap().flatten().filter(|e| e.path().is_file()).map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap())).collect()
}

/// One build, judged; the environment may fix the order of the directory and of hash maps.
fn build_step(w: &World, conf: &Conf, order: usize, hash: usize) -> Result<bool, String> {
    let before = tree(&w.dir);
    let end = w.run(&["build"], &[("BRACKMC_ORDER", order.to_string()), ("BRACKMC_HASH", hash.to_string())]);
    judge_build(&before, &tree(&w.dir), &end, &outputs(&docs_of(&w.dir), conf))
}

pub fn p18(ctx: &Ctx) -> i32 {
    let t = |q: usize, th: usize| if ctx.thorough { th } else { q };
    let base = tmp_dir("p18");
    let ended = [AtomicU64::new(0), AtomicU64::new(0)];
    let noted = |r: &Result<bool, String>| if let Ok(b) = r { ended[*b as usize].fetch_add(1, Ordering::Relaxed); };
    // every set of up to three documents, in every order
    let names = ["a.[]", "b.[]", "c.[]"];
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for n in 1..=3 {
        let k = if n == 3 { t(9, CONTENTS.len()) } else { CONTENTS.len() };
        sets.extend((0..k.pow(n as u32)).map(|mut x| (0..n).map(|_| { let i = x % k; x /= k; i }).collect::<Vec<_>>()));
    }
    let tasks: Vec<(Vec<usize>, usize)> = sets.iter().flat_map(|s| { let orders = [1, 1, 2, 6][s.len()]; (0..orders).map(|o| (s.clone(), o)).collect::<Vec<_>>() }).collect();
    let prepared = || {
        let w = World::new(&base);
        w.configure(&base_conf());
        w.hub.script(serving(&[&base_conf()]));
        let _ = w.build();
        w
    };
    par(ctx, &tasks, prepared, |w, (set, order)| {
        ctx.leave();
        let docs: Vec<(&str, &[u8])> = set.iter().enumerate().map(|(i, c)| (names[i], CONTENTS[*c])).collect();
        w.docs(&docs);
        let _ = std::fs::remove_dir_all(w.dir.join("out"));
        // an old output
        if order % 2 == 1 { w.set("out/a.html", b"something much longer than any of the outputs will be: something much longer than any of the outputs will be; something much longer than any of the outputs will be; something much longer than any of the outputs will be; something much longer than any of the outputs will be; something much longer than any of the outputs will be"); w.set("out/other", b"kept") }
        let r = build_step(w, &base_conf(), *order, order % 3);
        noted(&r);
        if let Err(e) = r {
            let shown: Vec<String> = docs.iter().map(|(n, c)| format!("{n}: {:?}", String::from_utf8_lossy(c))).collect();
            ctx.violation(set.len(), &format!("{shown:?}"), format!("P18: documents {shown:?}, listed in order {order}: {e}"), json!({"documents": shown, "order": order}));
        }
        ctx.state(&format!("{set:?} {order}"));
        for c in set { ctx.transition(&format!("{c}")) }
        ctx.trace();
    }, |_| ());
    ctx.count("sets of documents in an order", tasks.len() as u64);
    if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("sets {:.1} s", ctx.start.elapsed().as_secs_f64()) }
    // names, backends, and files that are no documents
    let stems = ["a", "a.b", "a b", "あ", "𝒳", "-x", "a.html", "out", "[]", "a.[]", "%20", "'\"", "a\\b", "~", "#", "Brack", "...", "x\ny", "é", ".a", "a.", " a", "a ", "a.[].[]", "A"];
    let backends = ["html", "", "tex", "a.b", "[]", "あ", "HTML"];
    let others: [&[(&str, &[u8])]; 7] = [&[], &[("docs/x.txt", b"[z.c]"), ("docs/.hidden", b"<z"), ("docs/[]", b"[z.c x]")], &[("docs/sub/d.[]", b"[z.c x]"), ("d.[]", b"[z.c x]")], &[("docs/a.html", b"q"), ("docs/a", b"r"), ("docs/a.[].bak", b"[z.c x]")], &[("out/sub/x", b"q"), ("out/a.tex", b"old"), ("notes/[]", b"")],
        &[("notes/t", b"[m.c linked]"), ("docs/l.[]", b"\0link to ../notes/t")],
        &[("../shared/t.[]", b"{m.d linked}"), ("docs/l.[]", b"\0link to l2.[]"), ("docs/l2.[]", b"\0link to ../../shared/t.[]"), ("docs/l.txt", b"\0link to l2.[]")]];
    let mut tasks: Vec<(usize, usize, usize)> = vec![];
    for s in 0..stems.len() { for b in 0..backends.len() { for o in 0..others.len() { tasks.push((s, b, o)) } } }
    par(ctx, &tasks, || World::new(&base), |w, (s, b, o)| {
        ctx.leave();
        let conf = Conf { backend: backends[*b].into(), ..base_conf() };
        w.clear();
        w.configure(&conf);
        w.hub.script(serving(&[&conf]));
        w.set(&format!("docs/{}.[]", stems[*s]), b"[m.c x]<k.e>");
        w.set("docs/zz.[]", b"other");
        for (n, c) in others[*o] { w.set(n, c) }
        let r = build_step(w, &conf, 0, 0).and_then(|ok| { if ok { build_step(w, &conf, 1, 1) } else { Ok(ok) } });
        noted(&r);
        if let Err(e) = r { ctx.violation(stems[*s].len() + backends[*b].len() + o, stems[*s], format!("P18: document {:?}, backend {:?}, other files {:?}: {e}", stems[*s], backends[*b], others[*o].iter().map(|x| x.0).collect::<Vec<_>>()), json!({"stem": stems[*s], "backend": backends[*b], "others": others[*o].iter().map(|x| x.0).collect::<Vec<_>>()})) }
        ctx.state(&format!("{s} {b} {o}"));
        ctx.traces.fetch_add(2, Ordering::Relaxed);
    }, |_| ());
    ctx.count("names and backends", tasks.len() as u64);
    if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("names {:.1} s", ctx.start.elapsed().as_secs_f64()) }
    // many documents, long documents
    let numbers: Vec<usize> = (4..=17).chain([31, 32, 33, 63, 64, 65, 99, 100, 101, 128, 129, 255, 256, 257, 300]).collect();
    let lengths: Vec<usize> = (3..=t(7, 9)).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
    let tasks: Vec<(usize, usize, usize)> = numbers.iter().flat_map(|n| (0..3).map(move |o| (*n, 1, o))).chain(lengths.iter().map(|l| (1, *l, 0))).chain([(2, 60, 0), (17, 33, 1)]).collect();
    par(ctx, &tasks, prepared, |w, (n, length, order)| {
        ctx.leave();
        let _ = std::fs::remove_dir_all(w.dir.join("out"));
        let docs: Vec<(String, String)> = (0..*n).map(|i| (format!("d{i}.[]"), format!("[m.c {i}]{}<k.e x>\n", ["", "[m.n]", "\n\n{k.d q}"][i % 3]).repeat(*length))).collect();
        w.docs(&docs.iter().map(|(n, d)| (&n[..], d.as_bytes())).collect::<Vec<_>>());
        let r = build_step(w, &base_conf(), *order, *order).and_then(|_| build_step(w, &base_conf(), order + 1, 0));
        noted(&r);
        if let Err(e) = r { ctx.violation(*n + *length, &format!("{n} {length}"), format!("P18: {n} documents of {length} parts: {e}"), json!({"documents": n, "parts": length})) }
        ctx.state(&format!("many {n} {length} {order}"));
        ctx.traces.fetch_add(2, Ordering::Relaxed);
    }, |_| ());
    ctx.count("numbers and lengths of documents", tasks.len() as u64);
    if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("many {:.1} s", ctx.start.elapsed().as_secs_f64()) }
    // every ASCII character and some others at the beginning, the end and inside of the output
    let chars: Vec<char> = (0..128u32).filter_map(char::from_u32).chain("\u{80}\u{85}\u{a0}\u{ad}é\u{301}\u{200b}\u{200d}\u{2028}\u{2029}\u{3000}\u{feff}\u{fffd}\u{ffff}あ𝒳\u{10ffff}".chars()).collect();
    let parts: Vec<&[char]> = chars.chunks(9).collect();
    par(ctx, &parts, prepared, |w, cs| {
        ctx.leave();
        let _ = std::fs::remove_dir_all(w.dir.join("out"));
        let all: Vec<(String, String)> = cs.iter().enumerate().flat_map(|(i, c)| ["x@", "@x", "[m.c x]@", "x@y", "x@@", "@"].iter().enumerate().map(move |(k, f)| (format!("d{i}{k}.[]"), f.replace('@', &c.to_string())))).collect();
        // documents of one character may not even parse, and then the build fails
        let out = |docs: &[(String, String)]| { w.docs(&docs.iter().map(|(n, d)| (&n[..], d.as_bytes())).collect::<Vec<_>>()); build_step(w, &base_conf(), 0, 0) };
        let (good, bad): (Vec<_>, Vec<_>) = all.into_iter().partition(|(_, d)| compiled(d.as_bytes(), &base_conf()).is_ok());
        let r = out(&good).and_then(|ok| if ok { bad.iter().try_for_each(|b| out(std::slice::from_ref(b)).map(|_| ())) } else { Err("documents that compile are not built".into()) });
        if let Err(e) = r { ctx.violation(4, &format!("{cs:?}"), format!("P18: documents with {cs:?}: {e}"), json!({"characters": cs.iter().collect::<String>()})) }
        ctx.state(&format!("{cs:?}"));
        ctx.traces.fetch_add(1 + bad.len() as u64, Ordering::Relaxed);
    }, |_| ());
    ctx.count("characters in documents", chars.len() as u64);
    // hooks
    let mut tasks: Vec<([usize; 4], [usize; 4])> = vec![];
    for a in 0..81usize { let h = [a % 3, a / 3 % 3, a / 9 % 3, a / 27]; tasks.push((h, [0; 4])); for i in 0..4 { let mut g = [0; 4]; g[i] = 2; tasks.push((h, g)) } }
    par(ctx, &tasks, || World::new(&base), |w, (h, g)| {
        ctx.leave();
        let of = |x: &[usize; 4]| x.map(|i| [None, Some(false), Some(true)][i]);
        let mut conf = base_conf();
        conf.plugins[0].hooks = of(h);
        conf.plugins[1].hooks = of(g);
        w.clear();
        w.configure(&conf);
        w.hub.script(serving(&[&conf]));
        w.docs(&[("a.[]", b"[m.c x,y] z\n\n{k.d \\[}"), ("b.[]", b"a\nb")]);
        let r = build_step(w, &conf, 0, h[0]);
        noted(&r);
        if let Err(e) = r { ctx.violation(2, &format!("{h:?} {g:?}"), format!("P18: hooks (text, expr, stmt, document) of m {:?}, of k {:?}: {e}", conf.plugins[0].hooks, conf.plugins[1].hooks), json!({"m": h, "k": g})) }
        ctx.state(&format!("hooks {h:?} {g:?}"));
        ctx.trace();
    }, |_| ());
    ctx.count("hook settings", tasks.len() as u64);
    if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("hooks {:.1} s", ctx.start.elapsed().as_secs_f64()) }
    // histories: a change, then a build
    let changes = ["a := 1", "a := long", "b := 1", "a deleted", "a broken", "other backend", "hook of m", "k removed or added", "nothing", "b := a"];
    let depth = t(4, 5);
    let firsts: Vec<(usize, usize)> = (0..changes.len()).flat_map(|a| (0..changes.len()).map(move |b| (a, b))).collect();
    // one change and build, from the state left by those before
    let step = |w: &World, conf: &mut Conf, history: &[usize]| -> bool {
        ctx.leave();
        let i = history.len() - 1;
        match history[i] {
            0 => w.set("docs/a.[]", b"[m.c 1]"),
            1 => w.set("docs/a.[]", b"[m.c 1] and more than before\n\n\n<m.e>"),
            2 => w.set("docs/b.[]", b"1"),
            3 => { let _ = std::fs::remove_file(w.dir.join("docs/a.[]")); }
            4 => w.set("docs/a.[]", b"[m.c 1][z.c]"),
            5 => conf.backend = if conf.backend == "html" { "tex".into() } else { "html".into() },
            6 => conf.plugins[0].hooks[0] = if conf.plugins[0].hooks[0].is_none() { Some(true) } else { None },
            7 => if conf.plugins.len() == 2 { conf.plugins.pop(); } else { conf.plugins.push(pl("k")) },
            9 => { let a = std::fs::read(w.dir.join("docs/a.[]")).unwrap_or_default(); w.set("docs/b.[]", &a) }
            _ => (),
        }
        w.configure(conf);
        w.hub.script(serving(&[conf]));
        let r = build_step(w, conf, i % 2, i % 2);
        noted(&r);
        ctx.trace();
        ctx.transition(&format!("{history:?}"));
        if let Err(e) = &r {
            let shown: Vec<&str> = history.iter().map(|h| changes[*h]).collect();
            ctx.violation(i + 1, &format!("{shown:?}"), format!("P18: after {shown:?}, each followed by a build: {e}"), json!({"history": shown}));
        }
        r.is_ok()
    };
    fn deeper(w: &World, conf: &Conf, history: &mut Vec<usize>, depth: usize, n: usize, step: &dyn Fn(&World, &mut Conf, &[usize]) -> bool, ctx: &Ctx) {
        if history.len() == depth { return ctx.state(&format!("{history:?}")) }
        let here = tree(&w.dir);
        for c in 0..n {
            if ctx.stopped() { return }
            w.restore(&here);
            history.push(c);
            let mut conf = conf.clone();
            if step(w, &mut conf, history) { deeper(w, &conf, history, depth, n, step, ctx) }
            history.pop();
        }
    }
    par(ctx, &firsts, || World::new(&base), |w, first| {
        w.clear();
        let mut conf = base_conf();
        w.docs(&[("a.[]", b"[m.c x]"), ("b.[]", b"[m.n]<m.e>")]);
        let mut history = vec![first.0];
        if !step(w, &mut conf, &history) { return }
        history.push(first.1);
        if !step(w, &mut conf, &history) { return }
        deeper(w, &conf, &mut history, depth, changes.len(), &step, ctx);
    }, |_| ());
    ctx.count("histories", (changes.len() as u64).pow(depth as u32));
    ctx.count("successful builds", ended[1].load(Ordering::Relaxed));
    ctx.count("failed builds", ended[0].load(Ordering::Relaxed));
    ctx.sample(json!({"documents": CONTENTS.iter().map(|c| String::from_utf8_lossy(c)).collect::<Vec<_>>(), "outputs": CONTENTS.iter().map(|c| format!("{:?}", compiled(c, &base_conf()))).collect::<Vec<_>>()}));
    let _ = std::fs::remove_dir_all(&base);
    ctx.finish("model_checking", !ctx.stopped(), &["the output of one document is what the compiler's libraries yield for it with the same plugins, loaded afresh (P07 - P11 check those)", "after a failed build outputs may be old or new; documents with syntax errors that still compile are not specified", "directory order and hash seeds are those the preloaded library sets"])
}

// ---------------------------------------------------------------- P19

/// All orders of the pieces of several answers.
fn interleavings(urls: &[String], pieces: usize) -> Vec<Vec<(String, usize)>> {
    fn go(left: &mut Vec<usize>, pieces: usize, urls: &[String], at: &mut Vec<(String, usize)>, out: &mut Vec<Vec<(String, usize)>>) {
        if left.iter().all(|l| *l == pieces) { return out.push(at.clone()) }
        for i in 0..urls.len() {
            if left[i] == pieces { continue }
            at.push((urls[i].clone(), left[i]));
            left[i] += 1;
            go(left, pieces, urls, at, out);
            left[i] -= 1;
            at.pop();
        }
    }
    let mut out = vec![];
    go(&mut vec![0; urls.len()], pieces, urls, &mut vec![], &mut out);
    out
}

fn failing(wasm: &[u8]) -> Vec<(&'static str, Reply)> {
    vec![
        ("404", Reply::Status(404, b"Not Found".to_vec())), ("500 with the file", Reply::Status(500, wasm.to_vec())), ("403", Reply::Status(403, vec![])),
        ("cut at the start", Reply::Cut(wasm.to_vec(), 0)), ("cut in the middle", Reply::Cut(wasm.to_vec(), wasm.len() / 2)), ("cut before the last byte", Reply::Cut(wasm.to_vec(), wasm.len() - 1)),
        ("chunks without an end", Reply::CutChunks(wasm.to_vec(), wasm.len())), ("cut in the header", Reply::CutHead), ("closed", Reply::Close), ("garbage", Reply::Garbage),
    ]
}
fn failing_whole() -> Vec<(&'static str, Reply)> { vec![("refused", Reply::Refused), ("no TLS", Reply::NoTls)] }

const P19_DOCS: [(&str, &[u8]); 2] = [("a.[]", b"[m.c x]\n\n{m.d y}"), ("b.[]", b"a[m.c]\nb")];

/// One build with a server that does (or does not) have everything: whether it must fail, which
/// addresses must be requested, which may.
fn judge_requests(got: &[String], must: &[String], may: &[String]) -> Result<(), String> {
    let mut left = got.to_vec();
    for m in must { match left.iter().position(|g| g == m) { Some(i) => { left.remove(i); } None => return Err(format!("{m} was not downloaded; requested: {got:?}")) } }
    for m in may { if let Some(i) = left.iter().position(|g| g == m) { left.remove(i); } }
    if left.is_empty() { Ok(()) } else { Err(format!("requested without need: {left:?}")) }
}

pub fn p19(ctx: &Ctx) -> i32 {
    let t = |q: usize, th: usize| if ctx.thorough { th } else { q };
    let base = tmp_dir("p19");
    let late = AtomicU64::new(0);
    let time = |what: &str| if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("{what} {:.1} s", ctx.start.elapsed().as_secs_f64()) };
    // orders of answers, complete and not
    let two = base_conf();
    let three = Conf { backend: "html".into(), plugins: vec![pl("m"), pl("k"), Plug { owner: "p".into(), version: "2.0".into(), hooks: [None, None, Some(true), None], ..pl("x") }] };
    type Case<'a> = (&'a Conf, Vec<(String, usize)>, usize, Vec<(&'static str, Reply)>, usize);
    let mut tasks: Vec<Case> = vec![];
    for (conf, pieces) in [(&two, t(3, 4)), (&three, t(2, 2))] {
        let urls = conf.urls();
        let full: Vec<(&'static str, Reply)> = urls.iter().map(|u| ("full", Reply::Full(asset(u)))).collect();
        let mut answers: Vec<Vec<(&'static str, Reply)>> = vec![full.clone()];
        for i in 0..urls.len() {
            let a = asset(&urls[i]);
            let kinds = failing(&a);
            let kinds = if urls.len() == 3 { vec![kinds[0].clone(), kinds[5].clone(), kinds[8].clone()] } else { kinds };
            for k in kinds.into_iter().chain([("chunked", Reply::Chunked(a.clone())), ("redirected", Reply::Redirect(format!("/{i}")))]) {
                let mut x = full.clone();
                x[i] = k.clone();
                answers.push(x.clone());
                if urls.len() == 2 && i == 0 { for (j, other) in failing(&asset(&urls[1])).into_iter().enumerate() { if ctx.thorough || j % 3 == 0 { x[1] = other; answers.push(x.clone()) } } }
            }
        }
        for order in interleavings(&urls, pieces) { for a in &answers { for hash in 0..t(1, 3) { tasks.push((conf, order.clone(), pieces, a.clone(), hash)) } } }
    }
    par(ctx, &tasks, || World::new(&base), |w, (conf, order, pieces, answers, hash)| {
        ctx.leave();
        w.clear();
        w.configure(conf);
        w.docs(&P19_DOCS);
        let urls = conf.urls();
        let mut replies: HashMap<String, Reply> = urls.iter().cloned().zip(answers.iter().map(|a| a.1.clone())).collect();
        let mut must = urls.clone();
        for (i, a) in answers.iter().enumerate() { if let Reply::Redirect(to) = &a.1 { let other = format!("//objects.githubusercontent.com{to}"); replies.insert(other.clone(), Reply::Full(asset(&urls[i]))); must.push(other) } }
        must.sort();
        let broken: Vec<String> = urls.iter().zip(answers).filter(|(_, a)| !a.1.complete()).map(|(u, _)| u.clone()).collect();
        let docs = docs_of(&w.dir);
        let want = outputs(&docs, conf);
        let mut r = (|| {
            w.hub.schedule(replies, *pieces, order.clone());
            let before = tree(&w.dir);
            let end = w.run(&["build"], &[("BRACKMC_HASH", hash.to_string())]);
            let mut expected = want.clone();
            if !broken.is_empty() { expected.insert("out/\u{0}".into(), Err("a download failed".into())); }
            judge_build(&before, &tree(&w.dir), &end, &expected)?;
            if broken.is_empty() { judge_requests(&w.hub.requests(), &must, &[])? }
            late.fetch_add(w.hub.late(), Ordering::Relaxed);
            Ok::<(), String>(())
        })().map_err(|e| format!("first build: {e}"));
        if r.is_ok() && !broken.is_empty() {
            r = (|| {
                // what was not downloaded completely cannot be used
                w.hub.script(HashMap::new());
                let before = tree(&w.dir);
                let end = w.build();
                let mut expected = want.clone();
                expected.insert("out/\u{0}".into(), Err("a plugin is not there".into()));
                judge_build(&before, &tree(&w.dir), &end, &expected).map_err(|e| format!("second build, without server: {e}"))?;
                w.hub.script(serving(&[conf]));
                let before = tree(&w.dir);
                let end = w.build();
                judge_build(&before, &tree(&w.dir), &end, &want).and_then(|_| judge_requests(&w.hub.requests(), &broken, &urls)).map_err(|e| format!("repeated build: {e}"))
            })();
        }
        if r.is_ok() {
            w.hub.script(HashMap::new());
            let before = tree(&w.dir);
            let end = w.build();
            r = judge_build(&before, &tree(&w.dir), &end, &want).and_then(|_| judge_requests(&w.hub.requests(), &[], &[])).map_err(|e| format!("last build, everything downloaded, without server: {e}"));
        }
        if let Err(e) = r {
            let shown: Vec<String> = urls.iter().zip(answers).map(|(u, a)| format!("{u}: {}", a.0)).collect();
            ctx.violation(broken.len() + order.len(), &format!("{shown:?} {order:?}"), format!("P19: answers {shown:?}, sent in the order {order:?}: {e}"), json!({"answers": shown, "order": order}));
        }
        ctx.state(&format!("{order:?} {:?} {hash}", answers.iter().map(|a| a.0).collect::<Vec<_>>()));
        for o in order.windows(2) { ctx.transition(&format!("{o:?}")) }
        ctx.trace();
    }, |_| ());
    ctx.count("orders and completeness of answers", tasks.len() as u64);
    time("orders");
    // every status, every length at which a download can break off
    let one = Conf { backend: "html".into(), plugins: vec![pl("m")] };
    let url = one.urls()[0].clone();
    let full = asset(&url);
    let mut replies: Vec<(String, Reply)> = (300..600).map(|s| (format!("status {s}"), Reply::Status(s, full.clone()))).collect();
    for k in 0..full.len() { if ctx.thorough || k % 4 == 0 || k + 40 > full.len() || k < 40 { replies.push((format!("cut after {k} of {} bytes", full.len()), Reply::Cut(full.clone(), k))) } }
    for k in (0..=full.len()).step_by(t(100, 10)) { replies.push((format!("chunks cut after {k} of {} bytes", full.len()), Reply::CutChunks(full.clone(), k))) }
    for (n, r) in failing(&full).into_iter().chain(failing_whole()) { replies.push((n.into(), r)) }
    for k in [full.len() + 1, 65536, 1 << 20, 3 << 20] {
        // a file of this size, by a custom section
        let mut b = full.clone();
        let n = k.saturating_sub(b.len() + 10).max(2);
        b.push(0);
        let mut len = n;
        loop { let x = (len & 127) as u8; len >>= 7; if len == 0 { b.push(x); break } else { b.push(x | 128) } }
        b.push(1); b.push(b'x');
        b.extend(vec![7; n - 2]);
        replies.push((format!("complete, {} bytes", b.len()), Reply::Full(b.clone())));
        replies.push((format!("complete in chunks, {} bytes", b.len()), Reply::Chunked(b.clone())));
        replies.push((format!("{} bytes, cut before the last", b.len()), Reply::Cut(b.clone(), b.len() - 1)));
        replies.push((format!("{} bytes, cut in the custom section", b.len()), Reply::Cut(b.clone(), full.len())));
    }
    par(ctx, &replies, || World::new(&base), |w, (name, reply)| {
        ctx.leave();
        w.clear();
        w.configure(&one);
        w.docs(&P19_DOCS);
        let want = outputs(&docs_of(&w.dir), &one);
        let mut fail = want.clone();
        fail.insert("out/\u{0}".into(), Err("the plugin is not there".into()));
        let step = |replies: HashMap<String, Reply>, want: &BTreeMap<String, Result<String, String>>, what: &str| {
            w.hub.script(replies);
            let before = tree(&w.dir);
            let end = w.build();
            judge_build(&before, &tree(&w.dir), &end, want).map_err(|e| format!("{what}: {e}"))
        };
        let first = HashMap::from([(url.clone(), reply.clone())]);
        let r = if reply.complete() {
            step(first, &want, "build").and_then(|_| step(HashMap::new(), &want, "build again, without server"))
        } else {
            step(first, &fail, "build").and_then(|_| step(HashMap::new(), &fail, "build again, without server")).and_then(|_| step(serving(&[&one]), &want, "build again"))
        };
        if let Err(e) = r { ctx.violation(1, name, format!("P19: a download answered by {name}: {e}"), json!({"answer": name})) }
        ctx.state(name);
        ctx.trace();
    }, |_| ());
    ctx.count("answers to one download", replies.len() as u64);
    time("answers");
    if !ctx.stopped() { histories(ctx, &base) }
    time("histories");
    if !ctx.stopped() { hooks_and_twins(ctx, &base) }
    time("hooks and twins");
    if !ctx.stopped() { foreign_files(ctx, &base) }
    time("foreign files");
    if !ctx.stopped() { redirected(ctx, &base) }
    if !ctx.stopped() { many_plugins(ctx, &base) }
    time("redirections and many plugins");
    if !ctx.stopped() { server_plugins(ctx, &base) }
    time("language server");
    ctx.count("answers that could not be kept in order", late.into_inner());
    ctx.sample(json!({"configuration": two.toml(), "addresses": two.urls()}));
    let _ = std::fs::remove_dir_all(&base);
    ctx.finish("model_checking", !ctx.stopped(), &["the server stands in for GitHub behind a proxy; it controls the order in which answers are sent, not that in which the program takes them from the network", "whether a plugin is downloaded again when only its hooks change, or when another download of the same build failed, is not specified"])
}

/// What was downloaded already, for these very settings, and at all.
#[derive(Clone, Default)]
struct Known { exact: BTreeSet<(Plug, String)>, urls: BTreeSet<String> }

/// A build with this configuration, with or without a server.
fn known_build(w: &World, conf: &Conf, known: &mut Known, online: bool, hash: usize) -> Result<(), String> {
    w.configure(conf);
    let urls = conf.urls();
    let must: Vec<String> = urls.iter().filter(|u| !known.urls.contains(*u)).cloned().collect();
    let may: Vec<String> = conf.plugins.iter().filter(|p| !known.exact.contains(&((*p).clone(), conf.backend.clone()))).map(|p| p.url(&conf.backend)).filter(|u| !must.contains(u)).collect();
    w.hub.script(if online { serving(&[conf]) } else { HashMap::new() });
    let before = tree(&w.dir);
    let end = w.run(&["build"], &[("BRACKMC_HASH", hash.to_string())]);
    let mut want = outputs(&docs_of(&w.dir), conf);
    // without the server a build that may download may fail
    let fails = if online { false } else if !must.is_empty() { true } else { !may.is_empty() && !end.ok() };
    if fails { want.insert("out/\u{0}".into(), Err("a plugin cannot be downloaded".into())); }
    let ok = judge_build(&before, &tree(&w.dir), &end, &want)?;
    if ok { judge_requests(&w.hub.requests(), &must, &may)?; for p in &conf.plugins { known.exact.insert((p.clone(), conf.backend.clone())); known.urls.insert(p.url(&conf.backend)); } }
    else { judge_requests(&w.hub.requests(), &[], &urls)? }
    Ok(())
}

/// Every setting of the hooks, and configurations that are easily taken for one another.
fn hooks_and_twins(ctx: &Ctx, base: &Path) {
    let mut tasks: Vec<Vec<Conf>> = vec![];
    let of = |i: usize| -> [Option<bool>; 4] { std::array::from_fn(|h| [None, Some(true), Some(false)][i / 3usize.pow(h as u32) % 3]) };
    let on = |i: usize| -> [Option<bool>; 4] { std::array::from_fn(|h| if i >> h & 1 == 1 { Some(true) } else { None }) };
    for a in 0..81 { for b in 0..16 {
        let mut c = base_conf();
        c.plugins[0].hooks = of(a);
        c.plugins[1].hooks = on(b);
        // hooks claimed twice: no build
        let twice = (0..4).any(|h| c.plugins[0].hooks[h] == Some(true) && c.plugins[1].hooks[h] == Some(true));
        if !twice || a < 27 { tasks.push(vec![c]) }
    } }
    let n_hooks = tasks.len();
    let make = |f: [&str; 5]| Conf { backend: f[4].into(), plugins: vec![Plug { name: f[3].into(), owner: f[0].into(), repo: f[1].into(), version: f[2].into(), hooks: [None; 4] }] };
    let plain = ["o", "r", "1", "m", "html"];
    let with = |edits: &[(usize, &str)]| { let mut f = plain; for (i, v) in edits { f[*i] = v } make(f) };
    for i in 0..5 {
        for j in 0..5 { if i != j {
            tasks.push(vec![with(&[(i, "ab"), (j, "c")]), with(&[(i, "a"), (j, "bc")])]);
            tasks.push(vec![with(&[(i, "p"), (j, "q")]), with(&[(i, "q"), (j, "p")])]);
            for (x, y) in [("a-b", "b-c"), ("a_b", "b_c"), ("a.b", "b.c")] { tasks.push(vec![with(&[(i, x), (j, "c")]), with(&[(i, "a"), (j, y)])]) }
        } }
        for (x, y) in [("a", "A"), ("1", "1.0"), ("1.0", "1"), ("v1", "1"), ("aa", "a"), ("a", "aa"), ("a-b", "a_b"), ("a.b", "ab"), ("longlonglonglonglonglonglonglonglonglong1", "longlonglonglonglonglonglonglonglonglong2"), ("x.git", "x"), ("x.wasm", "x"), ("x.html", "x"), ("x_", "x"), ("0x", "x")] { tasks.push(vec![with(&[(i, x)]), with(&[(i, y)])]) }
    }
    // two plugins at once that differ in one thing
    for (i, x) in [(0, "p"), (1, "s"), (2, "2")] { for name in ["n", "M", "m_", "m2", "a"] {
        let (a, b) = (with(&[]), with(&[(i, x), (3, name)]));
        let mut c = a.clone();
        c.plugins.push(b.plugins[0].clone());
        tasks.push(vec![c.clone(), a.clone(), c.clone()]);
        let mut d = c.clone();
        let (x, y) = (d.plugins[0].clone(), d.plugins[1].clone());
        d.plugins[0] = Plug { name: x.name.clone(), ..y.clone() };
        d.plugins[1] = Plug { name: y.name, ..x };
        tasks.push(vec![c, d]);
    } }
    par(ctx, &tasks, || World::new(base), |w, confs| {
        ctx.leave();
        w.clear();
        let mut known = Known::default();
        let steps: Vec<(usize, bool)> = (0..confs.len()).map(|i| (i, true)).chain((0..confs.len()).map(|i| (i, false))).collect();
        for (k, (i, online)) in steps.iter().enumerate() {
            let conf = &confs[*i];
            // a document that uses every plugin of this configuration
            let doc: String = conf.plugins.iter().map(|p| format!("[{0}.c x, y] z\n\n{{{0}.d v}}\n", p.name)).collect();
            w.docs(&[("a.[]", doc.as_bytes()), ("b.[]", b"t\nu\n\nv")]);
            if let Err(e) = known_build(w, conf, &mut known, *online, k % 3) {
                let shown: Vec<String> = steps[..=k].iter().map(|(i, o)| format!("{:?}, {}", confs[*i].plugins, if *o { "with server" } else { "without server" })).collect();
                ctx.violation(confs.len(), &format!("{shown:?}"), format!("P19: builds for {} with {shown:?}: {e}", conf.backend), json!({"configurations": confs.iter().map(|c| c.toml()).collect::<Vec<_>>(), "builds": steps[..=k].iter().map(|s| format!("{s:?}")).collect::<Vec<_>>()}));
                return;
            }
            ctx.trace();
        }
        ctx.state(&format!("twins {confs:?}"));
    }, |_| ());
    ctx.count("hook settings", n_hooks as u64);
    ctx.count("configurations easily taken for one another", (tasks.len() - n_hooks) as u64);
}

/// Files that the build did not download do not stand in for what it has to.
fn foreign_files(ctx: &Ctx, base: &Path) {
    let conf = base_conf();
    let (url, p) = (conf.urls()[0].clone(), conf.plugins[0].clone());
    // how a build names what it downloads
    let w = World::new(base);
    let names = |c: &Conf| -> Vec<String> {
        w.clear();
        w.configure(c);
        w.docs(&P19_DOCS);
        w.hub.script(serving(&[c]));
        let _ = w.build();
        std::fs::read_dir(w.dir.join("plugins")).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default()
    };
    let mine = names(&Conf { plugins: vec![p.clone()], ..conf.clone() });
    let mut files: BTreeSet<String> = ["m", "m.wasm", "m.html", "m.html.wasm", "m_.wasm", "m-repo.wasm", "m-repo", "o", "o-m-repo-1", "o_m-repo_1.wasm", "m_1.wasm", "m.1.wasm", "m_html.wasm", "m.tmp", "m_0.wasm", "m_m-repo.wasm", "wasm", ".wasm", "_.wasm", "m.wasm.tmp", "index", "lock", ".lock", "plugins"].map(String::from).into();
    // those of other settings
    for other in [Conf { backend: "tex".into(), plugins: vec![p.clone()] }, Conf { plugins: vec![Plug { version: "2".into(), ..p.clone() }], ..conf.clone() }, Conf { plugins: vec![Plug { name: "M".into(), ..p.clone() }], ..conf.clone() }, Conf { plugins: vec![Plug { owner: "p".into(), ..p.clone() }], ..conf.clone() }] { files.extend(names(&other)) }
    for m in &mine {
        for end in [".tmp", ".part", ".download", "~", ".bak", ".1", ".gz", ".sha256", ".lock", ".etag"] { files.insert(format!("{m}{end}")); }
        let stem = m.trim_end_matches(".wasm");
        files.extend([stem.to_string(), format!("{stem}.WASM"), format!(".{m}"), m.to_uppercase(), m[1..].to_string(), format!("x{m}"), m.replacen('m', "M", 1), format!("{}.wasm", &stem[..stem.len() - 1]), format!("{stem}0.wasm")]);
        if let Some((_, h)) = m.split_once('_') { files.extend([h.to_string(), format!("_{h}"), format!("k_{h}"), format!("m.{h}"), format!("m-{h}")]) }
    }
    for m in &mine { files.remove(m); }
    let other = asset("/other/plugin");
    let contents: [(&str, Option<&[u8]>); 5] = [("another plugin", Some(&other)), ("nothing", Some(b"")), ("text", Some(b"not a plugin")), ("half of a plugin", Some(&other[..other.len() / 2])), ("a directory", None)];
    let tasks: Vec<(String, usize, usize)> = files.iter().flat_map(|f| (0..contents.len()).flat_map(move |c| (0..2).map(move |at| (f.clone(), c, at)))).collect();
    par(ctx, &tasks, || World::new(base), |w, (file, c, at)| {
        ctx.leave();
        w.clear();
        w.docs(&P19_DOCS);
        let place = if *at == 0 { format!("plugins/{file}") } else { file.clone() };
        if place == "plugins" { return }
        match contents[*c].1 { Some(b) => w.set(&place, b), None => w.set(&format!("{place}/x"), b"x") }
        let mut known = Known::default();
        let r = (|| {
            known_build(w, &conf, &mut known, false, 0).map_err(|e| format!("build without server: {e}"))?;
            known_build(w, &conf, &mut known, true, 0).map_err(|e| format!("build: {e}"))?;
            known_build(w, &conf, &mut known, false, 1).map_err(|e| format!("build again, without server: {e}"))
        })();
        if let Err(e) = r { ctx.violation(1, &place, format!("P19: {place} is there ({}), {url} was not downloaded: {e}", contents[*c].0), json!({"file": place, "content": contents[*c].0})) }
        ctx.state(&format!("{place} {c}"));
        ctx.trace();
    }, |_| ());
    ctx.count("files that were not downloaded", tasks.len() as u64);
}

/// Redirections of every kind, one after another, in the end to the plugin or to nothing.
fn redirected(ctx: &Ctx, base: &Path) {
    let conf = Conf { plugins: vec![pl("m")], ..base_conf() };
    let url = conf.urls()[0].clone();
    // a place, and how it is called
    let hosts = [("//objects.githubusercontent.com", "https://objects.githubusercontent.com"), ("", "https://github.com"), ("", ""), ("//codeload.github.com", "//codeload.github.com")];
    let mut tasks: Vec<(Vec<(u16, usize)>, bool)> = vec![];
    for s in [301, 302, 303, 307, 308] { for h in 0..hosts.len() { for good in [true, false] { tasks.push((vec![(s, h)], good)); for h2 in 0..hosts.len() { tasks.push((vec![(s, h), (302, h2)], good)); tasks.push((vec![(301, h), (s, h2)], good)) } } } }
    for n in 3..=6 { for h in 0..hosts.len() { for good in [true, false] { tasks.push(((0..n).map(|i| ([302, 301, 307][i % 3], (h + i * (h & 1)) % hosts.len())).collect(), good)) } } }
    par(ctx, &tasks, || World::new(base), |w, (hops, good)| {
        ctx.leave();
        w.clear();
        w.configure(&conf);
        w.docs(&P19_DOCS);
        // a location without a host is on the host of the one before
        let mut replies = HashMap::new();
        let (mut at, mut host) = (url.clone(), "");
        let mut must = vec![at.clone()];
        for (i, (status, h)) in hops.iter().enumerate() {
            let (key, called) = hosts[*h];
            if !called.is_empty() { host = key }
            let path = format!("/hop{i}?a=1&b=%20x");
            replies.insert(at.clone(), Reply::Moved(*status, format!("{called}{path}")));
            at = format!("{host}{}", path.replace("%20", " "));
            must.push(at.clone());
        }
        replies.insert(at, if *good { Reply::Full(asset(&url)) } else { Reply::Status(404, asset(&url)) });
        must.sort();
        let want = outputs(&docs_of(&w.dir), &conf);
        let mut expected = want.clone();
        if !good { expected.insert("out/\u{0}".into(), Err("the plugin is not there".into())); }
        let r = (|| {
            w.hub.script(replies);
            let before = tree(&w.dir);
            let end = w.build();
            judge_build(&before, &tree(&w.dir), &end, &expected)?;
            judge_requests(&w.hub.requests(), if *good { &must } else { &[] }, if *good { &[] } else { &must })?;
            w.hub.script(HashMap::new());
            let before = tree(&w.dir);
            let end = w.build();
            judge_build(&before, &tree(&w.dir), &end, &expected).map_err(|e| format!("without server: {e}"))
        })();
        if let Err(e) = r { ctx.violation(hops.len(), &format!("{hops:?}"), format!("P19: redirected {hops:?} to {}: {e}", if *good { "the plugin" } else { "nothing" }), json!({"hops": hops, "good": good})) }
        ctx.state(&format!("redirected {hops:?} {good}"));
        ctx.trace();
    }, |_| ());
    ctx.count("redirections", tasks.len() as u64);
}

/// Projects of many plugins, some of which may be missing.
fn many_plugins(ctx: &Ctx, base: &Path) {
    let mut tasks: Vec<(usize, Option<usize>, usize)> = vec![];
    let numbers: Vec<usize> = if ctx.thorough { (4..=34).chain([48, 63, 64, 65, 100, 129]).collect() } else { vec![4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 64, 65] };
    for n in numbers {
        tasks.push((n, None, 0));
        for (i, bad) in [0, n / 2, n - 1].into_iter().enumerate() { tasks.push((n, Some(bad), i)) }
    }
    par(ctx, &tasks, || World::new(base), |w, (n, missing, kind)| {
        ctx.leave();
        w.clear();
        let conf = Conf { backend: "html".into(), plugins: (0..*n).map(|i| Plug { owner: format!("o{}", i % 3), version: format!("1.{i}"), ..pl(&format!("p{i}")) }).collect() };
        w.configure(&conf);
        let doc: String = conf.plugins.iter().map(|p| format!("[{0}.c x, y] z\n", p.name)).collect();
        w.docs(&[("a.[]", doc.as_bytes())]);
        let want = outputs(&docs_of(&w.dir), &conf);
        let mut fail = want.clone();
        fail.insert("out/\u{0}".into(), Err("a plugin is not there".into()));
        let step = |replies: HashMap<String, Reply>, want: &BTreeMap<String, Result<String, String>>, hash: usize, what: &str| {
            w.hub.script(replies);
            let before = tree(&w.dir);
            let end = w.run(&["build"], &[("BRACKMC_HASH", hash.to_string())]);
            judge_build(&before, &tree(&w.dir), &end, want).map_err(|e| format!("{what}: {e}"))
        };
        let r = (|| {
            if let Some(i) = missing {
                let mut replies = serving(&[&conf]);
                let a = asset(&conf.urls()[*i]);
                replies.insert(conf.urls()[*i].clone(), match kind { 0 => Reply::Status(404, vec![]), 1 => Reply::Cut(a.clone(), a.len() / 2), _ => Reply::Close });
                step(replies, &fail, *n, "build without one plugin")?;
                step(HashMap::new(), &fail, 1, "build without server")?;
            }
            step(serving(&[&conf]), &want, *n, "build")?;
            let urls = conf.urls();
            judge_requests(&w.hub.requests(), if missing.is_none() { &urls } else { &[] }, if missing.is_none() { &[] } else { &urls })?;
            step(HashMap::new(), &want, 2, "build again, without server")
        })();
        if let Err(e) = r { ctx.violation(*n, &format!("{n} {missing:?}"), format!("P19: {n} plugins{}: {e}", match missing { Some(i) => format!(", number {i} missing at first"), None => String::new() }), json!({"plugins": n, "missing": missing})) }
        ctx.state(&format!("many {n} {missing:?}"));
        ctx.trace();
    }, |_| ());
    ctx.count("numbers of plugins", tasks.len() as u64);
}

/// Changes of the configuration, each followed by a build with or without a server.
fn histories(ctx: &Ctx, base: &Path) {
    const CHANGES: [&str; 11] = ["version of m", "owner of m", "repository of m", "backend", "text hook of m", "document hook of k", "k removed or added", "text hook off or absent", "hooks of m and k exchanged", "nothing", "cache deleted"];
    fn change(w: &World, conf: &mut Conf, c: usize) -> bool {
        let flip = |s: &mut String, a: &str, b: &str| *s = if s == a { b.into() } else { a.into() };
        match c {
            0 => flip(&mut conf.plugins[0].version, "1", "2"),
            1 => flip(&mut conf.plugins[0].owner, "o", "p"),
            2 => flip(&mut conf.plugins[0].repo, "m-repo", "n"),
            3 => flip(&mut conf.backend, "html", "tex"),
            4 => conf.plugins[0].hooks[0] = if conf.plugins[0].hooks[0] == Some(true) { None } else { Some(true) },
            5 => if let Some(k) = conf.plugins.get_mut(1) { k.hooks[3] = if k.hooks[3] == Some(true) { Some(false) } else { Some(true) } },
            6 => if conf.plugins.len() == 2 { conf.plugins.pop(); } else { conf.plugins.push(pl("k")) },
            7 => conf.plugins[0].hooks[0] = if conf.plugins[0].hooks[0] == Some(false) { None } else { Some(false) },
            8 => if conf.plugins.len() == 2 { let h = conf.plugins[0].hooks; conf.plugins[0].hooks = conf.plugins[1].hooks; conf.plugins[1].hooks = h },
            10 => { let _ = std::fs::remove_dir_all(w.dir.join("plugins")); return true }
            _ => (),
        }
        false
    }
    fn step(ctx: &Ctx, w: &World, conf: &mut Conf, known: &mut Known, history: &[usize]) -> bool {
        ctx.leave();
        let last = history[history.len() - 1];
        let (c, online) = (last / 2, last % 2 == 0);
        if change(w, conf, c) { *known = Known::default() }
        let r = known_build(w, conf, known, online, history.len() % 3);
        ctx.trace();
        ctx.transition(&format!("{history:?}"));
        if let Err(e) = &r {
            let shown: Vec<String> = history.iter().map(|h| format!("{}, build {}", CHANGES[h / 2], if h % 2 == 0 { "with server" } else { "without server" })).collect();
            ctx.violation(history.len(), &format!("{shown:?}"), format!("P19: after a first build: {shown:?}: {e}"), json!({"history": shown, "configuration": conf.toml()}));
        }
        r.is_ok()
    }
    fn deeper(ctx: &Ctx, w: &World, conf: &Conf, known: &Known, history: &mut Vec<usize>, depth: usize) {
        if history.len() == depth { return ctx.state(&format!("{history:?}")) }
        let here = tree(&w.dir);
        for c in 0..2 * CHANGES.len() {
            if ctx.stopped() { return }
            w.restore(&here);
            history.push(c);
            let (mut conf, mut known) = (conf.clone(), known.clone());
            if step(ctx, w, &mut conf, &mut known, history) { deeper(ctx, w, &conf, &known, history, depth) }
            history.pop();
        }
    }
    let n = 2 * CHANGES.len();
    let depth = if ctx.thorough { 4 } else { 3 };
    let tasks: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect();
    par(ctx, &tasks, || World::new(base), |w, (a, b)| {
        w.clear();
        let mut conf = base_conf();
        w.docs(&P19_DOCS);
        let mut known = Known::default();
        // the first build
        let mut history = vec![2 * 9];
        if !step(ctx, w, &mut conf, &mut known, &history) { return }
        history.clear();
        for x in [a, b] { history.push(*x); if !step(ctx, w, &mut conf, &mut known, &history) { return } }
        deeper(ctx, w, &conf, &known, &mut history, depth);
    }, |_| ());
    ctx.count("histories of configurations", (n as u64).pow(depth as u32));
}

/// The language server uses the plugins configured when a document is opened.
fn server_plugins(ctx: &Ctx, base: &Path) {
    use crate::lsp::{frame, Ls};
    // what this plugin offers tells where it is from
    let named = |p: &Plug, backend: &str| format!("c-{}-{}-{}-{}-{}", p.owner, p.repo, p.version, p.name, backend);
    let wasm = |p: &Plug, backend: &str| plug::wasm("x", &[plug::cmd(&named(p, backend), "TInline", vec![], Body::Echo), plug::cmd("text", "TInline", vec![plug::t()], Body::Echo)]);
    let confs: Vec<Conf> = {
        let a = base_conf();
        let mut v = vec![a.clone()];
        let mut c = a.clone(); c.plugins[0].version = "2".into(); v.push(c);
        let mut c = a.clone(); c.plugins[0].owner = "p".into(); c.plugins[1].version = "3".into(); v.push(c);
        let mut c = a.clone(); c.backend = "tex".into(); v.push(c);
        let mut c = a.clone(); c.plugins.pop(); v.push(c);
        let mut c = a.clone(); c.plugins[0].hooks[0] = Some(true); v.push(c);
        v.push(Conf { plugins: vec![], ..a.clone() });
        v
    };
    let wasms = confs.iter().flat_map(|c| c.plugins.iter().map(|p| (p.url(&c.backend), wasm(p, &c.backend)))).collect::<HashMap<_, _>>();
    // steps: (configuration, how its first plugin's download is answered; 0 is completely)
    let kinds: Vec<(&str, Reply)> = [("complete", Reply::Close)].into_iter().chain(failing(&wasms[&confs[0].urls()[0]])).chain(failing_whole()).collect();
    let mut steps: Vec<(usize, usize)> = (0..confs.len()).map(|c| (c, 0)).collect();
    for k in 1..kinds.len() { steps.push((1, k)) }
    let mut tasks: Vec<Vec<usize>> = vec![];
    for a in 0..steps.len() { for b in 0..steps.len() { tasks.push(vec![a, b]); if a < confs.len() || ctx.thorough { for c in 0..confs.len() { tasks.push(vec![a, b, c]) } } } }
    par(ctx, &tasks, || World::new(base), |w, task| {
        ctx.leave();
        w.clear();
        w.docs(&P19_DOCS);
        let mut ls = Ls::start_with(&w.dir, &w.hub.env());
        let u = crate::lsp::uri(&w.dir.join("docs/a.[]"));
        let mut n = 0;
        let mut known: BTreeSet<(Plug, String)> = BTreeSet::new();
        let mut urls: BTreeSet<String> = BTreeSet::new();
        let mut usable: Vec<String> = vec![];
        let mut perhaps: BTreeSet<String> = BTreeSet::new();
        for (i, s) in task.iter().enumerate() {
            let (c, k) = steps[*s];
            let conf = &confs[c];
            w.configure(conf);
            let mut replies: HashMap<String, Reply> = conf.urls().into_iter().map(|u| (u.clone(), Reply::Full(wasms[&u].clone()))).collect();
            if k > 0 { replies.insert(conf.urls()[0].clone(), kinds[k].1.clone()); }
            w.hub.script(replies);
            n += 1;
            let open = json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": u, "languageId": "b", "version": 1, "text": ""}}});
            let ask = json!({"jsonrpc": "2.0", "id": n, "method": "textDocument/completion", "params": {"textDocument": {"uri": u}, "position": {"line": 0, "character": 1}, "context": {"triggerKind": 2, "triggerCharacter": "["}}});
            ls.write(&frame(open.to_string().as_bytes()));
            ls.write(&frame(ask.to_string().as_bytes()));
            let r = ls.until(&json!(n)).and_then(|(_, v)| {
                let mut got: Vec<String> = v["result"].as_array().or(v["result"]["items"].as_array()).map(|a| a.iter().map(|i| i["label"].as_str().unwrap_or("").to_string()).filter(|l| !l.ends_with(".text")).collect()).unwrap_or_default();
                got.sort();
                let must: Vec<String> = conf.urls().into_iter().filter(|u| !urls.contains(u) && !perhaps.contains(u)).collect();
                let may: Vec<String> = conf.plugins.iter().filter(|p| !known.contains(&((*p).clone(), conf.backend.clone()))).map(|p| p.url(&conf.backend)).filter(|u| !must.contains(u)).collect();
                let needed = k > 0 && (must.contains(&conf.urls()[0]) || (matches!(kinds[k].1, Reply::Refused | Reply::NoTls) && !must.is_empty()));
                let maybe = k > 0 && !may.is_empty();
                let mut want: Vec<String> = conf.plugins.iter().map(|p| format!("{}.{}", p.name, named(p, &conf.backend))).collect();
                want.sort();
                if needed || maybe {
                    // nothing of a plugin that could not be downloaded; the last usable configuration may stay
                    if let Some(g) = got.iter().find(|g| !want.contains(g) && !usable.contains(g)) { return Err(format!("offers {g}")) }
                    if needed && got.iter().any(|g| *g == format!("{}.{}", conf.plugins[0].name, named(&conf.plugins[0], &conf.backend))) && must.contains(&conf.urls()[0]) { return Err(format!("offers {got:?}")) }
                    if k == 0 || got == want { usable = want }
                    perhaps.extend(conf.urls().into_iter().skip(1));
                    if maybe && !needed { perhaps.extend(conf.urls()) }
                    return Ok(())
                }
                if got != want { return Err(format!("offers {got:?} instead of {want:?}: {v}")) }
                judge_requests(&w.hub.requests(), &must, &may)?;
                for p in &conf.plugins { known.insert((p.clone(), conf.backend.clone())); urls.insert(p.url(&conf.backend)); }
                usable = want;
                Ok(())
            });
            ctx.trace();
            if let Err(e) = r {
                let shown: Vec<String> = task[..=i].iter().map(|s| format!("open with configuration {} ({})", steps[*s].0, kinds[steps[*s].1].0)).collect();
                ctx.violation(task.len(), &format!("{shown:?}"), format!("P19: language server: {shown:?}: {e}"), json!({"steps": shown, "configurations": confs.iter().map(|c| c.toml()).collect::<Vec<_>>()}));
                break;
            }
        }
        ctx.state(&format!("ls {task:?}"));
    }, |_| ());
    ctx.count("histories of the language server", tasks.len() as u64);
}

// ---------------------------------------------------------------- P20

struct Scenario { name: &'static str, args: Vec<&'static str>, conf: Conf, toml: String, cached: Vec<usize>, files: Vec<(&'static str, &'static [u8])> }

const ADDED: &str = "/o/new/releases/download/v1/new.wasm";

fn scenarios() -> Vec<Scenario> {
    let c = base_conf();
    let none = Conf { backend: "html".into(), plugins: vec![] };
    let docs: Vec<(&str, &[u8])> = vec![("docs/a.[]", b"[m.c x]\n\n{k.d y}"), ("docs/b.[]", b"a[m.c]\nb")];
    let add = vec!["add", "github:o/new@v1"];
    vec![
        Scenario { name: "first build", args: vec!["build"], conf: c.clone(), toml: c.toml(), cached: vec![], files: docs.clone() },
        Scenario { name: "later build", args: vec!["build"], conf: c.clone(), toml: c.toml(), cached: vec![0, 1], files: [docs.clone(), vec![("out/a.html", b"old, and longer than the new output will be, by far; old, and longer than the new output will be, by far; old, and longer than the new output will be, by far"), ("out/b.html", b""), ("out/c.html", b"kept")]].concat() },
        Scenario { name: "build with one new plugin", args: vec!["build"], conf: c.clone(), toml: c.toml(), cached: vec![1], files: [docs.clone(), vec![("out/a.html", b"old")]].concat() },
        Scenario { name: "build without plugins", args: vec!["build"], conf: none.clone(), toml: none.toml(), cached: vec![], files: vec![("docs/main.[]", b""), ("docs/a.[]", b"text")] },
        Scenario { name: "first plugin added", args: add.clone(), conf: none.clone(), toml: none.toml(), cached: vec![], files: vec![("docs/main.[]", b"x")] },
        Scenario { name: "another plugin added", args: add, conf: c.clone(), toml: c.toml().replace("version = \"1\"", "version = \"1\"\ntext_hook = false"), cached: vec![0], files: [docs, vec![("plugins/new.wasm", b"old")]].concat() },
    ]
}

pub fn config_of(dir: &Path) -> Result<Json, String> {
    let mut p = Project::new(dir);
    catch(|| p.load_brack_toml().map_err(|e| format!("{e:#}")))??;
    Ok(canon(&p.config))
}

/// Leftovers of an interrupted write that nothing uses.
pub fn leftover(k: &str) -> bool {
    let n = k.rsplit('/').next().unwrap_or("").to_lowercase();
    n.contains("tmp") || n.contains("temp") || n.contains("part") || n.starts_with('.') || n.ends_with('~')
}
fn same_state(want: &Tree, got: &Tree, dir: &Path, end_config: &Json) -> Result<(), String> {
    let c = config_of(dir).map_err(|e| format!("the configuration does not load: {e}"))?;
    if c != *end_config { return Err(format!("the configuration is {c} instead of {end_config}")) }
    for (k, v) in want {
        if k == "Brack.toml" { continue } // compared as loaded
        match got.get(k) { None => return Err(format!("{k} is missing")), Some(w) if w != v => return Err(format!("{k} is {w:?}, but should be {v:?}")), _ => () }
    }
    match got.keys().find(|k| !want.contains_key(*k) && !leftover(k) && !k.starts_with("plugins/")) { Some(k) => Err(format!("{k} is left over")), None => Ok(()) }
}

#[derive(Clone, Debug)]
struct Op { op: String, mutating: bool, size: usize, path: String }
fn read_log(path: &Path) -> Vec<Op> {
    std::fs::read_to_string(path).unwrap_or_default().lines().filter_map(|l| {
        let f: Vec<&str> = l.splitn(6, ' ').collect();
        Some(Op { op: f.get(1)?.to_string(), mutating: *f.get(2)? == "w", size: f.get(3)?.parse().ok()?, path: f.get(5)?.to_string() })
    }).collect()
}
/// What can go wrong at this operation: (part of the plan, kills)
fn faults(o: &Op, thorough: bool) -> Vec<(String, bool)> {
    let mut v: Vec<(String, bool)> = vec![];
    if o.mutating { v.push(("kill".into(), true)) }
    let errnos: &[i32] = match &o.op[..] {
        "create" => &[libc::EACCES, libc::ENOSPC, libc::EIO, libc::EMFILE, libc::EISDIR], "write" => &[libc::ENOSPC, libc::EIO, libc::EINTR], "open" => &[libc::EACCES, libc::EIO, libc::EMFILE, libc::EINTR],
        "rename" => &[libc::EIO, libc::EACCES, libc::ENOSPC, libc::EXDEV], "mkdir" => &[libc::ENOSPC, libc::EACCES, libc::EROFS], "sync" => &[libc::EIO, libc::ENOSPC], "read" => &[libc::EIO, libc::EINTR],
        "list" => &[libc::EACCES, libc::EMFILE], "stat" => &[libc::EACCES, libc::EIO], _ => &[libc::EIO],
    };
    for e in errnos { v.push((format!("fail:{e}"), false)) }
    if o.op == "write" {
        let n = o.size;
        let lens: BTreeSet<usize> = if thorough { (0..n).filter(|k| *k < 300 || k % 16 == 0 || k + 50 > n).chain([n]).collect() } else { [0, 1, 2, 7, n / 4, n / 2, n * 3 / 4, n.saturating_sub(2), n.saturating_sub(1), n].into_iter().chain((0..n).step_by((n / 24).max(1))).filter(|k| *k <= n).collect() };
        for l in lens { v.push((format!("torn:{l}"), true)); if l < n { v.push((format!("short:{l}:{}", libc::ENOSPC), false)) } }
    }
    if o.mutating { v.push((format!("full:{}", libc::ENOSPC), false)) }
    v
}

pub fn p20(ctx: &Ctx) -> i32 {
    let base = tmp_dir("p20");
    let all = scenarios();
    let ended: Mutex<BTreeMap<String, u64>> = Mutex::default();
    let script = |s: &Scenario| {
        let mut r = serving(&[&s.conf]);
        r.insert(ADDED.into(), Reply::Full(asset(ADDED)));
        r
    };
    // the state from which a scenario starts; it has what a build has cached
    let start = |w: &World, s: &Scenario| -> Tree {
        w.clear();
        if !s.cached.is_empty() {
            let part = Conf { plugins: s.cached.iter().map(|i| s.conf.plugins[*i].clone()).collect(), ..s.conf.clone() };
            w.configure(&part);
            w.hub.script(serving(&[&part]));
            let _ = w.build();
            let _ = std::fs::remove_dir_all(w.dir.join("out"));
        }
        w.set("Brack.toml", s.toml.as_bytes());
        for (n, c) in &s.files { w.set(n, c) }
        tree(&w.dir)
    };
    struct Ref { begin: Tree, end: Tree, before: Json, after: Json, ops: Vec<Op> }
    let shim = |hash: usize, plan: &str, log: &Path| vec![("BRACKMC_HASH", hash.to_string()), ("BRACKMC_ORDER", hash.to_string()), ("BRACKMC_PLAN", plan.to_string()), ("BRACKMC_LOG", log.display().to_string())];
    let hashes = if ctx.thorough { 4 } else { 2 };
    let mut refs: Vec<(usize, usize, Ref)> = vec![];
    {
        let w = World::new(&base);
        for (i, s) in all.iter().enumerate() { for hash in 0..hashes {
            let begin = start(&w, s);
            let before = config_of(&w.dir).unwrap();
            w.hub.script(script(s));
            let log = w.top.join("log");
            let _ = std::fs::remove_file(&log);
            let end = w.run(&s.args, &shim(hash, "", &log));
            let after = config_of(&w.dir).unwrap_or(Json::Null);
            if !end.ok() { ctx.violation(0, s.name, format!("P20: {}: without any fault: {}", s.name, end.describe()), json!({"scenario": s.name})) }
            refs.push((i, hash, Ref { begin, end: tree(&w.dir), before, after, ops: read_log(&log) }));
        } }
    }
    if refs.iter().any(|r| r.2.ops.is_empty()) { eprintln!("P20: no operation was recorded"); return 2 }
    // (reference, fault of the command, fault of its repetition)
    let mut tasks: Vec<(usize, String, bool, Option<usize>)> = vec![];
    for (r, (_, hash, x)) in refs.iter().enumerate() {
        for (k, o) in x.ops.iter().enumerate() {
            for (f, kills) in faults(o, ctx.thorough) {
                tasks.push((r, format!("{}:{f}", k + 1), kills, None));
                // crash again, at every operation of the repetition that changes something
                let second = kills && (f == "kill" || f.ends_with(&format!(":{}", o.size / 2))) && (*hash == 0 || ctx.thorough);
                if second { for j in 0..x.ops.len() + 8 { tasks.push((r, format!("{}:{f}", k + 1), kills, Some(j + 1))) } }
            }
        }
    }
    let judge = |w: &World, s: &Scenario, x: &Ref, end: &Ended, what: &str| -> Result<(), String> {
        let now = tree(&w.dir);
        if let Some(d) = difference(&within(&x.begin, "docs"), &within(&now, "docs")) { return Err(format!("{what}: a document changed: {d}")) }
        let c = config_of(&w.dir).map_err(|e| format!("{what}: the configuration cannot be loaded: {e}"))?;
        if c != x.before && c != x.after { return Err(format!("{what}: the configuration is neither the old nor the new one: {c}")) }
        if s.args[0] == "build" && now.get("Brack.toml") != x.begin.get("Brack.toml") { return Err(format!("{what}: the configuration was written")) }
        if matches!(end, Ended::Timeout) { return Err(format!("{what}: no end")) }
        if end.ok() { same_state(&x.end, &now, &w.dir, &x.after).map_err(|e| format!("{what}: reported as success, but {e}"))? }
        Ok(())
    };
    par(ctx, &tasks, || World::new(&base), |w, (r, plan, kills, again)| {
        ctx.leave();
        let (i, hash, x) = (&refs[*r].0, refs[*r].1, &refs[*r].2);
        let s = &all[*i];
        w.restore(&x.begin);
        w.hub.script(script(s));
        let log = w.top.join("log");
        let end = w.run(&s.args, &shim(hash, plan, &log));
        let n: usize = plan.split(':').next().unwrap().parse().unwrap();
        let o = &x.ops[n - 1];
        let what = format!("{} {} at {} {}", s.args[0], plan, o.op, o.path);
        let mut res = judge(w, s, x, &end, "afterwards");
        let mut label = format!("{}: {}", if *kills { "killed" } else { "failed operation" }, match &end { Ended::Signal(..) => "crash", e if e.ok() => "success", _ => "error" });
        if let (Ok(()), Some(j)) = (&res, again) {
            let end = w.run(&s.args, &shim(hash, &format!("{j}:kill"), &log));
            label = format!("killed twice: {}", match &end { Ended::Signal(..) => "crash", e if e.ok() => "success", _ => "error" });
            res = judge(w, s, x, &end, &format!("after a second crash at operation {j} of the repetition"));
        }
        if res.is_ok() {
            let done = config_of(&w.dir).ok() == Some(x.after.clone()) && x.before != x.after;
            let end = w.run(&s.args, &shim(hash, "", &log));
            if !end.ok() && !done { res = Err(format!("the repetition fails: {}", end.describe())) }
            if res.is_ok() { res = same_state(&x.end, &tree(&w.dir), &w.dir, &x.after).map_err(|e| format!("after the repetition: {e}")) }
        }
        *ended.lock().unwrap().entry(label).or_default() += 1;
        if let Err(e) = res {
            ctx.violation(1 + again.is_some() as usize, &format!("{} {plan}", s.name), format!("P20: {}, {what}{}: {e}", s.name, again.map(|j| format!(", then killed at operation {j}")).unwrap_or_default()),
                json!({"scenario": s.name, "plan": plan, "operation": format!("{o:?}"), "second": again, "operations": x.ops.iter().map(|o| format!("{} {}", o.op, o.path)).collect::<Vec<_>>()}));
        }
        ctx.state(&format!("{r} {plan} {again:?}"));
        ctx.trace();
    }, |_| ());
    for (k, v) in ended.into_inner().unwrap() { ctx.count(&k, v) }
    ctx.count("scenarios", refs.len() as u64);
    ctx.count("operations", refs.iter().map(|r| r.2.ops.len() as u64).sum());
    ctx.note("rule", json!("every operation on files of the project, as recorded in a run without faults, times: killed before it (if it changes something), torn writes of the listed lengths, failing with each listed error, short writes followed by failure, a full disk from here on; then repeated without fault, and after crashes also killed at each operation of the repetition"));
    if let Some((i, _, x)) = refs.first() { ctx.sample(json!({"scenario": all[*i].name, "operations": x.ops.iter().map(|o| format!("{} {} {}", o.op, o.path, o.size)).collect::<Vec<_>>()})) }
    if let Some((i, _, x)) = refs.iter().find(|r| all[r.0].args[0] == "add") { ctx.sample(json!({"scenario": all[*i].name, "operations": x.ops.iter().map(|o| format!("{} {} {}", o.op, o.path, o.size)).collect::<Vec<_>>()})) }
    let _ = std::fs::remove_dir_all(&base);
    ctx.finish("fault_enumeration", !ctx.stopped(), &["a crash is the death of the process: what the system has accepted stays", "operations are those of the C library on files below the project directory", "leftover temporary files are tolerated"])
}

// ---------------------------------------------------------------- P21

fn add(w: &World, spec: &str) -> Ended { w.run(&["add", "--", spec], &[]) }

#[derive(Debug, PartialEq)]
enum Spec { Good(String, String, String), Bad, /// not specified
    Either }
fn spec(s: &str) -> Spec {
    let Some((kind, rest)) = s.split_once(':') else { return Spec::Bad };
    if kind != "github" { return Spec::Bad }
    let Some((owner, rest)) = rest.split_once('/') else { return Spec::Bad };
    let Some((repo, version)) = rest.split_once('@') else { return Spec::Bad };
    if owner.is_empty() || repo.is_empty() || version.is_empty() { return Spec::Bad }
    if owner.contains(['@', ':']) || repo.contains(['/', ':']) { return Spec::Bad }
    // versions are tags, which may contain nearly anything; names of another form GitHub does not have, or rarely
    let plain = |x: &str| x.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_');
    if plain(owner) && repo.chars().all(|c| c.is_ascii_alphanumeric() || "-_.".contains(c)) && !repo.starts_with('.') && !repo.ends_with('.') && version.chars().all(|c| c.is_ascii_alphanumeric() || "-_.".contains(c)) && !version.starts_with('.') { Spec::Good(owner.into(), repo.into(), version.into()) } else { Spec::Either }
}

pub fn with_plugin(before: &Json, owner: &str, repo: &str, version: &str) -> Json {
    let mut c = before.clone();
    c["plugins"][repo] = json!({"owner": owner, "repo": repo, "version": version, "expr_hook": null, "stmt_hook": null, "document_hook": null, "text_hook": null});
    c
}

/// One addition, judged. The server answers any address with `reply`.
fn check_add(w: &World, s: &str, available: bool) -> Result<&'static str, String> {
    let before = tree(&w.dir);
    let config = config_of(&w.dir);
    let end = add(w, s);
    let now = tree(&w.dir);
    if matches!(end, Ended::Timeout | Ended::Signal(..)) || end.code() == 101 { return Err(end.describe()) }
    if let Some(d) = difference(&without(&before, &["Brack.toml", "plugins"]), &without(&now, &["Brack.toml", "plugins"])) { return Err(format!("something else changed: {d}")) }
    let unchanged = || if before.get("Brack.toml") == now.get("Brack.toml") { Ok(()) } else { Err(format!("the configuration was changed to {:?}", now.get("Brack.toml"))) };
    let extended = |o: &str, r: &str, v: &str| -> Result<(), String> {
        let (b, a) = (config.clone()?, config_of(&w.dir)?);
        let want = with_plugin(&b, o, r, v);
        // a module's name cannot contain a dot: for such repositories the name is the program's choice
        let named = |name: &str| { let mut c = want.clone(); let p = c["plugins"].as_object_mut().unwrap(); if let Some(x) = p.remove(r) { p.insert(name.into(), x); } c };
        let dotted = r.contains('.') && a["plugins"].as_object().is_some_and(|p| p.keys().any(|k| b["plugins"].get(k).is_none() && a == named(k)));
        if a != want && !dotted { return Err(format!("the configuration is {a} instead of {want}")) }
        let url = format!("/{o}/{r}/releases/download/{v}/{r}.wasm");
        if w.hub.requests() != [url.clone()] { return Err(format!("requested {:?} instead of {url}", w.hub.requests())) }
        let file = Entry::File(asset(&url));
        if !within(&now, "plugins").values().any(|v| *v == file) { return Err("the asset was not stored".into()) }
        Ok(())
    };
    let exists = |r: &str| config.as_ref().is_ok_and(|c| c["plugins"].get(r).is_some());
    match spec(s) {
        Spec::Good(o, r, v) if available && config.is_ok() && !exists(&r) => {
            if !end.ok() { return Err(format!("fails: {}", end.describe())) }
            extended(&o, &r, &v).map(|()| "added")
        }
        Spec::Either => { if !end.ok() { unchanged()? } Ok("not specified") }
        k => {
            if end.ok() { return Err(format!("succeeds, although {}", match k { Spec::Bad => "the specifier is malformed", _ if config.is_err() => "there is no project", _ if !available => "the download failed", _ => "the plugin exists" })) }
            unchanged().map(|()| "rejected")
        }
    }
}

pub fn p21(ctx: &Ctx) -> i32 {
    let t = |q: usize, th: usize| if ctx.thorough { th } else { q };
    let base = tmp_dir("p21");
    let labels: Mutex<BTreeMap<&'static str, u64>> = Mutex::default();
    let any = |s: &str| -> HashMap<String, Reply> {
        // the address a good specifier means
        match spec(s) { Spec::Good(o, r, v) => { let u = format!("/{o}/{r}/releases/download/{v}/{r}.wasm"); HashMap::from([(u.clone(), Reply::Full(asset(&u))), ("*".to_string(), Reply::Full(b"x".to_vec()))]) } _ => HashMap::from([("*".to_string(), Reply::Full(b"x".to_vec()))]) }
    };
    let strange = Conf { backend: "x\"\\\n".into(), plugins: vec![Plug { owner: "ö\"".into(), repo: "a/b".into(), version: "'".into(), hooks: [Some(true), Some(false), None, Some(true)], ..pl("m") }, Plug { hooks: [None, Some(true), Some(false), None], ..pl("a.b c") }] };
    let plain = Conf { backend: "html".into(), plugins: vec![] };
    // specifiers: everything near a good one
    let symbols = ["github", "gitlab", ":", "/", "@", "o", "r", "v", "", " ", "."];
    let good = ["github", ":", "o", "/", "r", "@", "v"];
    let near = |v: &Vec<&'static str>| -> Vec<Vec<&'static str>> {
        let mut out = vec![];
        for i in 0..v.len() {
            let mut w = v.clone(); w.remove(i); out.push(w);
            for s in symbols { let mut w = v.clone(); w[i] = s; out.push(w) }
            for j in 0..i { let mut w = v.clone(); w.swap(i, j); out.push(w) }
        }
        for i in 0..=v.len() { for s in symbols { let mut w = v.clone(); w.insert(i, s); out.push(w) } }
        out
    };
    let mut specs: BTreeSet<String> = BTreeSet::from(["".to_string(), good.concat()]);
    for a in near(&good.to_vec()) { for b in near(&a) { if ctx.thorough || b.len() <= 8 { specs.insert(b.concat()); } } specs.insert(a.concat()); }
    for o in ["o", "O-1", "a_b", "0"] { for r in ["r", "R-1_x", "repo-name", "1", "github", "r.js", "r.wasm", "r.git", "wasm", "git", "r.tar.gz", "a.b.c", "r-", "_r", "r_0", "r_0.wasm", "plugins", "html"] { for v in ["v", "1.2.3", "v1.0-rc.1", "2024_01", "github", "latest"] { specs.insert(format!("github:{o}/{r}@{v}")); } } }
    let specs: Vec<String> = specs.into_iter().collect();
    let note = |l: Result<&'static str, String>, what: String, rank: usize| match l {
        Ok(l) => *labels.lock().unwrap().entry(l).or_default() += 1,
        Err(e) => ctx.violation(rank, &what, format!("P21: {what}: {e}"), json!({"case": what})),
    };
    let parts: Vec<Vec<String>> = specs.chunks(50).map(|c| c.to_vec()).collect();
    par(ctx, &parts, || World::new(&base), |w, part| for s in part {
        if ctx.stopped() { return }
        ctx.leave();
        w.clear();
        w.configure(&plain);
        w.set("docs/a.[]", b"x");
        w.hub.script(any(s));
        let r = check_add(w, s, true);
        note(r, format!("adding {s:?}"), s.len());
        ctx.state(s);
        ctx.trace();
    }, |_| ());
    ctx.count("specifiers", specs.len() as u64);
    // projects, and how the download ends
    let kinds: Vec<(&str, Option<Reply>)> = {
        let a = asset("/o/new/releases/download/v1/new.wasm");
        let mut v: Vec<(&str, Option<Reply>)> = vec![("complete", Some(Reply::Full(a.clone()))), ("chunked", Some(Reply::Chunked(a.clone()))), ("nothing there", None)];
        v.extend(failing(&a).into_iter().chain(failing_whole()).map(|(n, r)| (n, Some(r))));
        for s in [301, 304, 400, 401, 410, 429, 451, 500, 502, 503, 599] { v.push(("an error status", Some(Reply::Status(s, a.clone())))) }
        for k in (0..a.len()).step_by(t(50, 5)) { v.push(("cut short", Some(Reply::Cut(a.clone(), k)))) }
        v
    };
    let tomls: Vec<(&str, Option<String>)> = vec![
        ("no project", None), ("a broken configuration", Some("[document".into())), ("an empty configuration", Some(String::new())), ("a configuration without plugins", Some(plain.toml())), ("an empty table of plugins", Some(plain.toml() + "\n[plugins]\n")),
        ("plugins with hooks and strange names", Some(strange.toml())), ("two plugins", Some(base_conf().toml())), ("the same plugin", Some(Conf { plugins: vec![pl("new"), pl("m")], ..base_conf() }.toml())), ("an invalid plugin", Some(plain.toml() + "[plugins.q]\nowner = \"x\"\n")),
        ("several authors", Some("[document]\nname = \"é\"\nversion = \"\"\nbackend = \"\"\nauthors = [\"a\", \"b <c@d>\", \"\"]\n[plugins]\n".into())),
    ];
    let shapes = ["", "plugins exist", "plugins is a file", "no docs", "the file exists"];
    let mut tasks = vec![];
    for k in 0..kinds.len() { for c in 0..tomls.len() { for s in 0..shapes.len() { if s < 2 || k < 3 { tasks.push((k, c, s)) } } } }
    par(ctx, &tasks, || World::new(&base), |w, (k, c, s)| {
        ctx.leave();
        w.clear();
        if let Some(x) = &tomls[*c].1 { w.set("Brack.toml", x.as_bytes()) }
        match s { 1 => w.set("plugins/m_0.wasm", b"x"), 2 => w.set("plugins", b"x"), 3 => { let _ = std::fs::remove_dir_all(w.dir.join("docs")); } 4 => w.set("plugins/new.wasm", b"old and long".repeat(2000).as_slice()), _ => () }
        let url = "/o/new/releases/download/v1/new.wasm";
        w.hub.script(kinds[*k].1.iter().map(|r| (url.to_string(), r.clone())).collect());
        let complete = kinds[*k].1.as_ref().is_some_and(|r| r.complete());
        let r = check_add(w, "github:o/new@v1", complete && *s != 2);
        note(r, format!("{}, {}, download: {}", tomls[*c].0, shapes[*s], kinds[*k].0), 3);
        ctx.state(&format!("{k} {c} {s}"));
        ctx.trace();
    }, |_| ());
    ctx.count("projects and downloads", tasks.len() as u64);
    // what is configured already stays: every setting of the hooks of one plugin, with some of another; names near the new one
    let of = |i: usize| -> [Option<bool>; 4] { std::array::from_fn(|h| [None, Some(true), Some(false)][i / 3usize.pow(h as u32) % 3]) };
    let mut configured: Vec<Conf> = vec![];
    for a in 0..81 { for b in [0, 1, 5, 40, 80, 14] { configured.push(Conf { plugins: vec![Plug { hooks: of(a), ..pl("m") }, Plug { hooks: of(b), ..pl("k") }], ..base_conf() }) } }
    for name in ["new", "New", "NEW", "ne", "new2", "new.x", "new.wasm", " new", "new ", "o/new", "github:o/new@v1", "n", "", "new-", "néw", "_new"] { for repo in ["new", "New", "x"] { for owner in ["o", "p"] { for version in ["v1", "v2"] {
        let p = Plug { name: name.into(), owner: owner.into(), repo: repo.into(), version: version.into(), hooks: [None; 4] };
        configured.push(Conf { plugins: vec![p.clone()], ..base_conf() });
        configured.push(Conf { plugins: vec![pl("m"), p, pl("k")], ..base_conf() });
    } } } }
    for n in 3..40usize { configured.push(Conf { plugins: (0..n).map(|i| Plug { hooks: of(i), ..pl(&format!("p{i}")) }).collect(), ..base_conf() }) }
    for text in ["", " ", "a b", "\u{0}", "\"", "'", "\n", "é", "𝒳", "[x]", "#", "\\", "a = 1", "\r\n", "\t", "'''", "\"\"\""] { for f in 0..5 {
        let mut c = Conf { plugins: vec![pl("m"), pl("k")], ..base_conf() };
        match f { 0 => c.backend = text.into(), 1 => c.plugins[0].owner = text.into(), 2 => c.plugins[0].repo = text.into(), 3 => c.plugins[0].version = text.into(), _ => c.plugins[0].name = text.into() }
        configured.push(c);
    } }
    par(ctx, &configured, || World::new(&base), |w, c| {
        ctx.leave();
        w.clear();
        // as a program writes it, so that every character is allowed
        let quote = |s: &str| serde_json::to_string(s).unwrap();
        let mut text = format!("[document]\nname = \"n\"\nversion = \"v\"\nbackend = {}\nauthors = [\"a\"]\n", quote(&c.backend));
        for p in &c.plugins {
            text += &format!("[plugins.{}]\nschema = \"github\"\nowner = {}\nrepo = {}\nversion = {}\n", quote(&p.name), quote(&p.owner), quote(&p.repo), quote(&p.version));
            for (k, h) in HOOK_KEYS.iter().zip(p.hooks) { if let Some(h) = h { text += &format!("{k} = {h}\n") } }
        }
        w.set("Brack.toml", text.as_bytes());
        let s = "github:o/new@v1";
        w.hub.script(any(s));
        let mut r = if config_of(&w.dir).is_err() { Err(format!("{text:?} does not load")) } else { check_add(w, s, true) };
        if r.is_ok() { w.hub.script(any(s)); r = check_add(w, s, true).map_err(|e| format!("again: {e}")) }
        note(r, format!("adding {s} to {c:?}"), 2);
        ctx.state(&format!("{c:?}"));
        ctx.trace();
    }, |_| ());
    ctx.count("configurations extended", configured.len() as u64);
    // sequences of additions
    let letters: [(&str, bool); 9] = [("github:o/r@v", true), ("github:o/s@v", true), ("github:p/r@w", true), ("github:o/t@v", false), ("gitlab:o/r@v", true), ("github:o/r", true), ("github:o/t@v", true), ("build", true), ("github:o/S@1.0", true)];
    let depth = t(3, 5);
    let seqs: Vec<Vec<usize>> = (0..letters.len().pow(depth as u32)).map(|mut x| (0..depth).map(|_| { let i = x % letters.len(); x /= letters.len(); i }).collect()).collect();
    par(ctx, &seqs, || World::new(&base), |w, q| {
        ctx.leave();
        w.clear();
        w.set("Brack.toml", format!("# a comment\n{}", Conf { plugins: vec![pl("m")], ..base_conf() }.toml()).as_bytes());
        w.set("docs/a.[]", b"[m.c x]");
        for (i, l) in q.iter().enumerate() {
            let (s, available) = letters[*l];
            let shown: Vec<&str> = q[..=i].iter().map(|l| letters[*l].0).collect();
            if s == "build" {
                // with every plugin that is configured now
                let conf = config_of(&w.dir);
                let Ok(c) = conf else { return note(Err("the configuration does not load".into()), format!("{shown:?}"), i) };
                let plugins = c["plugins"].as_object().unwrap().iter().map(|(n, p)| Plug { name: n.clone(), owner: p["owner"].as_str().unwrap().into(), repo: p["repo"].as_str().unwrap().into(), version: p["version"].as_str().unwrap().into(), hooks: [None; 4] }).collect();
                let conf = Conf { backend: "html".into(), plugins };
                w.hub.script(serving(&[&conf]));
                let before = tree(&w.dir);
                let end = w.build();
                let r = judge_build(&before, &tree(&w.dir), &end, &outputs(&docs_of(&w.dir), &conf));
                note(r.map(|_| "built"), format!("{shown:?}"), i);
            } else {
                w.hub.script(if available { any(s) } else { HashMap::new() });
                let r = check_add(w, s, available);
                note(r, format!("{shown:?}, available: {available}"), i);
            }
            ctx.trace();
        }
        ctx.state(&format!("{q:?}"));
        for x in q.windows(2) { ctx.transition(&format!("{x:?}")) }
    }, |_| ());
    ctx.count("sequences of additions and builds", seqs.len() as u64);
    for (k, v) in labels.into_inner().unwrap() { ctx.count(k, v) }
    ctx.sample(json!(specs.iter().step_by(specs.len() / 12).collect::<Vec<_>>()));
    let _ = std::fs::remove_dir_all(&base);
    ctx.finish("model_checking", !ctx.stopped(), &["owners and repositories consist of letters, digits, - and _; what else GitHub's names or tags may contain is not specified", "comments and unknown keys of the configuration are not considered configuration"])
}

// ---------------------------------------------------------------- P23

pub fn p23(ctx: &Ctx) -> i32 {
    let base = tmp_dir("p23");
    let chars = ["a", "\"", "\\", "'", "\n", ".", " ", "-", "é", "#", "[", "]", "=", "{", "$", "\t", "\u{1}", "𝒳", "\r", "\u{7f}", "0", "%", "\u{feff}", "~", "e\u{301}", "*"];
    let mut names: Vec<String> = vec![];
    let depth = if ctx.thorough { 4 } else { 3 };
    let mut layer = vec![String::new()];
    for _ in 0..depth {
        layer = layer.iter().flat_map(|n| chars.iter().map(move |c| format!("{n}{c}"))).collect();
        names.extend(layer.iter().cloned());
    }
    for n in ["'''", "\"\"\"", "a\"\nb = 1\n#", "name with spaces and more", "true", "1.0", "1979-05-27", "\\u0041", "[document]", "Brack.toml", "docs", "--name", "--help", "-n", "{}", "{name}", "\\", "C:\\x", "nul", "日本語のプロジェクト", "a=b", "inf", "..."] { names.push(n.into()) }
    for k in [1, 16, 31, 32, 63, 64, 127, 128, 200, 254, 255] { names.push("n".repeat(k)); names.push("\"".repeat(k)) }
    names.push("あ".repeat(85));
    names.retain(|n| n != "." && n != "..");
    names.sort_by_key(|n| (n.len(), n.clone()));
    names.dedup();
    let counts = [AtomicU64::new(0), AtomicU64::new(0)];
    par(ctx, &names, || World::new(&base), |w, name| {
        ctx.leave();
        let _ = std::fs::remove_dir_all(&w.dir);
        std::fs::create_dir_all(&w.dir).unwrap();
        w.set("another directory/Brack.toml", b"untouched");
        w.set("another file", b"also untouched");
        let before = tree(&w.dir);
        let long = name.len() % 2 == 0;
        let new = || if long { w.run(&[&format!("new"), &format!("--name={name}")], &[]) } else { w.run(&["new", &format!("-n{}{name}", if name.starts_with('=') { "=" } else { "" })], &[]) };
        let r = (|| {
            let end = new();
            if !end.ok() { return Err(format!("fails: {}", end.describe())) }
            let dir = w.dir.join(name);
            if std::fs::read(dir.join("docs/main.[]")).map_err(|e| format!("docs/main.[]: {e}"))? != b"" { return Err("the main document is not empty".into()) }
            let c = config_of(&dir).map_err(|e| format!("the configuration does not load: {e}"))?;
            if c["name"] != json!(name) { return Err(format!("the configuration carries the name {}", c["name"])) }
            let now = tree(&w.dir);
            for (k, v) in &before { if now.get(k) != Some(v) { return Err(format!("{k} was changed")) } }
            if let Some(k) = now.keys().find(|k| !before.contains_key(*k) && *k != name && !k.starts_with(&format!("{name}/"))) { return Err(format!("{k} was created")) }
            // again: nothing may change
            let end = new();
            if end.ok() { return Err("succeeds a second time".into()) }
            if let Some(d) = difference(&now, &tree(&w.dir)) { return Err(format!("a second time: {d}")) }
            // it can be built
            let end = run_limited(w.command(&["build"], &[]).current_dir(&dir), LIMIT);
            if !end.ok() { return Err(format!("the build fails: {}", end.describe())) }
            let out = format!("main.{}", c["backend"].as_str().unwrap_or("?"));
            if std::fs::read(dir.join("out").join(&out)).map_err(|e| format!("out/{out}: {e}"))? != b"" { return Err("the output of the empty document is not empty".into()) }
            Ok(())
        })();
        counts[0].fetch_add(1, Ordering::Relaxed);
        if let Err(e) = r { ctx.violation(name.len(), name, format!("P23: a project named {name:?}: {e}"), json!({"name": name})) }
        ctx.state(name);
        ctx.trace();
    }, |_| ());
    ctx.count("names", names.len() as u64);
    // something of that name exists
    let things = ["an empty directory", "a directory with a project", "a directory with a file", "a file", "an empty file", "a link to a directory", "a link to nothing", "a directory without write permission"];
    let mut tasks: Vec<(usize, &str)> = vec![];
    for t in 0..things.len() { for n in ["a", "\"", "x y", "あ", "a.b"] { tasks.push((t, n)) } }
    par(ctx, &tasks, || World::new(&base), |w, (t, name)| {
        ctx.leave();
        let _ = std::fs::remove_dir_all(&w.dir);
        std::fs::create_dir_all(&w.dir).unwrap();
        w.set("other/file", b"x");
        let p = w.dir.join(name);
        match t {
            0 | 7 => std::fs::create_dir(&p).unwrap(),
            1 => { w.set(&format!("{name}/Brack.toml"), base_conf().toml().as_bytes()); w.set(&format!("{name}/docs/main.[]"), b"precious"); w.set(&format!("{name}/.gitignore"), b"mine") }
            2 => w.set(&format!("{name}/x"), b"x"),
            3 => std::fs::write(&p, "precious").unwrap(),
            4 => std::fs::write(&p, "").unwrap(),
            5 => std::os::unix::fs::symlink("other", &p).unwrap(),
            _ => std::os::unix::fs::symlink("nowhere", &p).unwrap(),
        }
        let before = tree(&w.dir);
        let end = w.run(&["new", &format!("--name={name}")], &[]);
        let r = if end.ok() { Err("succeeds".to_string()) } else if matches!(end, Ended::Code(..)) { difference(&before, &tree(&w.dir)).map_or(Ok(()), Err) } else { Err(end.describe()) };
        counts[1].fetch_add(1, Ordering::Relaxed);
        if let Err(e) = r { ctx.violation(1, name, format!("P23: a project named {name:?} where {} of that name exists: {e}", things[*t]), json!({"name": name, "exists": things[*t]})) }
        ctx.state(&format!("{t} {name}"));
        ctx.trace();
    }, |_| ());
    ctx.count("existing things", counts[1].load(Ordering::Relaxed));
    // operations that fail, or the death of the process at them
    let fresh = |w: &World| { let _ = std::fs::remove_dir_all(&w.dir); w.set("other/Brack.toml", b"untouched"); w.set("other/docs/main.[]", b"also"); };
    let mut tasks: Vec<(&str, String, bool, Tree)> = vec![];
    {
        let w = World::new(&base);
        for name in ["a", "\"\\", "あ b"] {
            fresh(&w);
            let log = w.top.join("log");
            let _ = std::fs::remove_file(&log);
            let end = w.run(&["new", &format!("--name={name}")], &[("BRACKMC_PLAN", String::new()), ("BRACKMC_LOG", log.display().to_string())]);
            let ops = read_log(&log);
            if !end.ok() || ops.is_empty() { ctx.violation(1, name, format!("P23: a project named {name:?}: {}, {} operations", end.describe(), ops.len()), json!({"name": name})) }
            let whole = tree(&w.dir);
            for (k, o) in ops.iter().enumerate() { for (f, kills) in faults(o, ctx.thorough) { tasks.push((name, format!("{}:{f}", k + 1), kills, whole.clone())) } }
        }
    }
    let ended: Mutex<BTreeMap<String, u64>> = Mutex::default();
    par(ctx, &tasks, || World::new(&base), |w, (name, plan, kills, whole)| {
        ctx.leave();
        fresh(w);
        let before = tree(&w.dir);
        let log = w.top.join("log");
        let end = w.run(&["new", &format!("--name={name}")], &[("BRACKMC_PLAN", plan.clone()), ("BRACKMC_LOG", log.display().to_string())]);
        let now = tree(&w.dir);
        let rest: Tree = now.iter().filter(|(k, _)| *k != name && !k.starts_with(&format!("{name}/"))).map(|(k, v)| (k.clone(), v.clone())).collect();
        let r = if matches!(end, Ended::Timeout) { Err("no end".to_string()) }
            else if let Some(d) = difference(&before, &rest) { Err(format!("something else changed: {d}")) }
            else if end.ok() { difference(whole, &now).map_or(Ok(()), |d| Err(format!("reported as created, but {d}"))) } else { Ok(()) };
        *ended.lock().unwrap().entry(format!("{}: {}", if *kills { "killed" } else { "failed operation" }, match &end { Ended::Signal(..) => "crash", e if e.ok() => "success", _ => "error" })).or_default() += 1;
        if let Err(e) = r { ctx.violation(2, &format!("{name} {plan}"), format!("P23: creation of {name:?} with fault {plan}: {e}"), json!({"name": name, "plan": plan})) }
        ctx.state(&format!("{name} {plan}"));
        ctx.trace();
    }, |_| ());
    for (k, v) in ended.into_inner().unwrap() { ctx.count(&k, v) }
    ctx.sample(json!(names.iter().step_by(names.len() / 12).collect::<Vec<_>>()));
    let _ = std::fs::remove_dir_all(&base);
    ctx.finish("exploration", !ctx.stopped(), &["possible directory names are names Linux allows and the command line can carry (UTF-8)"])
}
