//! P25: two commands on one project at the same time. Every operation on the project's files waits
//! for its turn; the interleavings are enumerated up to a number of preemptions, and deaths.
use crate::common::*;
use crate::net::Reply;
use crate::proj::*;
use serde_json::{json, Value as Json};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::sync::Mutex;
use std::time::{Duration, Instant};

const LIMIT: Duration = Duration::from_secs(30);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cmd { Build, Add(&'static str, &'static str, &'static str), Server }
impl Cmd {
    fn shown(&self) -> String { match self { Cmd::Build => "build".into(), Cmd::Add(o, r, v) => format!("add github:{o}/{r}@{v}"), Cmd::Server => "language-server (a document is opened)".into() } }
    fn asset(&self) -> Option<String> { match self { Cmd::Add(o, r, v) => Some(format!("/{o}/{r}/releases/download/{v}/{r}.wasm")), _ => None } }
}

struct Scenario { name: &'static str, conf: Conf, cached: Vec<usize>, files: Vec<(&'static str, &'static [u8])>, cmds: [Cmd; 2] }

fn scenarios() -> Vec<Scenario> {
    let one = Conf { backend: "html".into(), plugins: vec![pl("m")] };
    let two = Conf { backend: "html".into(), plugins: vec![pl("m"), pl("k")] };
    let none = Conf { backend: "html".into(), plugins: vec![] };
    let docs: Vec<(&str, &[u8])> = vec![("docs/a.[]", b"[m.c x] y")];
    let both: Vec<(&str, &[u8])> = vec![("docs/a.[]", b"[m.c x]"), ("docs/b.[]", b"{k.d y}"), ("out/a.html", b"old, and longer than what is to come, by far; old, and longer than what is to come, by far; old, and longer than what is to come, by far")];
    let plain: Vec<(&str, &[u8])> = vec![("docs/a.[]", b"a\nb")];
    let new = Cmd::Add("o", "new", "v1");
    let s = |name, conf: &Conf, cached: &[usize], files: &[(&'static str, &'static [u8])], a, b| Scenario { name, conf: conf.clone(), cached: cached.to_vec(), files: files.to_vec(), cmds: [a, b] };
    vec![
        s("two first builds", &one, &[], &docs, Cmd::Build, Cmd::Build),
        s("two builds, one plugin there and one not", &two, &[1], &both, Cmd::Build, Cmd::Build),
        s("two builds, everything there", &two, &[0, 1], &both, Cmd::Build, Cmd::Build),
        s("two builds without plugins", &none, &[], &plain, Cmd::Build, Cmd::Build),
        s("a build and a document opened", &one, &[], &docs, Cmd::Build, Cmd::Server),
        s("two documents opened", &two, &[], &both, Cmd::Server, Cmd::Server),
        s("a build and an addition", &one, &[], &docs, Cmd::Build, new),
        s("a build and an addition, everything there", &one, &[0], &docs, Cmd::Build, new),
        s("a document opened and an addition", &one, &[], &docs, Cmd::Server, new),
        s("two additions", &one, &[0], &docs, new, Cmd::Add("p", "other", "v2")),
        s("two additions of the same plugin", &none, &[], &plain, new, new),
    ]
}

/// What a command waits to do.
#[derive(Clone, Debug)]
struct Op { mutating: bool, op: String, path: String }

enum At { Running, Waiting(Op), Ended(Ended) }
struct Proc { child: std::process::Child, says: std::fs::File, go: std::fs::File, buf: Vec<u8>, at: At }

fn pipe() -> (std::fs::File, std::fs::File) {
    let mut f = [0; 2];
    assert_eq!(unsafe { libc::pipe2(f.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
    unsafe { (std::fs::File::from_raw_fd(f[0]), std::fs::File::from_raw_fd(f[1])) }
}

impl Proc {
    fn start(w: &World, args: &[String], input: &[u8], hash: usize) -> Proc {
        let args: Vec<&str> = args.iter().map(|a| &a[..]).collect();
        let mut c = w.command(&args, &[("BRACKMC_SCHED", "1".into()), ("BRACKMC_HASH", hash.to_string()), ("BRACKMC_ORDER", "0".into())]);
        let ((says, say), (wait, go)) = (pipe(), pipe());
        let (a, b) = (say.as_raw_fd(), wait.as_raw_fd());
        unsafe { c.pre_exec(move || { if libc::dup2(a, 200) < 0 || libc::dup2(b, 201) < 0 { return Err(std::io::Error::last_os_error()) } Ok(()) }); }
        let path = w.top.join(format!("io{}", seq()));
        // files, so that nothing waits for being read; they are not below the project
        let out = std::fs::File::create(path.with_extension("out")).unwrap();
        let err = std::fs::File::create(path.with_extension("err")).unwrap();
        std::fs::write(path.with_extension("in"), input).unwrap();
        let child = c.stdin(std::fs::File::open(path.with_extension("in")).unwrap()).stdout(out).stderr(err).spawn().expect("spawn");
        Proc { child, says, go, buf: path.to_string_lossy().into_owned().into_bytes(), at: At::Running }
    }
    fn ended(&mut self) -> Ended {
        let path = Path::new(std::str::from_utf8(&self.buf).unwrap()).to_path_buf();
        let begin = Instant::now();
        let status = loop {
            match self.child.try_wait() {
                Ok(Some(s)) => break s,
                _ if begin.elapsed() > LIMIT => { let _ = self.child.kill(); let _ = self.child.wait(); return Ended::Timeout }
                _ => std::thread::sleep(Duration::from_micros(300)),
            }
        };
        let read = |e: &str| { let p = path.with_extension(e); let t = std::fs::read(&p).unwrap_or_default(); let _ = std::fs::remove_file(p); String::from_utf8_lossy(&t).into_owned() };
        let (out, err) = (read("out"), read("err"));
        let _ = std::fs::remove_file(path.with_extension("in"));
        match status.code() { Some(c) => Ended::Code(c, out, err), None => Ended::Signal(status.signal().unwrap_or(0), err) }
    }
    /// Until it waits for its next turn or ends.
    fn arrive(&mut self) {
        if !matches!(self.at, At::Running) { return }
        let mut line = vec![];
        loop {
            let mut p = libc::pollfd { fd: self.says.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, LIMIT.as_millis() as i32) } <= 0 { let _ = self.child.kill(); let _ = self.child.wait(); self.at = At::Ended(Ended::Timeout); return }
            let mut b = [0];
            match self.says.read(&mut b) {
                Ok(1) if b[0] == b'\n' => break,
                Ok(1) => line.push(b[0]),
                _ => { let e = self.ended(); self.at = At::Ended(e); return }
            }
        }
        let line = String::from_utf8_lossy(&line).into_owned();
        let f: Vec<&str> = line.splitn(3, ' ').collect();
        self.at = At::Waiting(Op { mutating: f[0] == "w", op: f.get(1).unwrap_or(&"").to_string(), path: f.get(2).unwrap_or(&"").to_string() });
    }
    fn grant(&mut self) { self.at = At::Running; let _ = self.go.write_all(b"g"); }
    fn kill(&mut self) { let _ = self.child.kill(); let _ = self.go.write_all(b"g"); let e = self.ended(); self.at = At::Ended(e); }
    fn live(&self) -> bool { !matches!(self.at, At::Ended(_)) }
}
impl Drop for Proc { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

/// Which one begins; before which steps the other one takes over; before which one the running one dies.
#[derive(Clone, Debug, Default)]
struct Schedule { first: usize, switches: Vec<usize>, kill: Option<usize> }

struct Expected { begin: Tree, config: Json, finals: BTreeMap<String, Vec<u8>>, outputs: BTreeMap<String, Result<String, String>> }

fn input(w: &World, c: &Cmd) -> (Vec<String>, Vec<u8>) {
    let args = match c { Cmd::Build => vec!["build".to_string()], Cmd::Add(o, r, v) => vec!["add".into(), format!("github:{o}/{r}@{v}")], Cmd::Server => vec!["language-server".into()] };
    let mut v = vec![];
    if *c == Cmd::Server {
        let u = crate::lsp::uri(&w.dir.join("docs/a.[]"));
        for m in [
            json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": u, "languageId": "b", "version": 1, "text": ""}}}),
            json!({"jsonrpc": "2.0", "id": 1, "method": "textDocument/completion", "params": {"textDocument": {"uri": u}, "position": {"line": 0, "character": 1}, "context": {"triggerKind": 2, "triggerCharacter": "["}}}),
        ] { v.extend(crate::lsp::frame(m.to_string().as_bytes())) }
    }
    (args, v)
}

/// The labels in the answer to the completion request.
fn answered(out: &str) -> Result<BTreeSet<String>, String> {
    let mut rest = out;
    while let Some(i) = rest.find("\r\n\r\n") {
        let n: usize = rest[..i].lines().find_map(|l| l.strip_prefix("Content-Length: ")).and_then(|x| x.parse().ok()).ok_or("no length")?;
        let body = rest.get(i + 4..i + 4 + n).ok_or("cut short")?;
        let v: Json = serde_json::from_str(body).map_err(|e| e.to_string())?;
        if v["id"] == json!(1) {
            let items = v["result"].as_array().or(v["result"]["items"].as_array()).ok_or(format!("answered by {v}"))?;
            return Ok(items.iter().map(|i| i["label"].as_str().unwrap_or("").to_string()).collect())
        }
        rest = &rest[i + 4 + n..];
    }
    Err(format!("no answer: {out:?}"))
}

/// Configurations that may be there: with any of the additions.
fn allowed(x: &Expected, s: &Scenario) -> Vec<Json> {
    let mut v = vec![x.config.clone()];
    for c in &s.cmds { if let Cmd::Add(o, r, ver) = c { for k in v.clone() { v.push(with_plugin(&k, o, r, ver)) } } }
    v
}

/// What must hold at every moment.
fn invariant(w: &World, s: &Scenario, x: &Expected) -> Result<Json, String> {
    let config = config_of(&w.dir).map_err(|e| format!("the configuration cannot be loaded: {e}"))?;
    if !allowed(x, s).contains(&config) { return Err(format!("the configuration is {config}")) }
    for (name, want) in &x.finals {
        if let Ok(b) = std::fs::read(w.dir.join(name)) { if b != *want { return Err(format!("{name} has {} of {} bytes{}", b.len(), want.len(), if want.starts_with(&b) { "" } else { ", and others" })) } }
    }
    Ok(config)
}

struct Run { steps: usize, /// a step, whether the other one could have gone on, whether it changes something
    points: Vec<(usize, bool, bool)>, shown: Vec<String>, result: Result<&'static str, String> }

fn run(w: &World, s: &Scenario, x: &Expected, plan: &Schedule) -> Run {
    w.restore(&x.begin);
    let mut replies = serving(&[&s.conf]);
    for c in &s.cmds { if let Some(u) = c.asset() { replies.insert(u.clone(), Reply::Full(asset(&u))); } if let Cmd::Add(o, r, v) = c {
        let p = Conf { backend: s.conf.backend.clone(), plugins: vec![Plug { name: r.to_string(), owner: o.to_string(), repo: r.to_string(), version: v.to_string(), hooks: [None; 4] }] };
        replies.extend(serving(&[&p]));
    } }
    w.hub.script(replies.clone());
    let mut procs: Vec<Proc> = s.cmds.iter().enumerate().map(|(i, c)| { let (a, v) = input(w, c); Proc::start(w, &a, &v, i) }).collect();
    let (mut me, mut step, mut killed) = (plan.first, 0, None);
    let (mut points, mut shown) = (vec![], vec![]);
    let mut result = Ok("");
    loop {
        for p in &mut procs { p.arrive() }
        if let Err(e) = invariant(w, s, x) { result = Err(format!("in between: {e}")); break }
        if !procs.iter().any(|p| p.live()) { break }
        if !procs[me].live() { me = 1 - me }
        else {
            if procs[1 - me].live() && plan.switches.contains(&step) { me = 1 - me }
            if plan.kill == Some(step) { shown.push(format!("{}: dies", me + 1)); procs[me].kill(); killed = Some(me); step += 1; continue }
        }
        if let At::Waiting(o) = &procs[me].at {
            points.push((step, procs[1 - me].live(), o.mutating));
            shown.push(format!("{}: {} {}", me + 1, o.op, o.path));
        }
        procs[me].grant();
        step += 1;
    }
    if result.is_ok() { result = finish(w, s, x, &procs, killed, replies) }
    Run { steps: step, points, shown, result }
}

fn finish(w: &World, s: &Scenario, x: &Expected, procs: &[Proc], killed: Option<usize>, replies: HashMap<String, Reply>) -> Result<&'static str, String> {
    let ends: Vec<&Ended> = procs.iter().map(|p| match &p.at { At::Ended(e) => e, _ => unreachable!() }).collect();
    let now = tree(&w.dir);
    if let Some(d) = difference(&without(&x.begin, &["out", "plugins", "Brack.toml"]), &without(&now, &["out", "plugins", "Brack.toml"]).into_iter().filter(|(k, _)| !leftover(k)).collect()) { return Err(format!("something else changed: {d}")) }
    let same = s.cmds[0] == s.cmds[1] && s.cmds[0].asset().is_some();
    for (i, (c, e)) in s.cmds.iter().zip(&ends).enumerate() {
        if killed == Some(i) { continue }
        let who = format!("command {} ({})", i + 1, c.shown());
        if matches!(e, Ended::Timeout | Ended::Signal(..)) || e.code() == 101 { return Err(format!("{who}: {}", e.describe())) }
        // one of two additions of the same plugin may find it there
        if !e.ok() && !(same && (killed.is_some() || ends[1 - i].ok())) { return Err(format!("{who} fails: {}", e.describe())) }
        if *c == Cmd::Server {
            let got = answered(e.out()).map_err(|m| format!("{who}: {m}"))?;
            let want = |names: Vec<&str>| -> BTreeSet<String> { names.iter().flat_map(|n| ["c", "f", "n", "text", "expr"].map(|k| format!("{n}.{k}"))).collect() };
            let names: Vec<&str> = s.conf.plugins.iter().map(|p| &p.name[..]).collect();
            let more: Vec<&str> = s.cmds.iter().filter_map(|c| match c { Cmd::Add(_, r, _) => Some(*r), _ => None }).collect();
            if got != want(names.clone()) && (more.is_empty() || got != want([names, more].concat())) { return Err(format!("{who} offers {got:?}")) }
        }
    }
    let config = config_of(&w.dir)?;
    let added: Vec<bool> = s.cmds.iter().map(|c| match c { Cmd::Add(_, r, _) => config["plugins"].get(r).is_some(), _ => false }).collect();
    if s.cmds.iter().zip(&ends).any(|(c, e)| c.asset().is_some() && e.ok()) && !added.contains(&true) { return Err("no addition is in the configuration".into()) }
    for (i, c) in s.cmds.iter().enumerate() { if let Some(u) = c.asset() { if ends[i].ok() && !within(&now, "plugins").values().any(|v| *v == Entry::File(asset(&u))) { return Err(format!("the asset of {} was not stored", c.shown())) } } }
    let built = s.cmds.iter().enumerate().any(|(i, c)| *c == Cmd::Build && ends[i].ok() && killed != Some(i));
    if built && killed.is_none() { for (k, v) in &x.outputs { match (now.get(k), v) { (Some(e), Ok(want)) if same_file(e, want) => (), (got, _) => return Err(format!("{k} is {got:?} instead of {v:?}")) } } }
    // everything is there for a later build; without the server if a command completed that needs the plugins
    let loaded = s.cmds.iter().enumerate().any(|(i, c)| matches!(c, Cmd::Build | Cmd::Server) && ends[i].ok() && killed != Some(i));
    let needed: Vec<String> = s.conf.urls();
    w.hub.script(replies.into_iter().filter(|(k, _)| !loaded || !needed.contains(k)).collect());
    let end = w.run(&["build"], &[]);
    if !end.ok() { return Err(format!("a later build fails: {}", end.describe())) }
    let now = tree(&w.dir);
    for (k, v) in &x.outputs { match (now.get(k), v) { (Some(e), Ok(want)) if same_file(e, want) => (), (got, _) => return Err(format!("after a later build, {k} is {got:?} instead of {v:?}")) } }
    invariant(w, s, x).map_err(|e| format!("after a later build: {e}"))?;
    Ok(if killed.is_some() { "one died" } else if added == [true, true] && s.cmds[0].asset().is_some() { "both additions stay" } else if s.cmds.iter().all(|c| c.asset().is_some()) && !same { "the later addition replaces the other" } else { "both completed" })
}

pub fn p25(ctx: &Ctx) -> i32 {
    let base = tmp_dir("p25");
    let all = scenarios();
    let mut expected: Vec<Expected> = vec![];
    {
        let w = World::new(&base);
        for s in &all {
            let prepare = || -> Tree {
                w.clear();
                if !s.cached.is_empty() {
                    let part = Conf { plugins: s.cached.iter().map(|i| s.conf.plugins[*i].clone()).collect(), ..s.conf.clone() };
                    w.configure(&part);
                    w.hub.script(serving(&[&part]));
                    let _ = w.build();
                    let _ = std::fs::remove_dir_all(w.dir.join("out"));
                }
                w.configure(&s.conf);
                for (n, c) in &s.files { w.set(n, c) }
                tree(&w.dir)
            };
            let begin = prepare();
            // where plugins end up when nothing disturbs
            let mut finals = BTreeMap::new();
            for c in [Some(Cmd::Build), Some(s.cmds[0]), Some(s.cmds[1])].into_iter().flatten() {
                w.restore(&begin);
                let mut replies = serving(&[&s.conf]);
                if let Some(u) = c.asset() { replies.insert(u.clone(), Reply::Full(asset(&u))); }
                w.hub.script(replies);
                if c != Cmd::Server { let (a, _) = input(&w, &c); let _ = w.run(&a.iter().map(|x| &x[..]).collect::<Vec<_>>(), &[]); }
                for (k, v) in within(&tree(&w.dir), "plugins") { if let Entry::File(b) = v { if !leftover(&k) { finals.insert(k, b); } } }
            }
            w.restore(&begin);
            let docs = docs_of(&w.dir);
            expected.push(Expected { config: config_of(&w.dir).unwrap(), finals, outputs: outputs(&docs, &s.conf), begin });
        }
    }
    let depth = if ctx.thorough { 4 } else { 2 };
    let ends: Mutex<BTreeMap<String, u64>> = Mutex::default();
    let longest = Mutex::new(0);
    let mut level: Vec<(usize, Schedule)> = (0..all.len()).flat_map(|i| (0..2).map(move |first| (i, Schedule { first, ..Schedule::default() }))).collect();
    for d in 0..=depth {
        let next: Mutex<Vec<(usize, Schedule)>> = Mutex::default();
        par(ctx, &level, || World::new(&base), |w, (i, plan)| {
            ctx.leave();
            let s = &all[*i];
            let r = run(w, s, &expected[*i], plan);
            { let mut l = longest.lock().unwrap(); *l = r.steps.max(*l); }
            match &r.result {
                Ok(l) => *ends.lock().unwrap().entry(format!("{}: {l}", s.name)).or_default() += 1,
                Err(e) => {
                    let rank = plan.switches.len() + plan.kill.is_some() as usize;
                    ctx.violation(rank, &format!("{} {plan:?}", s.name), format!("P25: {}: 1 = {}, 2 = {}; {}: {e}", s.name, s.cmds[0].shown(), s.cmds[1].shown(), r.shown.join(", ")), json!({"scenario": s.name, "schedule": r.shown, "plan": format!("{plan:?}")}));
                }
            }
            ctx.state(&format!("{i} {:?}", r.shown));
            for o in r.shown.windows(2) { ctx.transition(&format!("{i} {o:?}")) }
            ctx.trace();
            if plan.kill.is_some() { return }
            let last = plan.switches.last().map_or(0, |l| l + 1);
            let mut n = next.lock().unwrap();
            if d == depth { return }
            for (p, both, mutating) in &r.points {
                if *p < last { continue }
                if *both && *p > 0 { n.push((*i, Schedule { switches: [plan.switches.clone(), vec![*p]].concat(), ..plan.clone() })) }
                // dying before reading is dying before the next change
                if *mutating { n.push((*i, Schedule { kill: Some(*p), ..plan.clone() })) }
            }
        }, |_| ());
        ctx.count(&format!("schedules with {d} preemptions or deaths"), level.len() as u64);
        if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("{d}: {} schedules, {:.1} s", level.len(), ctx.start.elapsed().as_secs_f64()) }
        if ctx.stopped() { break }
        level = next.into_inner().unwrap();
    }
    for (k, v) in ends.into_inner().unwrap() { ctx.count(&k, v) }
    ctx.count("operations of the longest schedule", longest.into_inner().unwrap() as u64);
    ctx.note("scenarios", json!(all.iter().map(|s| format!("{}: {} and {}", s.name, s.cmds[0].shown(), s.cmds[1].shown())).collect::<Vec<_>>()));
    let _ = std::fs::remove_dir_all(&base);
    ctx.finish("model_checking", !ctx.stopped(), &["operations are those of the C library on files below the project directory; each is atomic, and reading documents is not interleaved", "of two different additions at the same time only one may stay: brack does not lock the configuration", "a death is that of the process, between two operations"])
}
