//! P12 - P17: the language server, as a process, over its standard input and output.
use crate::back;
use crate::common::*;
use crate::docs::*;
use crate::front;
use crate::plug::{self, Body};
use brack_project_manager::plugin::PluginSchema;
use serde_json::{json, Value as Json};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Only reached when something is wrong.
const LIMIT: Duration = Duration::from_secs(30);

pub fn frame(body: &[u8]) -> Vec<u8> {
    let mut v = format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes();
    v.extend(body);
    v
}
pub fn msg(v: &Json) -> Vec<u8> { frame(v.to_string().as_bytes()) }

#[derive(Debug, Clone, PartialEq)]
pub enum Event { Message(Json), Broken(String), End }

pub struct Ls { pub child: Child, stdin: Option<ChildStdin>, events: mpsc::Receiver<Event>, over: bool }

/// Takes complete, strictly well-formed messages from what the server wrote.
fn frames(buf: &mut Vec<u8>, send: &mut dyn FnMut(Event)) {
    loop {
        let Some(h) = buf.windows(4).position(|w| w == b"\r\n\r\n") else {
            if buf.len() > 4096 { send(Event::Broken(format!("no header in {:?}", String::from_utf8_lossy(&buf[..200])))); buf.clear() }
            return;
        };
        let head = String::from_utf8_lossy(&buf[..h]).into_owned();
        let n = head.strip_prefix("Content-Length: ").and_then(|n| n.parse::<usize>().ok());
        let Some(n) = n else { send(Event::Broken(format!("header {head:?}"))); buf.drain(..h + 4); continue };
        if buf.len() < h + 4 + n { return }
        let body = buf[h + 4..h + 4 + n].to_vec();
        buf.drain(..h + 4 + n);
        match serde_json::from_slice::<Json>(&body) {
            Ok(v) => send(Event::Message(v)),
            Err(e) => send(Event::Broken(format!("body {:?}: {e}", String::from_utf8_lossy(&body)))),
        }
    }
}

impl Ls {
    pub fn start(dir: &Path) -> Ls { Ls::start_with(dir, &[]) }
    pub fn start_with(dir: &Path, env: &[(&str, String)]) -> Ls {
        let mut c = Command::new(back::brack());
        c.arg("language-server").current_dir(dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null())
            .env("HTTPS_PROXY", "http://127.0.0.1:1").env("https_proxy", "http://127.0.0.1:1").env_remove("NO_PROXY").env_remove("no_proxy");
        for (k, v) in env { c.env(k, v); }
        let mut child = c.spawn().expect("spawn");
        let stdin = child.stdin.take();
        let mut out = child.stdout.take().unwrap();
        let (tx, events) = mpsc::channel();
        std::thread::spawn(move || {
            let mut buf = vec![];
            let mut chunk = [0; 65536];
            loop {
                match out.read(&mut chunk) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => buf.extend(&chunk[..n]),
                }
                frames(&mut buf, &mut |e| { let _ = tx.send(e); });
            }
            if !buf.is_empty() { let _ = tx.send(Event::Broken(format!("incomplete message {:?}", String::from_utf8_lossy(&buf)))); }
            let _ = tx.send(Event::End);
        });
        Ls { child, stdin, events, over: false }
    }
    pub fn write(&mut self, bytes: &[u8]) -> bool { self.stdin.as_mut().is_some_and(|s| s.write_all(bytes).and_then(|_| s.flush()).is_ok()) }
    /// Waits until the server has read everything written so far.
    pub fn consumed(&mut self) -> bool {
        let fd = self.stdin.as_ref().unwrap().as_raw_fd();
        let begin = Instant::now();
        let mut spins = 0u32;
        loop {
            let mut n: libc::c_int = 0;
            if unsafe { libc::ioctl(fd, libc::FIONREAD, &mut n) } != 0 { return false }
            if n == 0 { return true }
            if begin.elapsed() > LIMIT { return false }
            spins += 1;
            if spins < 50 { std::thread::yield_now() } else {
                if spins % 100 == 0 && matches!(self.child.try_wait(), Ok(Some(_))) { return false }
                std::thread::sleep(Duration::from_micros(20))
            }
        }
    }
    pub fn next(&mut self) -> Event {
        if self.over { return Event::End }
        match self.events.recv_timeout(LIMIT) {
            Ok(Event::End) => { self.over = true; Event::End }
            Ok(e) => e,
            Err(_) => Event::Broken(format!("no answer within {} s", LIMIT.as_secs())),
        }
    }
    pub fn pending(&mut self) -> Option<Event> { self.events.try_recv().ok() }
    pub fn close(&mut self) { self.stdin = None }
    /// Everything up to the end of the output.
    pub fn rest(&mut self) -> Vec<Event> {
        let mut v = vec![];
        loop {
            match self.next() {
                Event::End => break,
                e => { let stop = matches!(&e, Event::Broken(b) if b.starts_with("no answer")); v.push(e); if stop { break } }
            }
        }
        v
    }
    /// Reads up to the response with this id; what came before it.
    pub fn until(&mut self, id: &Json) -> Result<(Vec<Json>, Json), String> {
        let mut before = vec![];
        loop {
            match self.next() {
                Event::Message(v) if v.get("method").is_none() && v.get("id") == Some(id) => return Ok((before, v)),
                Event::Message(v) => before.push(v),
                Event::Broken(e) => return Err(e),
                Event::End => return Err(format!("the server ended ({})", self.child.wait().map(|s| s.to_string()).unwrap_or_default())),
            }
        }
    }
}
impl Drop for Ls { fn drop(&mut self) { self.stdin = None; let _ = self.child.kill(); let _ = self.child.wait(); } }

fn request(id: Json, method: &str, params: Json) -> Json { json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}) }
fn notification(method: &str, params: Json) -> Json { json!({"jsonrpc": "2.0", "method": method, "params": params}) }
fn initialize(id: Json, announce: bool) -> Json {
    let caps = if announce { json!({"textDocument": {"publishDiagnostics": {}}}) } else { json!({}) };
    request(id, "initialize", json!({"processId": null, "rootUri": null, "capabilities": caps}))
}
pub fn uri(path: &Path) -> String {
    let mut s = "file://".to_string();
    for b in path.to_str().unwrap().bytes() {
        if b.is_ascii_alphanumeric() || b"/-._~".contains(&b) { s.push(b as char) } else { s += &format!("%{b:02X}") }
    }
    s
}
fn doc_item(uri: &str) -> Json { json!({"uri": uri, "languageId": "brack", "version": 1, "text": ""}) }
fn open(uri: &str) -> Json { notification("textDocument/didOpen", json!({"textDocument": doc_item(uri)})) }
fn save(uri: &str) -> Json { notification("textDocument/didSave", json!({"textDocument": {"uri": uri}})) }
fn tokens(id: Json, uri: &str) -> Json { request(id, "textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri}})) }
fn completion(id: Json, uri: &str, trigger: Option<&str>) -> Json {
    let ctx = match trigger { Some(t) => json!({"triggerKind": 2, "triggerCharacter": t}), None => json!({"triggerKind": 1}) };
    request(id, "textDocument/completion", json!({"textDocument": {"uri": uri}, "position": {"line": 0, "character": 0}, "context": ctx}))
}

// ---------------------------------------------------------------- P12

struct Stream { name: String, /// each message, framed, and how many messages the server writes for it
    messages: Vec<(Vec<u8>, usize)>, expected: Vec<Json> }

/// What the server answers when every message arrives in one piece, alone.
fn baseline(dir: &Path, name: &str, messages: Vec<Vec<u8>>, answered: usize) -> Result<Stream, String> {
    let mut ls = Ls::start(dir);
    let mut out = vec![];
    let mut expected = vec![];
    for (i, m) in messages.into_iter().enumerate() {
        let id = json!(format!("sync {i}"));
        if !(ls.write(&m) && ls.consumed() && ls.write(&msg(&request(id.clone(), "nothing", json!({}))))) { return Err(format!("{name}: the server does not read")) }
        let (before, _) = ls.until(&id)?;
        out.push((m, before.len()));
        expected.extend(before);
    }
    if expected.len() < answered { return Err(format!("{name}: {answered} messages must be answered, got {expected:?}")) }
    Ok(Stream { name: name.into(), messages: out, expected })
}

/// Sends the stream cut at these places; each piece is read by the server before the next is written.
fn split_run(ls: &mut Ls, s: &Stream, cuts: &[usize]) -> Result<(), String> {
    let bytes: Vec<u8> = s.messages.iter().flat_map(|(m, _)| m.iter().copied()).collect();
    let mut ends = vec![]; // (end of message, messages the server has written by then)
    let (mut at, mut n) = (0, 0);
    for (m, k) in &s.messages { at += m.len(); n += k; ends.push((at, n)) }
    let mut from = 0;
    let mut got = 0;
    for to in cuts.iter().copied().chain([bytes.len()]) {
        if !ls.write(&bytes[from..to]) || !ls.consumed() { return Err("the server stopped reading".into()) }
        from = to;
        let due = ends.iter().filter(|(e, _)| *e <= to).map(|(_, n)| *n).max().unwrap_or(0);
        while got < due {
            match ls.next() {
                Event::Message(v) if v == s.expected[got] => got += 1,
                e => return Err(format!("after {to} bytes {} was due, but: {e:?}", s.expected[got])),
            }
        }
    }
    if let Some(e) = ls.pending() { return Err(format!("one message too many: {e:?}")) }
    Ok(())
}

pub fn p12(ctx: &Ctx) -> i32 {
    let dir = tmp_dir("p12");
    let doc = dir.join("a.[]");
    std::fs::write(&doc, "[m.c 𝒳]\né {n.d x}").unwrap();
    let u = uri(&doc);
    let unknown = |id: Json| msg(&request(id, "a/é🏳️‍🌈", json!({})));
    let head = |h: &str, body: &str| { let mut v = h.replace("@", &body.len().to_string()).into_bytes(); v.extend(body.as_bytes()); v };
    let body = |id: &str| format!(r#"{{"id":"{id}","method":"é"}}"#);
    let streams: Vec<(&str, Vec<Vec<u8>>, usize, usize)> = vec![
        // (name, messages, of which answered, cuts at once)
        ("two short requests", vec![head("Content-Length: @\r\n\r\n", &body("あ")), head("Content-Length: @\r\n\r\n", &body("2"))], 2, 2),
        ("kinds of messages", vec![msg(&initialize(json!(1), true)), msg(&notification("initialized", json!({}))), msg(&tokens(json!("τ"), &u)), frame(b"{"), unknown(json!(2)), msg(&save(&u)), msg(&json!([])), unknown(json!("x"))], 6, 2),
        ("forms of headers", vec![head("content-length: @\r\n\r\n", &body("a")), head("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: @\r\n\r\n", &body("b")), head("Content-Length:@\r\nContent-Type: x\r\n\r\n", &body("c")), head("CONTENT-LENGTH:  @ \r\n\r\n", &body("d"))], 4, 2),
        ("line breaks in the content", vec![head("Content-Length: @\r\n\r\n", "{\r\n\r\n\"id\":1,\r\n\r\n\r\n\"method\":\"x\"\r\n}"), frame(b""), frame(b"\r\n\r\n"), head("Content-Length: @\r\n\r\n", &body("\u{1f3f3}"))], 4, 2),
    ];
    let mut all = vec![];
    for (name, messages, answered, cuts) in streams {
        match baseline(&dir, name, messages, answered) {
            Ok(s) => all.push((s, cuts)),
            Err(e) => ctx.violation(0, name, format!("P12: {name}: {e}"), json!({"stream": name})),
        }
    }
    // every way to cut a stream once (or twice), and into pieces of equal size
    let mut tasks: Vec<(usize, Vec<Vec<usize>>)> = vec![];
    for (i, (s, cuts)) in all.iter().enumerate() {
        let n: usize = s.messages.iter().map(|(m, _)| m.len()).sum();
        let mut patterns: Vec<Vec<usize>> = vec![vec![]];
        patterns.extend((1..n).map(|a| vec![a]));
        if *cuts > 1 { for a in 1..n { patterns.extend((a + 1..n).map(|b| vec![a, b])) } }
        for k in 1..=n.min(300) { patterns.push((1..n).filter(|x| x % k == 0).collect()) }
        ctx.count(&format!("ways to cut '{}' ({n} bytes)", s.name), patterns.len() as u64);
        for c in patterns.chunks(50) { tasks.push((i, c.to_vec())) }
    }
    par(ctx, &tasks, || (), |_, (i, patterns)| {
        let s = &all[*i].0;
        let mut ls = Ls::start(&dir);
        for (k, cuts) in patterns.iter().enumerate() {
            if ctx.stopped() { return }
            ctx.leave();
            if let Err(e) = split_run(&mut ls, s, cuts) {
                let alone = split_run(&mut Ls::start(&dir), s, cuts).is_err();
                let shown: Vec<usize> = cuts.iter().copied().take(8).collect();
                ctx.violation(cuts.len(), &format!("{cuts:?}"), format!("P12: stream '{}' cut at {shown:?}{}: {e}", s.name, if alone { "" } else { " (after other streams)" }),
                    json!({"stream": s.messages.iter().map(|(m, _)| String::from_utf8_lossy(m).into_owned()).collect::<Vec<_>>(), "cuts": cuts, "before": if alone { vec![] } else { patterns[..k].to_vec() }}));
                return;
            }
            ctx.state(&format!("{i} {cuts:?}"));
            for (a, b) in cuts.iter().zip(cuts.iter().skip(1).chain([&0])) { ctx.transition(&format!("{i} {a} {b}")) }
            ctx.trace();
        }
        ls.close();
        let left = ls.rest();
        if !left.is_empty() { ctx.violation(9, "rest", format!("P12: stream '{}': the server writes {left:?} in the end", s.name), json!({"stream": s.name})) }
    }, |_| ());
    // messages of every size around the sizes of read buffers, several at once
    let small = unknown(json!("small"));
    let mut sizes: Vec<usize> = (60..=if ctx.thorough { 5000 } else { 2200 }).collect();
    for k in [4096usize, 8192, 16384, 32768, 65536, 131072, 1 << 20] { for d in -3i64..=3 { sizes.push((k as i64 + d) as usize) } for d in 0..3 { sizes.push(k - small.len() - d); } }
    let size_tasks: Vec<Vec<usize>> = sizes.chunks(40).map(|c| c.to_vec()).collect();
    par(ctx, &size_tasks, || (), |_, sizes| {
        let mut ls = Ls::start(&dir);
        for size in sizes {
            if ctx.stopped() { return }
            // an (unanswered) response of exactly this many bytes, then two requests, in one write
            let make = |pad: usize| frame(format!(r#"{{"id":1,"result":"{}"}}"#, "x".repeat(pad)).as_bytes());
            let mut pad = size.saturating_sub(make(0).len());
            while pad > 0 && make(pad).len() > *size { pad -= 1 }
            let mut bytes = make(pad);
            bytes.extend(&small);
            bytes.extend(unknown(json!(7)));
            let ok = ls.write(&bytes);
            let answers = [ls.next(), ls.next()];
            let fine = ok && matches!(&answers, [Event::Message(a), Event::Message(b)] if a["id"] == json!("small") && b["id"] == json!(7));
            if !fine {
                ctx.violation(5, &format!("{size:08}"), format!("P12: a message of {} bytes and two requests at once are answered by {answers:?}", make(pad).len()), json!({"size": make(pad).len()}));
                return;
            }
            ctx.state(&format!("size {size}"));
            ctx.trace();
        }
    }, |_| ());
    ctx.count("sizes of messages", sizes.len() as u64);
    // many messages in one write, and many unfinished ones
    let numbers: Vec<usize> = (1..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000]).collect();
    par(ctx, &numbers, || (), |_, n| for kind in 0..3 {
        let mut ls = Ls::start(&dir);
        let mut bytes = vec![];
        for i in 0..*n { if kind == 1 || kind == 2 && i % 2 == 1 { bytes.extend(msg(&notification("$/nothing", json!({"i": i})))) } if kind != 1 { bytes.extend(unknown(json!(i))) } }
        bytes.extend(unknown(json!("last")));
        let cut = bytes.len() - if kind == 2 { 5 } else { 0 };
        let mut ok = ls.write(&bytes[..cut]);
        let expected: Vec<Json> = if kind == 1 { vec![] } else { (0..*n).map(|i| json!(i)).collect() };
        for e in &expected { let got = ls.next(); if !matches!(&got, Event::Message(a) if a["id"] == *e) { ok = false; ctx.violation(6, &format!("{n:08} {kind}"), format!("P12: {n} messages at once (kind {kind}): instead of the answer to {e} comes {got:?}"), json!({"messages": n, "kind": kind})); break } }
        if ok {
            ok = ls.write(&bytes[cut..]);
            let got = ls.next();
            if !ok || !matches!(&got, Event::Message(a) if a["id"] == json!("last")) { ctx.violation(6, &format!("{n:08} {kind}"), format!("P12: after {n} messages at once (kind {kind}) the last is answered by {got:?}"), json!({"messages": n, "kind": kind})) }
        }
        ctx.state(&format!("many {n} {kind}"));
        ctx.trace();
    }, |_| ());
    ctx.count("numbers of messages in one write", numbers.len() as u64);
    // headers of every size, with the length before or behind, whole and cut
    let mut pads: Vec<usize> = (0..=if ctx.thorough { 4200 } else { 1100 }).collect();
    for k in [2048usize, 4096, 8192, 16384, 32768, 65536, 131072] { for d in [-60i64, -30, -2, -1, 0, 1] { pads.push((k as i64 + d) as usize) } }
    let pad_tasks: Vec<Vec<usize>> = pads.chunks(40).map(|c| c.to_vec()).collect();
    par(ctx, &pad_tasks, || (), |_, pads| {
        let mut ls = Ls::start(&dir);
        for pad in pads { for form in 0..4 {
            if ctx.stopped() { return }
            let x = "x".repeat(*pad);
            let header = match form { 0 => format!("Content-Type: {x}\r\nContent-Length: @\r\n\r\n"), 1 => format!("Content-Length: @\r\nContent-Type: {x}\r\n\r\n"), 2 => format!("Content-Length: {}@\r\n\r\n", "0".repeat(*pad % 64)), _ => format!("{}Content-Length: @\r\n\r\n", "A: b\r\n".repeat(*pad / 8)) };
            let mut bytes = head(&header, &body("h"));
            let n = bytes.len() - body("h").len();
            bytes.extend(&small);
            let mut ok = true;
            if pad % 8 == 0 { ok = ls.write(&bytes[..n - 1 - pad / 8 % 4]) && ls.consumed() && ls.write(&bytes[n - 1 - pad / 8 % 4..]) } else { ok = ok && ls.write(&bytes) }
            let answers = [ls.next(), ls.next()];
            let fine = ok && matches!(&answers, [Event::Message(a), Event::Message(b)] if a["id"] == json!("h") && b["id"] == json!("small"));
            if !fine {
                ctx.violation(5, &format!("{pad:08}"), format!("P12: a message with a header of {n} bytes and another are answered by {answers:?}"), json!({"header": header}));
                return;
            }
            ctx.state(&format!("header {pad} {form}"));
            ctx.trace();
        } }
    }, |_| ());
    ctx.count("headers of other sizes and forms", 4 * pads.len() as u64);
    // large requests, cut at their header, in their middle, and before their end
    for size in [1000usize, 70_000, 1 << 20] {
        if ctx.stopped() { break }
        let big = msg(&request(json!("big"), "x", json!({"pad": "あ".repeat(size / 3)})));
        match baseline(&dir, "large", vec![big, small.clone()], 2) {
            Ok(s) => {
                let n = s.messages[0].0.len();
                for cuts in [vec![], vec![5], vec![n - 1], vec![n], vec![n + 1], vec![20, 21, n / 2, n - 1, n], vec![1, n + 30]] {
                    if let Err(e) = split_run(&mut Ls::start(&dir), &s, &cuts) { ctx.violation(6, &format!("{size}"), format!("P12: a request of {n} bytes and another, cut at {cuts:?}: {e}"), json!({"bytes": n, "cuts": cuts})) }
                    ctx.trace();
                    ctx.state(&format!("big {size} {cuts:?}"));
                }
            }
            Err(e) => ctx.violation(6, "large", format!("P12: a request of {size} bytes: {e}"), json!({"bytes": size})),
        }
    }
    if let Some((s, _)) = all.first() { ctx.sample(json!({"stream": s.messages.iter().map(|(m, _)| String::from_utf8_lossy(m).into_owned()).collect::<Vec<_>>(), "answers": s.expected})) }
    let _ = std::fs::remove_dir_all(&dir);
    ctx.finish("model_checking", !ctx.stopped(), &["a read of the server returns what is in the pipe; each piece is written only when the pipe is empty, so pieces are never merged", "the answers to messages that arrive whole and alone are the reference; P13 checks those"])
}

// ---------------------------------------------------------------- P13

#[derive(Clone)]
struct Letter { name: &'static str, bytes: Vec<u8>, expect: Expect }
#[derive(Clone)]
enum Expect { Nothing, Error(Json, i64), AnyError(Json), Result(Json), /// result or error
    Any(Json) }

fn answered(e: &Expect, v: &Json) -> Result<(), String> {
    let has = |k: &str| v.get(k).is_some();
    if v["jsonrpc"] != json!("2.0") { return Err("no jsonrpc version".into()) }
    if has("result") == has("error") { return Err("not exactly one of result and error".into()) }
    let id = |i: &Json| if v.get("id") == Some(i) { Ok(()) } else { Err(format!("id {:?} instead of {i}", v.get("id"))) };
    let error = || if v["error"]["code"].is_i64() && v["error"]["message"].is_string() { Ok(()) } else { Err("not an error object".to_string()) };
    match e {
        Expect::Nothing => Err("nothing to be answered".into()),
        Expect::Error(i, code) => { id(i)?; error()?; if v["error"]["code"] == json!(code) { Ok(()) } else { Err(format!("error {} instead of {code}", v["error"]["code"])) } }
        Expect::AnyError(i) => { id(i)?; error() }
        Expect::Result(i) => { id(i)?; if has("result") { Ok(()) } else { Err(format!("an error: {}", v["error"])) } }
        Expect::Any(i) => { id(i)?; if has("error") { error() } else { Ok(()) } }
    }
}

fn run_sequence(dir: &Path, seq: &[&Letter]) -> Result<(), String> {
    let mut ls = Ls::start(dir);
    for l in seq { if !ls.write(&l.bytes) { return Err("the server stopped reading".into()) } }
    ls.close();
    let events = ls.rest();
    let mut want = seq.iter().filter(|l| !matches!(l.expect, Expect::Nothing));
    for e in &events {
        let v = match e { Event::Message(v) => v, Event::Broken(b) => return Err(format!("the server wrote {b}")), Event::End => break };
        if let Some(m) = v.get("method") {
            if !m.is_string() || v.get("id").is_some() { return Err(format!("neither a notification nor a response: {v}")) }
            continue;
        }
        match want.next() {
            Some(l) => answered(&l.expect, v).map_err(|e| format!("{} is answered by {v}: {e}", l.name))?,
            None => return Err(format!("answered although nothing was left to answer: {v}")),
        }
    }
    if let Some(l) = want.next() { return Err(format!("{} is not answered", l.name)) }
    Ok(())
}

fn letters(dir: &Path) -> Vec<Letter> {
    let u = uri(&dir.join("docs/a.[]"));
    let none = uri(&dir.join("docs/none.[]"));
    let l = |name, v: Json, expect| Letter { name, bytes: msg(&v), expect };
    let raw = |name, b: &[u8], expect| Letter { name, bytes: frame(b), expect };
    use Expect::*;
    vec![
        l("initialize", initialize(json!(1), true), Result(json!(1))),
        l("semantic tokens", tokens(json!("tok"), &u), Result(json!("tok"))),
        l("unknown request", request(json!(0), "x", json!({})), Error(json!(0), -32601)),
        raw("invalid JSON", b"{\"id\":1,", Error(Json::Null, -32700)),
        l("empty object", json!({}), Error(Json::Null, -32600)),
        l("unknown notification", notification("$/x", json!({})), Nothing),
        l("opening a document", open(&u), Nothing),
        l("saving a document", save(&u), Nothing),
        l("a response", json!({"jsonrpc": "2.0", "id": 1, "result": {}}), Nothing),
        l("completion", completion(json!("あ"), &u, Some("[")), Result(json!("あ"))),
        l("request with wrong parameters", request(json!(""), "textDocument/semanticTokens/full", json!({"a": 1})), AnyError(json!(""))),
        l("notification with wrong parameters", notification("textDocument/didOpen", json!(5)), Nothing),
        // less central ones
        l("initialize without capabilities", initialize(json!("init"), false), Result(json!("init"))),
        l("initialize with wrong parameters", request(json!(2), "initialize", json!([])), AnyError(json!(2))),
        l("semantic tokens of a missing file", tokens(json!(-5), &none), Any(json!(-5))),
        l("completion without a trigger", completion(json!(9007199254740991i64), &u, None), Result(json!(9007199254740991i64))),
        l("request without parameters", json!({"jsonrpc": "2.0", "id": "p", "method": "textDocument/completion"}), AnyError(json!("p"))),
        l("unknown request without parameters", json!({"id": "\"\\\n", "method": "é"}), Error(json!("\"\\\n"), -32601)),
        raw("nothing", b"", Error(Json::Null, -32700)),
        raw("bytes that are not UTF-8", b"\"\xff\"", Error(Json::Null, -32700)),
        raw("two values", b"{} {}", Error(Json::Null, -32700)),
        l("a list", json!([]), Error(Json::Null, -32600)),
        l("a number", json!(1), Error(Json::Null, -32600)),
        l("null", Json::Null, Error(Json::Null, -32600)),
        l("a method that is no string", json!({"jsonrpc": "2.0", "method": 5}), Error(Json::Null, -32600)),
        l("an error response", json!({"jsonrpc": "2.0", "id": "x", "error": {"code": 1, "message": "m"}}), Nothing),
        l("a response with an unknown id", json!({"jsonrpc": "2.0", "id": 77, "result": null}), Nothing),
        l("initialized", notification("initialized", json!({})), Nothing),
        l("a change", notification("textDocument/didChange", json!({"textDocument": {"uri": u, "version": 2}, "contentChanges": [{"text": "x"}]})), Nothing),
        l("closing a document", notification("textDocument/didClose", json!({"textDocument": {"uri": u}})), Nothing),
        l("saving a missing document", save(&none), Nothing),
        l("saving without parameters", json!({"jsonrpc": "2.0", "method": "textDocument/didSave"}), Nothing),
        l("saving a document that does not parse", save(&uri(&dir.join("docs/b.[]"))), Nothing),
    ]
}

pub fn project_with_documents(dir: &Path) {
    std::fs::create_dir_all(dir.join("docs")).unwrap();
    std::fs::create_dir_all(dir.join("plugins")).unwrap();
    std::fs::write(dir.join("docs/a.[]"), "[m.c x] {m. y\n\n\\a").unwrap();
    std::fs::write(dir.join("docs/b.[]"), "\na").unwrap();
    std::fs::write(dir.join("Brack.toml"), "[document]\nname = \"n\"\nversion = \"v\"\nbackend = \"b\"\nauthors = []\n").unwrap();
}

pub fn p13(ctx: &Ctx) -> i32 {
    let dir = tmp_dir("p13");
    project_with_documents(&dir);
    let a = letters(&dir);
    let core = 12;
    let mut seqs: Vec<Vec<usize>> = vec![];
    for i in 0..a.len() {
        seqs.push(vec![i]);
        for j in 0..a.len() { seqs.push(vec![i, j]) }
    }
    fn all(n: usize, len: usize) -> Vec<Vec<usize>> {
        (0..len).fold(vec![vec![]], |l: Vec<Vec<usize>>, _| l.iter().flat_map(|s| (0..n).map(move |i| { let mut s = s.clone(); s.push(i); s })).collect())
    }
    seqs.extend(all(core, 3));
    seqs.extend(all(core, 4));
    if ctx.thorough { seqs.extend(all(a.len(), 3)); seqs.extend(all(core, 5)); }
    let deep: Vec<Vec<usize>> = (0..a.len()).map(|i| (0..40).map(|k| if k % 2 == 0 { i } else { (i + k) % a.len() }).collect()).collect();
    seqs.extend(deep);
    par(ctx, &seqs, || (), |_, seq| {
        let l: Vec<&Letter> = seq.iter().map(|i| &a[*i]).collect();
        ctx.leave();
        if let Err(e) = run_sequence(&dir, &l) {
            let names: Vec<&str> = l.iter().map(|l| l.name).collect();
            ctx.violation(seq.len(), &format!("{names:?}"), format!("P13: messages {names:?}: {e}"), json!({"messages": l.iter().map(|l| String::from_utf8_lossy(&l.bytes).into_owned()).collect::<Vec<_>>()}));
        }
        ctx.state(&format!("{seq:?}"));
        for w in seq.windows(2) { ctx.transition(&format!("{w:?}")) }
        ctx.trace();
    }, |_| ());
    ctx.count("kinds of messages", a.len() as u64);
    ctx.count("sequences", seqs.len() as u64);
    ids(ctx, &dir);
    methods(ctx, &dir);
    ctx.sample(json!(a.iter().map(|l| format!("{}: {}", l.name, String::from_utf8_lossy(&l.bytes))).take(12).collect::<Vec<_>>()));
    let _ = std::fs::remove_dir_all(&dir);
    ctx.finish("model_checking", !ctx.stopped(), &["all sequences of up to two of the listed kinds of messages, of up to four (thorough: five) of the twelve most central, thorough also of three of all, each in a process of its own"])
}

const METHODS: &[&str] = &[
    "initialize", "textDocument/semanticTokens/full", "textDocument/completion",
    "initialized", "shutdown", "textDocument/didOpen", "textDocument/didChange", "textDocument/didSave", "textDocument/didClose",
    "textDocument/willSave", "textDocument/willSaveWaitUntil", "textDocument/semanticTokens/full/delta", "textDocument/semanticTokens/range",
    "textDocument/semanticTokens", "textDocument/hover", "textDocument/definition", "textDocument/references", "textDocument/diagnostic",
    "textDocument/formatting", "textDocument/documentSymbol", "textDocument/rename", "textDocument/codeAction", "completionItem/resolve",
    "workspace/symbol", "workspace/executeCommand", "workspace/didChangeConfiguration", "workspace/didChangeWatchedFiles", "workspace/semanticTokens/refresh",
    "window/showMessage", "window/logMessage", "window/workDoneProgress/cancel", "client/registerCapability", "telemetry/event", "textDocument/publishDiagnostics",
    "$/cancelRequest", "$/progress", "$/setTrace", "$/logTrace", "$/x", "$/", "$", "$x/y",
    "", " ", "initialize ", " initialize", "Initialize", "INITIALIZE", "initializ", "initializes", "initialize\0", "textDocument", "textDocument/", "/",
    "textDocument/completion/", "textdocument/completion", "completion", "semanticTokens/full", "didOpen", "rpc.discover", "null", "あ", "\"", "\\", "\n", "x y",
];

/// Every method name as a request and as a notification, with and without parameters.
fn methods(ctx: &Ctx, dir: &Path) {
    let known = ["initialize", "textDocument/semanticTokens/full", "textDocument/completion", "shutdown"];
    par(ctx, METHODS, || (), |_, method| {
        ctx.leave();
        let mut seq = vec![];
        for (k, params) in [None, Some(json!({})), Some(json!([])), Some(Json::Null), Some(json!(1)), Some(json!({"id": 1, "textDocument": {"uri": "x"}}))].into_iter().enumerate() {
            let mut m = json!({"jsonrpc": "2.0", "method": method});
            if let Some(p) = params { m["params"] = p }
            seq.push(Letter { name: "the notification", bytes: msg(&m), expect: Expect::Nothing });
            for id in [json!(k), json!(format!("s{k}"))] {
                m["id"] = id.clone();
                seq.push(Letter { name: "the request", bytes: msg(&m), expect: if known.contains(method) { Expect::Any(id) } else { Expect::Error(id, -32601) } });
            }
        }
        seq.push(Letter { name: "the last request", bytes: msg(&request(json!("last"), "x", json!({}))), expect: Expect::Error(json!("last"), -32601) });
        if let Err(e) = run_sequence(dir, &seq.iter().collect::<Vec<_>>()) {
            ctx.violation(3, method, format!("P13: method {method:?} as request and notification: {e}"), json!({"messages": seq.iter().map(|l| String::from_utf8_lossy(&l.bytes).into_owned()).collect::<Vec<_>>()}));
        }
        ctx.state(method);
        ctx.trace();
    }, |_| ());
    ctx.count("methods", METHODS.len() as u64);
}

/// Requests with all kinds of ids.
fn ids(ctx: &Ctx, dir: &Path) {
    let mut ids: Vec<Json> = (-3..300).map(|i| json!(i)).collect();
    for i in [i32::MAX as i64, i32::MIN as i64, i64::MAX, i64::MIN, 1 << 53] { ids.push(json!(i)) }
    ids.push(json!(u64::MAX));
    for s in ["", "0", "null", "あ", "🏳️‍🌈", "\"", "\\", "\n\r\n\r\n", "Content-Length: 5\r\n\r\n", "\u{0}", "a b"] { ids.push(json!(s)) }
    ids.push(json!("long".repeat(5000)));
    let u = uri(&dir.join("docs/a.[]"));
    let make: [&dyn Fn(Json) -> Json; 4] = [&|i| request(i, "x", json!({})), &|i| initialize(i, false), &|i| tokens(i, &u), &|i| completion(i, &u, Some("["))];
    for (k, make) in make.iter().enumerate() {
        let mut ls = Ls::start(dir);
        for id in &ids {
            if ctx.stopped() { return }
            let e = if k == 0 { Expect::Error(id.clone(), -32601) } else { Expect::Result(id.clone()) };
            ls.write(&msg(&make(id.clone())));
            let got = loop { match ls.next() { Event::Message(v) if v.get("method").is_some() => continue, e => break e } };
            let ok = match &got { Event::Message(v) => answered(&e, v), e => Err(format!("{e:?}")) };
            if let Err(e) = ok { ctx.violation(1, &id.to_string(), format!("P13: request {}: {e}", make(id.clone())), json!({"message": make(id.clone())})) }
            ctx.trace();
        }
    }
    ctx.count("ids", ids.len() as u64);
}

// ---------------------------------------------------------------- P14

/// Every message that differs from this one in one place.
fn mutations(v: &Json) -> Vec<Json> {
    fn paths(v: &Json, at: &mut Vec<Json>, out: &mut Vec<Vec<Json>>) {
        match v {
            Json::Object(m) => for (k, c) in m { at.push(json!(k)); out.push(at.clone()); paths(c, at, out); at.pop(); },
            Json::Array(a) => for (i, c) in a.iter().enumerate() { at.push(json!(i)); out.push(at.clone()); paths(c, at, out); at.pop(); },
            _ => (),
        }
    }
    fn edit(v: &mut Json, path: &[Json], f: &dyn Fn(&mut Json, &Json)) {
        if path.len() == 1 { return f(v, &path[0]) }
        let next = match &path[0] { Json::String(k) => &mut v[&k[..]], i => &mut v[i.as_u64().unwrap() as usize] };
        edit(next, &path[1..], f)
    }
    let mut all = vec![];
    paths(v, &mut vec![], &mut all);
    let junk = [Json::Null, json!(0), json!(-1), json!(1.5), json!(""), json!("x"), json!(true), json!([]), json!([null]), json!({}), json!({"uri": "file:///x"}), json!(u64::MAX), json!("file:///\u{0}"), json!("あ")];
    let mut out = vec![];
    for p in &all {
        let mut w = v.clone();
        edit(&mut w, p, &|parent, k| match (parent, k) { (Json::Object(m), Json::String(k)) => { m.remove(k); } (Json::Array(a), i) => { a.remove(i.as_u64().unwrap() as usize); } _ => () });
        out.push(w);
        for j in &junk {
            let mut w = v.clone();
            edit(&mut w, p, &|parent, k| match k { Json::String(k) => parent[&k[..]] = j.clone(), i => parent[i.as_u64().unwrap() as usize] = j.clone() });
            out.push(w);
        }
        let mut w = v.clone();
        edit(&mut w, p, &|parent, _| if let Json::Object(m) = parent { m.insert("superfluous".into(), json!({"a": [1]})); });
        out.push(w);
    }
    out.retain(|w| w != v);
    out.dedup();
    out
}

fn valid_messages(u: &str) -> Vec<Json> {
    vec![
        initialize(json!(1), true), notification("initialized", json!({})), open(u),
        notification("textDocument/didChange", json!({"textDocument": {"uri": u, "version": 2}, "contentChanges": [{"text": "x", "range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 1}}}]})),
        save(u), tokens(json!(2), u), completion(json!(3), u, Some("[")), completion(json!(4), u, None),
    ]
}

/// Sends these messages, each followed by a request; Err names the first one after which the request is not answered.
fn survives(ls: &mut Ls, messages: &[Vec<u8>], from: usize) -> Result<(), (usize, String)> {
    for (k, m) in messages.iter().enumerate() {
        let id = json!(format!("probe {}", from + k));
        if !ls.write(m) || !ls.write(&msg(&request(id.clone(), "still/there", json!({})))) { return Err((k, "the server stopped reading".into())) }
        match ls.until(&id) {
            Ok((_, v)) => if let Err(e) = answered(&Expect::Error(id, -32601), &v) { return Err((k, format!("the next request is answered by {v}: {e}"))) },
            Err(e) => return Err((k, format!("the next request: {e}"))),
        }
    }
    Ok(())
}

pub fn p14(ctx: &Ctx) -> i32 {
    let base = tmp_dir("p14");
    let dir = base.join("project");
    project_with_documents(&dir);
    // documents that are strange, or not there
    std::fs::write(dir.join("docs/not utf8.[]"), b"[m.c \xff\xfe]").unwrap();
    std::fs::write(dir.join("docs/empty.[]"), b"").unwrap();
    std::fs::write(dir.join("docs/nul.[]"), b"a\0[m.c \0]").unwrap();
    std::fs::write(dir.join("docs/bom.[]"), "\u{feff}[m.c x]").unwrap();
    std::fs::create_dir_all(dir.join("docs/dir.[]")).unwrap();
    let _ = std::os::unix::fs::symlink("loop.[]", dir.join("docs/loop.[]"));
    let _ = std::os::unix::fs::symlink("nowhere", dir.join("docs/dangling.[]"));
    let f = |n: &str| uri(&dir.join("docs").join(n));
    let uris: Vec<String> = ["a.[]", "b.[]", "not utf8.[]", "empty.[]", "nul.[]", "bom.[]", "dir.[]", "loop.[]", "dangling.[]", "missing.[]"].iter().map(|n| f(n)).chain([
        "file:///", "file://", "file:///a", "file:///a/b", "file:", "untitled:Untitled-1", "http://localhost/a.[]", "", "a", "/a/b/c", "file://host/a/b.[]", "file:///%FF%FE/a/b.[]", "file:///%00/a/b", "data:,x", "file:///a/b.[]?q#f", "FILE:///a/b/c.[]",
        "file:///proc/self/mem", "file:///proc/self/fd/9999", "file:///dev/null",
    ].map(String::from)).collect();
    let u = f("a.[]");
    let mut messages: Vec<(String, Vec<u8>)> = vec![];
    let mut add = |v: &Json| messages.push((v.to_string(), msg(v)));
    for (i, v) in valid_messages(&u).iter().enumerate() {
        add(v);
        for m in mutations(v) {
            add(&m);
            // two places
            if ctx.thorough || i == 4 { for w in mutations(&m) { add(&w) } }
        }
    }
    for w in &uris { for v in valid_messages(w) { add(&v) } }
    for b in [&b""[..], b"{", b"\xff", b"[]", b"null", b"1", b"{} {}", b"{\"id\":1e999,\"method\":\"x\"}", b"\"", b"{\"method\":\"textDocument/didSave\",\"method\":\"x\"}", b"\xef\xbb\xbf{}", b"[[[[[[[[[[", b"{\"params\":{}}"] {
        messages.push((format!("{:?}", String::from_utf8_lossy(b)), frame(b)));
    }
    messages.push(("deeply nested JSON".into(), frame("[".repeat(100_000).as_bytes())));
    messages.push(("deeply nested parameters".into(), frame(format!(r#"{{"method":"textDocument/didSave","params":{}{}}}"#, "[".repeat(120), "]".repeat(120)).as_bytes())));
    for h in ["Content-Length: x\r\n\r\n", "Content-Length: -1\r\n\r\n", "Content-Length: 99999999999999999999999999\r\n\r\n", "\r\n\r\n", "Content-Type: x\r\n\r\n", "a\r\n\r\n", ": \r\n\r\n", "Content-Length\r\n\r\n", "\r\n", "\n"] {
        let mut v = h.as_bytes().to_vec();
        if h.len() <= 2 { v.extend(frame(b"{}")) } // stray line breaks before a header
        messages.push((format!("header {h:?}"), v));
    }
    let starts: Vec<Vec<Vec<u8>>> = vec![vec![], vec![msg(&initialize(json!(0), true)), msg(&open(&u))], vec![msg(&initialize(json!(0), false))]];
    let tasks: Vec<(usize, usize)> = (0..starts.len()).flat_map(|s| (0..messages.len()).step_by(60).map(move |m| (s, m))).collect();
    let single = |start: usize, k: usize| {
        let mut ls = Ls::start(&dir);
        for m in &starts[start] { ls.write(m); }
        survives(&mut ls, &[messages[k].1.clone()], 0)
    };
    par(ctx, &tasks, || (), |_, (s, m)| {
        ctx.leave();
        let mut ls = Ls::start(&dir);
        for x in &starts[*s] { ls.write(x); }
        let part: Vec<Vec<u8>> = messages[*m..messages.len().min(m + 60)].iter().map(|x| x.1.clone()).collect();
        if let Err((k, e)) = survives(&mut ls, &part, *m) {
            let alone = single(*s, m + k);
            let name = &messages[m + k].0;
            let e = alone.err().map(|x| x.1).unwrap_or(format!("{e} (after {k} other messages)"));
            ctx.violation(name.len(), name, format!("P14: after {name}: {e}"), json!({"start": s, "message": String::from_utf8_lossy(&messages[m + k].1), "earlier": k}));
        }
        ctx.traces.fetch_add(part.len() as u64, std::sync::atomic::Ordering::Relaxed);
        for i in 0..part.len() { ctx.state(&format!("{s} {}", m + i)); }
    }, |_| ());
    ctx.count("messages, each from three states", messages.len() as u64);
    // one server that gets very many, and the same one again and again
    let step = if ctx.thorough { 1 } else { 7 };
    let mut long: Vec<Vec<usize>> = vec![(0..messages.len()).step_by(step).collect(), (0..messages.len()).rev().step_by(step).collect()];
    let picked: Vec<usize> = (0..messages.len()).filter(|i| messages[*i].1.len() < 5000).step_by((messages.len() / if ctx.thorough { 400 } else { 60 }).max(1)).chain(messages.len() - 25..messages.len()).filter(|i| messages[*i].1.len() < 5000).collect();
    for i in &picked { long.push(vec![*i; 300]) }
    par(ctx, &long, || (), |_, run| {
        ctx.leave();
        let mut ls = Ls::start(&dir);
        for x in &starts[1] { ls.write(x); }
        let part: Vec<Vec<u8>> = run.iter().map(|i| messages[*i].1.clone()).collect();
        if let Err((k, e)) = survives(&mut ls, &part, 0) {
            let name = &messages[run[k]].0;
            ctx.violation(k + 100, name, format!("P14: after {k} other messages and {name}: {e}"), json!({"message": String::from_utf8_lossy(&messages[run[k]].1), "earlier": k, "same": run[0] == run[run.len() - 1]}));
        }
        ctx.traces.fetch_add(part.len() as u64, std::sync::atomic::Ordering::Relaxed);
    }, |_| ());
    ctx.count("long series of messages", long.len() as u64);
    if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("series {:.1} s", ctx.start.elapsed().as_secs_f64()) }
    if !ctx.stopped() { environments(ctx, &base) }
    if !ctx.stopped() { saved_documents(ctx, &base) }
    ctx.sample(json!(messages.iter().step_by(messages.len() / 10).map(|m| &m.0[..m.0.len().min(200)]).collect::<Vec<_>>()));
    let _ = std::fs::remove_dir_all(&base);
    ctx.finish("model_checking", !ctx.stopped(), &["downloads fail: the proxy they are sent to refuses connections", "files that block when opened (named pipes) and plugins that never return are not covered"])
}

pub fn plugin_path(dir: &Path, name: &str, backend: &str) -> PathBuf {
    dir.join("plugins").join(format!("{name}_{}.wasm", schema(name, [false; 4]).hash_sha256(backend)))
}
pub fn schema(name: &str, hooks: [bool; 4]) -> PluginSchema {
    let h = |i: usize| if hooks[i] { Some(true) } else { None };
    PluginSchema::GitHub { owner: "o".into(), repo: name.into(), version: "v".into(), expr_hook: h(0), stmt_hook: h(1), document_hook: h(2), text_hook: h(3) }
}

/// Projects in all kinds of bad shape.
fn environments(ctx: &Ctx, base: &Path) {
    let good = plug::wasm("m", &[plug::cmd("c", "TInline", vec![plug::arr()], Body::Echo)]);
    let doc = "[document]\nname = \"n\"\nversion = \"v\"\nbackend = \"b\"\nauthors = []\n";
    let with = format!("{doc}[plugins.m]\nschema = \"github\"\nowner = \"o\"\nrepo = \"m\"\nversion = \"v\"\n");
    let hook = format!("{with}document_hook = true\n");
    let meta = |m: Json| { let text = m.to_string(); plug::wasm_with("m", &[plug::cmd("c", "TInline", vec![], Body::Echo)], &text) };
    let tomls: Vec<(&str, Option<Vec<u8>>)> = vec![
        ("no Brack.toml", None), ("an empty Brack.toml", Some(vec![])), ("a broken Brack.toml", Some(b"[document".to_vec())), ("a Brack.toml that is not UTF-8", Some(vec![0xff])),
        ("a Brack.toml without plugins", Some(doc.into())), ("a plugin", Some(with.clone().into())), ("a plugin with a hook", Some(hook.clone().into())),
    ];
    let wasms: Vec<(&str, Option<Vec<u8>>)> = vec![
        ("not downloaded", None), ("good", Some(good.clone())), ("empty", Some(vec![])), ("garbage", Some(b"garbage".to_vec())), ("cut short", Some(good[..good.len() / 2].to_vec())),
        ("without metadata", Some(wat::parse_str("(module)").unwrap())), ("with a trap", Some(wat::parse_str(r#"(module (func (export "get_metadata") (result i32) unreachable))"#).unwrap())),
        ("with an error", Some(wat::parse_str(r#"(module (func (export "get_metadata") (result i32) (i32.const 1)))"#).unwrap())),
        ("with a missing import", Some(wat::parse_str(r#"(module (import "x" "y" (func)) (func (export "get_metadata") (result i32) (i32.const 0)))"#).unwrap())),
        ("without output", Some(wat::parse_str(r#"(module (func (export "get_metadata") (result i32) (i32.const 0)))"#).unwrap())),
        ("with metadata that is no list", Some(meta(json!({})))), ("with metadata of another shape", Some(meta(json!([{"command_name": 1}])))),
        ("with commands of other types", Some(meta(json!([
            {"command_name": "a", "call_name": "a", "argument_types": [], "return_type": {"TOption": "TInline"}},
            {"command_name": "b", "call_name": "b", "argument_types": [["x", {"TArray": {"TOption": "TBlock"}}]], "return_type": {"TArray": "TInline"}},
            {"command_name": "c", "call_name": "c", "argument_types": [["x", {"TInlineCmd": "c"}]], "return_type": {"TInlineCmd": "c"}},
            {"command_name": "d", "call_name": "nowhere", "argument_types": [], "return_type": "TInline"}])))),
        ("with a command named twice", Some(meta(json!([{"command_name": "a", "call_name": "a", "argument_types": [], "return_type": "TInline"}, {"command_name": "a", "call_name": "b", "argument_types": [], "return_type": "TInline"}])))),
    ];
    let shapes = ["", "the plugin is a directory", "plugins is a file", "no plugins directory", "docs is missing"];
    let mut tasks = vec![];
    for (t, _) in tomls.iter().enumerate() { for (w, _) in wasms.iter().enumerate() { for (s, _) in shapes.iter().enumerate() {
        if t < 5 && w > 0 { continue }
        if s > 0 && w > 1 { continue }
        tasks.push((t, w, s));
    } } }
    par(ctx, &tasks, || (), |_, (t, w, s)| {
        let dir = base.join(format!("e{t}-{w}-{s}"));
        std::fs::create_dir_all(dir.join("docs")).unwrap();
        std::fs::write(dir.join("docs/a.[]"), "[m.c x").unwrap();
        if let Some(b) = &tomls[*t].1 { std::fs::write(dir.join("Brack.toml"), b).unwrap() }
        let mut config: Vec<PathBuf> = vec![plugin_path(&dir, "m", "b")];
        let mut h = schema("m", [false; 4]);
        let PluginSchema::GitHub { document_hook, .. } = &mut h;
        *document_hook = Some(true);
        config.push(dir.join("plugins").join(format!("m_{}.wasm", h.hash_sha256("b"))));
        match *s {
            2 => std::fs::write(dir.join("plugins"), "x").unwrap(),
            3 => (),
            _ => std::fs::create_dir_all(dir.join("plugins")).unwrap(),
        }
        if dir.join("plugins").is_dir() {
            for p in &config { if *s == 1 { std::fs::create_dir_all(p).unwrap() } else if let Some(b) = &wasms[*w].1 { std::fs::write(p, b).unwrap() } }
        }
        if *s == 4 { std::fs::remove_dir_all(dir.join("docs")).unwrap() }
        let u = uri(&dir.join("docs/a.[]"));
        let name = format!("{}, the plugin {}{}{}", tomls[*t].0, wasms[*w].0, if *s > 0 { ", " } else { "" }, shapes[*s]);
        let steps: Vec<(&str, Vec<u8>)> = vec![("open", msg(&open(&u))), ("save", msg(&save(&u))), ("semantic tokens", msg(&tokens(json!(1), &u))), ("completion after [", msg(&completion(json!(2), &u, Some("[")))), ("completion after <", msg(&completion(json!(3), &u, Some("<")))), ("completion", msg(&completion(json!(4), &u, None)))];
        // every sequence of two steps, from a fresh server and after opening
        let mut seqs: Vec<Vec<usize>> = vec![];
        for a in 0..steps.len() { for b in 0..steps.len() { seqs.push(vec![a, b]); seqs.push(vec![0, a, b]) } }
        let run = |seq: &[usize]| {
            let mut ls = Ls::start(&dir);
            ls.write(&msg(&initialize(json!(0), true)));
            survives(&mut ls, &seq.iter().map(|i| steps[*i].1.clone()).collect::<Vec<_>>(), 0)
        };
        // one server for all of them first; alone only to name the failing one
        let flat: Vec<usize> = seqs.iter().flatten().copied().collect();
        if let Err((k, e)) = run(&flat) {
            let alone = seqs.iter().find_map(|q| run(q).err().map(|x| (q.clone(), x.1)));
            let (q, e) = alone.unwrap_or((flat[..=k].to_vec(), e));
            ctx.violation(q.len(), &name, format!("P14: with {name}: after {:?}: {e}", q.iter().map(|i| steps[*i].0).collect::<Vec<_>>()), json!({"environment": name, "messages": q.iter().map(|i| steps[*i].0).collect::<Vec<_>>()}));
        }
        // and each step first, from a fresh server
        for a in 0..steps.len() { if let Err((_, e)) = run(&[a]) { ctx.violation(1, &name, format!("P14: with {name}: after {}: {e}", steps[a].0), json!({"environment": name, "messages": [steps[a].0]})) } }
        ctx.state(&name);
        for q in &seqs { ctx.transition(&format!("{name} {q:?}")) }
        ctx.traces.fetch_add(seqs.len() as u64, std::sync::atomic::Ordering::Relaxed);
        let _ = std::fs::remove_dir_all(&dir);
    }, |_| ());
    ctx.count("environments", tasks.len() as u64);
}

/// Documents of every shape, saved and coloured.
fn saved_documents(ctx: &Ctx, base: &Path) {
    let space = Space { name: "saved documents", symbols: &["[m.c", "]", " x", ".", ",", "\\", "\n", "<", ">", "é\u{301}𝒳", "\r\n", "{m."], max: if ctx.thorough { 5 } else { 4 } };
    let label = Mutex::new(0);
    explore(ctx, &space, || {
        let n = { let mut l = label.lock().unwrap(); *l += 1; *l };
        let dir = base.join(format!("s{n}"));
        std::fs::create_dir_all(&dir).unwrap();
        let mut ls = Ls::start(&dir);
        ls.write(&msg(&initialize(json!(0), true)));
        (ls, dir.join("a.[]"), 0usize)
    }, |_| true, |(ls, path, n), doc, depth| {
        std::fs::write(&*path, doc).unwrap();
        *n += 1;
        ctx.leave();
        let u = uri(path);
        if let Err((k, e)) = survives(ls, &[msg(&save(&u)), msg(&tokens(json!(1), &u))], 2 * *n) {
            ctx.violation(depth, doc, format!("P14: document {doc:?}: after {}: {e}", ["didSave", "semanticTokens"][k]), json!({"document": doc}));
        }
    }, |_| ());
}

// ---------------------------------------------------------------- P15, P16

/// Position in UTF-16 code units; lines and columns as the compiler counts them.
fn utf16(doc: &str, line: usize, column: usize) -> (u64, u64) {
    use unicode_segmentation::UnicodeSegmentation;
    let mut l = 0;
    let mut c = 0;
    let mut units = 0;
    for g in doc.graphemes(true) {
        if l == line && c == column { break }
        if g == "\n" || g == "\r\n" {
            if l == line { break } // behind the line break: the line's end, for a client
            l += 1; c = 0; units = 0;
        } else { c += 1; units += g.encode_utf16().count() }
    }
    (line as u64, units as u64)
}

fn diagnostics(doc: &str) -> Result<Option<Vec<Json>>, String> {
    let t = front::tokenize(doc)?;
    let Some(c) = front::parse(&t)? else { return Ok(None) };
    let (_, errors) = catch(|| brack_transformer::transform::transform(&c))?;
    let mut v: Vec<Json> = errors.iter().map(|e| {
        let l = e.get_location();
        let (s, t) = (utf16(doc, l.start.line, l.start.character), utf16(doc, l.end.line, l.end.character));
        json!({"message": e.get_message(), "range": {"start": {"line": s.0, "character": s.1}, "end": {"line": t.0, "character": t.1}}})
    }).collect();
    v.sort_by_key(|v| v.to_string());
    Ok(Some(v))
}

struct Client { ls: Ls, path: PathBuf, uri: String, n: u64 }
impl Client {
    /// The messages of the server up to the answer to a request sent afterwards.
    fn ask(&mut self, m: &Json) -> Result<Vec<Json>, String> {
        self.n += 1;
        let id = json!(format!("sync {}", self.n));
        if !self.ls.write(&msg(m)) || !self.ls.write(&msg(&request(id.clone(), "x", json!({})))) { return Err("the server stopped reading".into()) }
        Ok(self.ls.until(&id)?.0)
    }
}

fn client(dir: &Path, file: &str, uri: Option<String>, init: &[Json]) -> Client {
    std::fs::create_dir_all(dir).unwrap();
    let path = dir.join(file);
    let uri = uri.unwrap_or_else(|| self::uri(&path));
    let mut ls = Ls::start(dir);
    for i in init { ls.write(&msg(i)); if let Some(id) = i.get("id") { let _ = ls.until(id); } }
    Client { ls, path, uri, n: 0 }
}

fn check_save(c: &mut Client, doc: &[u8], announced: bool) -> Result<&'static str, String> {
    let want = match std::str::from_utf8(doc) { Ok(d) => diagnostics(d)?, Err(_) => None };
    std::fs::write(&c.path, doc).unwrap();
    let m = save(&c.uri);
    let got: Vec<Json> = c.ask(&m)?.into_iter().filter(|v| v["method"] == json!("textDocument/publishDiagnostics")).collect();
    let Some(want) = want else { return Ok("does not parse") };
    if !announced { return if got.is_empty() { Ok("not announced") } else { Err(format!("published to a client that did not announce support: {got:?}")) } }
    if got.len() != 1 { return Err(format!("{} publications: {got:?}", got.len())) }
    let p = &got[0]["params"];
    if p["uri"] != json!(c.uri) { return Err(format!("published for {} instead of {}", p["uri"], c.uri)) }
    // a column behind the line's end means the end
    let text = std::str::from_utf8(doc).unwrap();
    let place = |p: &Json| { let line = p["line"].as_u64().unwrap_or(u64::MAX); json!({"line": p["line"], "character": p["character"].as_u64().map(|c| c.min(utf16(text, line as usize, usize::MAX).1))}) };
    let mut shown: Vec<Json> = p["diagnostics"].as_array().ok_or("no list of diagnostics")?.iter()
        .map(|d| json!({"message": d["message"], "range": {"start": place(&d["range"]["start"]), "end": place(&d["range"]["end"])}})).collect();
    shown.sort_by_key(|v| v.to_string());
    if shown != want { return Err(format!("published {}, the compiler reports {}", Json::Array(shown), Json::Array(want))) }
    Ok(if want.is_empty() { "without errors" } else { "with errors" })
}

pub fn p15(ctx: &Ctx) -> i32 {
    let t = |q, th| if ctx.thorough { th } else { q };
    let base = tmp_dir("p15");
    let n = std::sync::atomic::AtomicUsize::new(0);
    for (space, announced) in [
        (Space { name: "fragments", symbols: &["[m.c", "]", " ", "x", ",", "\n", ".", "\\", "}", "𝒳é\u{301}", "<m."], max: t(5, 6) }, true),
        (Space { name: "characters", symbols: CHARS, max: t(4, 5) }, true),
        (Space { name: "mistakes behind wide characters", symbols: &["𝒳", "🏳️‍🌈", "\r\n", "e\u{301}", "[m.c ,x]", "\\a", "]", " ", "\n", "[m.c あ"], max: t(5, 6) }, true),
        (Space { name: "unannounced", symbols: &["[m.c", "]", "x", "\n"], max: 3 }, false),
    ] {
        let labels = Mutex::new(BTreeMap::<&str, u64>::new());
        explore(ctx, &space, || {
            let k = n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            (client(&base.join(format!("c{k}")), "a.[]", None, &[initialize(json!(0), announced)]), BTreeMap::new())
        }, |_| true, |(c, seen): &mut (Client, BTreeMap<&'static str, u64>), doc, depth| {
            ctx.leave();
            match check_save(c, doc.as_bytes(), announced) {
                Ok(l) => *seen.entry(l).or_default() += 1,
                Err(e) => ctx.violation(depth, doc, format!("P15: document {doc:?}: {e}"), json!({"document": doc, "announced": announced})),
            }
        }, |(_, seen)| for (k, v) in seen { *labels.lock().unwrap().entry(k).or_default() += v });
        for (k, v) in labels.into_inner().unwrap() { ctx.count(&format!("{k} ({})", space.name), v) }
        if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("{} {:.1} s", space.name, ctx.start.elapsed().as_secs_f64()) }
    }
    // every announcement, every form of the URI, every history of three saves with one file or two
    let docs: [&[u8]; 5] = [b"[m.c x]", b"[m.c ,x]\n\n\\a", b"", "𝒳]\r\n[m.c x".as_bytes(), b"\xff"];
    let announcements: Vec<(&str, Vec<Json>, bool)> = vec![
        ("never initialized", vec![], false), ("no capabilities", vec![initialize(json!(0), false)], false), ("announced", vec![initialize(json!(0), true)], true),
        ("other capabilities", vec![request(json!(0), "initialize", json!({"capabilities": {"textDocument": {"hover": {}}}}))], false),
        ("announced in detail", vec![request(json!("i"), "initialize", json!({"capabilities": {"textDocument": {"publishDiagnostics": {"relatedInformation": true, "versionSupport": false}}, "workspace": {}}})), notification("initialized", json!({}))], true),
    ];
    let files: Vec<(&str, &str)> = vec![("a.[]", "a.%5B%5D"), ("a.[]", "a.%5b%5d"), ("a b.[]", "a%20b.%5B%5D"), ("あ.[]", "%E3%81%82.%5B%5D"), ("a%20.[]", "a%2520.%5B%5D"), ("plain.txt", "plain.txt"), ("𝒳#?.[]", "%F0%9D%92%B3%23%3F.%5B%5D"), ("a.[]", "%61.%5B%5D")];
    let mut tasks: Vec<(usize, usize, Vec<usize>)> = vec![];
    for a in 0..announcements.len() { for f in 0..files.len() {
        for i in 0..docs.len() { for j in 0..docs.len() { for k in 0..docs.len() { if f == 0 || k == 1 { tasks.push((a, f, vec![i, j, k])) } } } }
    } }
    let groups: Vec<Vec<(usize, usize, Vec<usize>)>> = tasks.chunks(25).map(|c| c.to_vec()).collect();
    par(ctx, &groups, || (), |_, group| for (a, f, h) in group {
        if ctx.stopped() { return }
        let k = n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let dir = base.join(format!("h{k}"));
        let mut c = client(&dir, files[*f].0, Some(format!("{}/{}", uri(&dir), files[*f].1)), &announcements[*a].1);
        // a second, faulty document of the same client must make no difference
        std::fs::write(dir.join("other.[]"), "]]").unwrap();
        for (step, d) in h.iter().enumerate() {
            if let Err(e) = check_save(&mut c, docs[*d], announcements[*a].2) {
                ctx.violation(step + 1, files[*f].1, format!("P15: {}, URI .../{}, saved {:?}: {e}", announcements[*a].0, files[*f].1, h[..=step].iter().map(|d| String::from_utf8_lossy(docs[*d])).collect::<Vec<_>>()), json!({"client": announcements[*a].0, "file": files[*f].0, "uri": files[*f].1, "saves": h}));
            }
            let (file, its) = (c.path.clone(), c.uri.clone());
            (c.path, c.uri) = (dir.join("other.[]"), uri(&dir.join("other.[]")));
            if let Err(e) = check_save(&mut c, b"]]", announcements[*a].2) {
                ctx.violation(step + 1, "other", format!("P15: {}, another document saved after {:?}: {e}", announcements[*a].0, h[..=step].iter().map(|d| String::from_utf8_lossy(docs[*d])).collect::<Vec<_>>()), json!({"client": announcements[*a].0, "saves": h}));
            }
            (c.path, c.uri) = (file, its);
            ctx.trace();
        }
        ctx.state(&format!("{a} {f} {h:?}"));
        let _ = std::fs::remove_dir_all(&dir);
    }, |_| ());
    ctx.count("histories of three saves", tasks.len() as u64);
    many(ctx, &base);
    ctx.sample(json!({"document": "𝒳]\r\n[m.c x", "expected": diagnostics("𝒳]\r\n[m.c x").ok().flatten()}));
    let _ = std::fs::remove_dir_all(&base);
    ctx.finish("model_checking", !ctx.stopped(), &["the compiler's errors are those of brack-transformer, which P05 and P06 check", "URIs are given in the normal form clients use"])
}

/// Documents with many mistakes, far down and far to the right, and clean ones of the same size.
fn many(ctx: &Ctx, base: &Path) {
    let mut counts: Vec<usize> = vec![2, 9, 10, 11, 15, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300];
    if ctx.thorough { counts.extend([399, 400, 401, 499, 500, 501, 511, 512, 513, 600]) }
    let patterns = ["\\a", "]\n\n", "[m.c ,x] ", "[m.c]\n\n[m.c ,x]\n\n", "𝒳あ\\a", "\\a\r\n", "[m.c x", "{m.c .}", "[m.c x, y]\n"];
    let mut docs: Vec<String> = patterns.iter().flat_map(|p| counts.iter().map(move |n| p.repeat(*n))).collect();
    for n in &counts { for end in ["\\a", "[m.c ,x]", "]", "[m.c x]"] {
        docs.push(format!("{}{end}", "x".repeat(*n)));
        docs.push(format!("{}{end}", "𝒳".repeat(*n)));
        docs.push(format!("{}{end}", "\n".repeat(*n)));
        docs.push(format!("{}{end}", "[m.c 𝒳]\r\n".repeat(*n)));
    } }
    for n in [500, 1000, 1030, 2000, 2050, 4000, 4100, 5000] { for end in ["\\a", "[m.c ,x]", "]"] { docs.push(format!("{}{end}", "\n".repeat(n))) } }
    for n in [500, 1000, 1030, 2000, 2050, 4100, 5000, 8200, 10_000, 16_400, 32_800, 65_600] { for end in ["\\a", "[m.c ,x]", "]"] {
        docs.push(format!("{}{end}", "x".repeat(n)));
        docs.push(format!("a\n{}{end}", "あ".repeat(n / 2)));
        docs.push(format!("{}{end}", "𝒳".repeat(n / 2)));
    } }
    let n = std::sync::atomic::AtomicUsize::new(0);
    par(ctx, &docs, || client(&base.join(format!("m{}", n.fetch_add(1, std::sync::atomic::Ordering::SeqCst))), "a.[]", None, &[initialize(json!(0), true)]), |c, doc| {
        ctx.leave();
        if let Err(e) = check_save(c, doc.as_bytes(), true) {
            ctx.violation(1000 + doc.len(), doc, format!("P15: document {doc:?}: {}", e.chars().take(600).collect::<String>()), json!({"document": doc}));
        }
        ctx.state(doc);
        ctx.trace();
    }, |_| ());
    ctx.count("documents with many mistakes", docs.len() as u64);
    if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("many {:.1} s", ctx.start.elapsed().as_secs_f64()) }
}

fn check_tokens(c: &mut Client, doc: &str, legend: &[String]) -> Result<usize, String> {
    use brack_tokenizer::tokens::Token as T;
    std::fs::write(&c.path, doc).unwrap();
    c.n += 1;
    let id = json!(c.n);
    if !c.ls.write(&msg(&tokens(id.clone(), &c.uri))) { return Err("the server stopped reading".into()) }
    let (_, v) = c.ls.until(&id)?;
    let data = v["result"]["data"].as_array().ok_or_else(|| format!("answered by {v}"))?;
    let nums: Vec<u64> = data.iter().map(|n| n.as_u64().ok_or_else(|| format!("{n} among the data"))).collect::<Result<_, _>>()?;
    if nums.len() % 5 != 0 { return Err(format!("{} numbers", nums.len())) }
    let (mut line, mut start) = (0u64, 0u64);
    let mut got = vec![];
    for d in nums.chunks(5) {
        if d[0] > 0 { start = 0 }
        line += d[0];
        start += d[1];
        if d[4] != 0 { return Err(format!("modifiers {}", d[4])) }
        got.push((line, start, d[2], legend.get(d[3] as usize).cloned().unwrap_or(format!("type {}", d[3]))));
    }
    let t = front::tokenize(doc)?;
    let mut want = vec![];
    let mut optional = vec![];
    let mut escaped = false;
    for k in &t {
        let kind = match k {
            T::Module(..) => "namespace", T::Ident(..) => "variable",
            T::AngleBracketOpen(_) | T::AngleBracketClose(_) => "macro",
            T::CurlyBracketOpen(_) | T::CurlyBracketClose(_) => "method",
            T::SquareBracketOpen(_) | T::SquareBracketClose(_) => "function",
            _ => "",
        };
        let is_escape = escaped;
        escaped = matches!(k, T::BackSlash(_)) && !escaped;
        if kind.is_empty() { continue }
        let l = front::span(&k.get_location());
        let (s, e) = (utf16(doc, l.s.l, l.s.c), utf16(doc, l.e.l, l.e.c));
        let item = (s.0, s.1, e.1 - s.1, kind.to_string());
        if is_escape { optional.push(item) } else { want.push(item) }
    }
    let mut end = (0, 0);
    for (l, s, n, _) in &got {
        if (*l, *s) < end { return Err(format!("tokens overlap or are out of order: {got:?}")) }
        end = (*l, s + n);
    }
    let seen: Vec<_> = got.iter().filter(|g| !optional.contains(g)).cloned().collect();
    if seen != want { return Err(format!("decoded {seen:?}, the document has {want:?}")) }
    Ok(want.len())
}

pub fn p16(ctx: &Ctx) -> i32 {
    let t = |q, th| if ctx.thorough { th } else { q };
    let base = tmp_dir("p16");
    let n = std::sync::atomic::AtomicUsize::new(0);
    let legend_of = |c: &mut Client| -> Result<Vec<String>, String> {
        c.ls.write(&msg(&initialize(json!("legend"), true)));
        let (_, v) = c.ls.until(&json!("legend"))?;
        let l: Vec<String> = v["result"]["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
        for k in ["namespace", "variable", "macro", "method", "function"] { if !l.iter().any(|x| x == k) { return Err(format!("{k} is not in the legend {l:?}")) } }
        Ok(l)
    };
    let make = || {
        let k = n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let mut c = client(&base.join(format!("c{k}")), "a.[]", None, &[]);
        let l = legend_of(&mut c);
        (c, l, (0u64, 0u64))
    };
    for space in [
        Space { name: "characters", symbols: CHARS, max: t(4, 5) },
        Space { name: "fragments", symbols: &["[m.c", "]", " ", "\n", "{é\u{301}𝒳.d", "}", "<", ".", "x", ">", "\\", "🏳️‍🌈", "\r\n"], max: t(4, 5) },
        Space { name: "commands", symbols: &["[m.c x]", "{mod.ident ", "}", "\n", "\n\n", "𝒳", "<a.b>", "[あ.い う", "]", "\\]", "\r\n"], max: t(5, 6) },
    ] {
        let commands = std::sync::atomic::AtomicU64::new(0);
        explore(ctx, &space, make, |_| true, |(c, legend, k), doc, depth| {
            ctx.leave();
            let r = match legend { Ok(l) => check_tokens(c, doc, l), Err(e) => Err(e.clone()) };
            match r { Ok(m) => { k.0 += 1; k.1 += m as u64 } Err(e) => ctx.violation(depth, doc, format!("P16: document {doc:?}: {e}"), json!({"document": doc})) }
        }, |(_, _, k)| { commands.fetch_add(k.1, std::sync::atomic::Ordering::SeqCst); });
        ctx.count(&format!("tokens in {}", space.name), commands.into_inner());
        if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("{} {:.1} s", space.name, ctx.start.elapsed().as_secs_f64()) }
    }
    // large documents
    let (mut c, legend, _) = make();
    if let Ok(l) = &legend {
        for p in ["[m.c x]", "a\n[m.c 𝒳]{n.d}", "\n\n\n[m.c", "é\u{301} ", "<a.b>\r\n", "[mod.ident x, y]\n\n"] {
            let doc = p.repeat(t(300, 2000));
            match check_tokens(&mut c, &doc, l) { Ok(_) => ctx.trace(), Err(e) => ctx.violation(9999, p, format!("P16: {p:?} repeated: {}", e.chars().take(500).collect::<String>()), json!({"document": doc})) }
        }
        // far to the right, far down, and long
        for k in [100, 250, 260, 500, 520, 1000, 1030, 2050, 4100, 5000, 8200, 10_000, 16_400, 32_800, 65_600] {
            let (x, w) = ("x".repeat(k), "𝒳".repeat(k / 2));
            let mut docs = vec![format!("{x}[m.c y]"), format!("[m.c {x}]"), format!("[{x}.{x} y]"), format!("[m.c {w}]\n{{n.d {x}}}"), format!("{w}\r\n<{w}.b {x}>[m.c]")];
            if k <= 5000 { let n = "\n".repeat(k); docs.push(format!("{n}[m.c y]")); docs.push(format!("[m.c y]{n}{{n.d y}}")) }
            for doc in docs { match check_tokens(&mut c, &doc, l) { Ok(_) => ctx.trace(), Err(e) => ctx.violation(9000 + k, "far", format!("P16: a document with {k} characters or lines in a row: {}", e.chars().take(500).collect::<String>()), json!({"document": doc})) } }
        }
    }
    ctx.sample(json!({"document": "𝒳[m.c x]\r\n<a.b>"}));
    let _ = std::fs::remove_dir_all(&base);
    ctx.finish("model_checking", !ctx.stopped(), &["the brackets, modules and identifiers of a document are those of the tokenizer, which P01 and P02 check; whether escaped brackets are coloured is not specified"])
}

// ---------------------------------------------------------------- P17

/// The labels offered for a document after a trigger, checked against the closing bracket.
fn labels(ls: &mut Ls, u: &str, id: Json, trigger: Option<&str>) -> Result<Vec<String>, String> {
    ls.write(&msg(&completion(id.clone(), u, trigger)));
    let (_, v) = ls.until(&id)?;
    let items = match &v["result"] {
        Json::Null if v.get("error").is_none() => vec![],
        Json::Array(a) => a.clone(),
        r => r["items"].as_array().cloned().ok_or(format!("answered by {v}"))?,
    };
    let close = match trigger { Some("[") => "]", Some("{") => "}", Some("<") => ">", _ => "" };
    let mut got = vec![];
    for i in &items {
        let label = i["label"].as_str().unwrap_or("").to_string();
        let text = i["textEdit"]["newText"].as_str().or(i["insertText"].as_str()).unwrap_or(&label);
        if !text.starts_with(&label) || !text.ends_with(close) { return Err(format!("{label} inserts {text:?}")) }
        got.push(label);
    }
    got.sort();
    Ok(got)
}

/// Histories: the configuration of a project changes while its documents, and those of another
/// project, are opened one after the other.
fn reopened(ctx: &Ctx, base: &Path) {
    // plugins of the configurations: (name, version); a version offers a command of that name
    // z cannot be had: there is no network and it was not downloaded before
    let configurations: [&[(&str, &str)]; 8] = [&[("m", "v1")], &[("m", "v2")], &[("n", "v1")], &[("m", "v1"), ("n", "v1")], &[("n", "v2"), ("m", "v2")], &[], &[("z", "v1")], &[("m", "v2"), ("n", "v1"), ("z", "v1")]];
    let usable = |c: usize| configurations[c].iter().all(|(n, _)| *n != "z");
    let offers = |c: usize, r: &str| { let mut v: Vec<String> = configurations[c].iter().map(|(n, x)| format!("{n}.{x}{}", if r == "TInline" { "" } else { "b" })).collect(); v.sort(); v };
    let depth = if ctx.thorough { 4 } else { 3 };
    let n = configurations.len();
    // a step: the first project's configuration becomes this, and this document is opened
    let letters: Vec<(Option<usize>, usize)> = (0..n).flat_map(|c| [(Some(c), 0), (Some(c), 1)]).chain([(None, 2), (None, 0), (None, 3)]).collect();
    let mut tasks: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth { tasks = tasks.iter().flat_map(|h| (0..letters.len()).map(move |l| { let mut h = h.clone(); h.push(l); h })).collect() }
    let place = |dir: &Path, name: &str, version: &str| {
        let h = PluginSchema::GitHub { owner: "o".into(), repo: name.into(), version: version.into(), expr_hook: None, stmt_hook: None, document_hook: None, text_hook: None };
        dir.join("plugins").join(format!("{name}_{}.wasm", h.hash_sha256("b")))
    };
    let configure = |dir: &Path, plugins: &[(&str, &str)]| {
        let mut toml = "[document]\nname = \"n\"\nversion = \"v\"\nbackend = \"b\"\nauthors = []\n".to_string();
        for (n, v) in plugins { toml += &format!("[plugins.{n}]\nschema = \"github\"\nowner = \"o\"\nrepo = \"{n}\"\nversion = \"{v}\"\n") }
        std::fs::write(dir.join("Brack.toml"), toml).unwrap();
    };
    let wasms: Vec<(&str, &str, Vec<u8>)> = ["m", "n"].iter().flat_map(|n| ["v1", "v2"].map(|v| (*n, v, plug::wasm(n, &[plug::cmd(v, "TInline", vec![], Body::Echo), plug::cmd(&format!("{v}b"), "TBlock", vec![], Body::Echo)])))).collect();
    let k = std::sync::atomic::AtomicUsize::new(0);
    par(ctx, &tasks, || {
        let dir = base.join(format!("r{}", k.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        let (one, two) = (dir.join("one"), dir.join("two"));
        for d in [&one, &two] {
            project_with_documents(d);
            for (n, v, w) in &wasms { std::fs::write(place(d, n, v), w).unwrap() }
        }
        configure(&two, configurations[1]);
        (dir, one, two)
    }, |(dir, one, two), h| {
        ctx.leave();
        configure(one, &[]);
        let mut ls = Ls::start(dir);
        ls.write(&msg(&initialize(json!("init"), true)));
        let _ = ls.until(&json!("init"));
        let mut current = 5;
        // by which configuration completion goes in a project: that with which a document of it was last opened successfully
        let mut loaded: [Option<usize>; 2] = [None, None];
        // whether the last attempt failed
        let mut failed = [false; 2];
        let documents = [uri(&one.join("docs/a.[]")), uri(&one.join("docs/b.[]")), uri(&two.join("docs/a.[]")), uri(&dir.join("alone/docs/a.[]"))];
        for (i, l) in h.iter().enumerate() {
            let (c, d) = letters[*l];
            if let Some(c) = c { current = c; configure(one, configurations[c]) }
            ls.write(&msg(&open(&documents[d])));
            if d < 3 {
                let (p, now) = (d / 2, if d == 2 { 1 } else { current });
                failed[p] = !usable(now);
                if usable(now) { loaded[p] = Some(now) }
            }
            // in every document, opened or not
            for (x, u) in documents.iter().enumerate() {
                if x == 1 && d != 1 { continue }
                let p = x / 2;
                let (known, uncertain) = if x == 3 { (None, false) } else { (loaded[p], failed[p]) };
                for (t, r) in [("[", "TInline"), ("{", "TBlock")] {
                    if t == "{" && x != d { continue }
                    let want = known.map(|k| offers(k, r)).unwrap_or_default();
                    let r = match labels(&mut ls, u, json!(format!("{i}{x}{t}")), Some(t)) {
                        Ok(got) if got == want => Ok(()),
                        Ok(got) if got.is_empty() && uncertain => Ok(()),
                        Err(e) if uncertain && e.starts_with("answered by") => Ok(()),
                        Ok(got) => Err(format!("offers {got:?} instead of {want:?}")),
                        Err(e) => Err(e),
                    };
                    if let Err(e) = r {
                        let kinds = ["document a", "document b", "a document of another project", "a document of no project"];
                        let what: Vec<String> = h[..=i].iter().map(|l| { let (c, d) = letters[*l]; format!("{}open {}", c.map(|c| format!("configure {:?}, ", configurations[c])).unwrap_or_default(), kinds[d]) }).collect();
                        ctx.violation(10 + i, &format!("{h:?}"), format!("P17: {}: after {t:?} in {}: {e}", what.join("; "), kinds[x]), json!({"history": what, "document": kinds[x]}));
                        return;
                    }
                }
            }
            ctx.trace();
        }
        ctx.state(&format!("{h:?}"));
        for w in h.windows(2) { ctx.transition(&format!("{w:?}")) }
    }, |(dir, ..)| { let _ = std::fs::remove_dir_all(&dir); });
    ctx.count("histories of configurations and opened documents", tasks.len() as u64);
    if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("reopened {:.1} s", ctx.start.elapsed().as_secs_f64()) }
}

pub fn p17(ctx: &Ctx) -> i32 {
    let base = tmp_dir("p17");
    // what a plugin may offer
    let offers: [(&str, &'static str); 6] = [("a", "TInline"), ("a", "TBlock"), ("a", "TAST"), ("b", "TInline"), ("あ", "TAST"), ("text", "TInline")];
    let triggers = [Some("["), Some("{"), Some("<"), Some(" "), Some("."), Some("]"), Some("x"), Some(""), None];
    let cmds = |mask: usize| offers.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, (n, r))| plug::cmd(n, r, vec![plug::t(), plug::opt(), plug::arr()], Body::Echo)).collect::<Vec<_>>();
    let mut tasks: Vec<Vec<usize>> = vec![];
    for a in 0..64 { tasks.push(vec![a]) }
    let some = if ctx.thorough { (0..64).collect::<Vec<_>>() } else { vec![0, 1, 2, 4, 7, 8, 9, 12, 16, 20, 28, 32, 35, 49, 62, 63] };
    for a in &some { for b in &some { tasks.push(vec![*a, *b]) } }
    for a in [1, 7, 63] { for b in [2, 7] { for c in [4, 56] { tasks.push(vec![a, b, c]) } } }
    tasks.push(vec![]);
    let names = ["m", "mod-2", "n"];
    let offered = std::sync::atomic::AtomicU64::new(0);
    par(ctx, &tasks, || (), |_, masks| {
        ctx.leave();
        let k = masks.iter().fold(masks.len(), |k, m| k * 64 + m);
        let dir = base.join(format!("p{k}"));
        project_with_documents(&dir);
        let mut toml = std::fs::read_to_string(dir.join("Brack.toml")).unwrap();
        for (i, m) in masks.iter().enumerate() {
            toml += &format!("[plugins.{}]\nschema = \"github\"\nowner = \"o\"\nrepo = \"{0}\"\nversion = \"v\"\n", names[i]);
            std::fs::write(plugin_path(&dir, names[i], "b"), plug::wasm(names[i], &cmds(*m))).unwrap();
        }
        std::fs::write(dir.join("Brack.toml"), toml).unwrap();
        // a file that is no plugin of the project
        std::fs::write(dir.join("plugins/stray_0.wasm"), plug::wasm("stray", &cmds(63))).unwrap();
        let u = uri(&dir.join("docs/a.[]"));
        let mut ls = Ls::start(&dir);
        ls.write(&msg(&initialize(json!("init"), true)));
        let _ = ls.until(&json!("init"));
        let check = |ls: &mut Ls, project: bool, id: String, trigger: Option<&str>| -> Result<(), String> {
            let got = labels(ls, &u, json!(id), trigger)?;
            let ret = match trigger { Some("[") => "TInline", Some("{") => "TBlock", Some("<") => "TAST", _ => "" };
            let mut want: Vec<String> = vec![];
            if project { for (i, m) in masks.iter().enumerate() { for c in cmds(*m) { if c.ret == ret { want.push(format!("{}.{}", names[i], c.name)) } } } }
            want.sort();
            offered.fetch_add(got.len() as u64, std::sync::atomic::Ordering::SeqCst);
            if got != want { return Err(format!("offers {got:?} instead of {want:?}")) }
            Ok(())
        };
        let r: Result<(), String> = (|| {
            for (i, t) in triggers.iter().enumerate() { check(&mut ls, false, format!("before {i}"), *t).map_err(|e| format!("without a project, trigger {t:?}: {e}"))? }
            for round in 0..2 {
                ls.write(&msg(&open(&u)));
                for (i, t) in triggers.iter().enumerate() { check(&mut ls, true, format!("{round} {i}"), *t).map_err(|e| format!("trigger {t:?}: {e}"))? }
            }
            Ok(())
        })();
        if let Err(e) = r {
            let what = format!("{:?}", masks.iter().enumerate().map(|(i, m)| format!("{}: {:?}", names[i], cmds(*m).iter().map(|c| format!("{} {}", c.name, c.ret)).collect::<Vec<_>>())).collect::<Vec<_>>());
            ctx.violation(masks.len(), &what, format!("P17: plugins {what}: {e}"), json!({"plugins": what}));
        }
        ctx.state(&format!("{masks:?}"));
        for t in triggers { ctx.transition(&format!("{masks:?} {t:?}")) }
        ctx.traces.fetch_add(triggers.len() as u64 * 3, std::sync::atomic::Ordering::Relaxed);
        let _ = std::fs::remove_dir_all(&dir);
    }, |_| ());
    ctx.count("sets of plugins", tasks.len() as u64);
    // many commands, many plugins
    let numbers: Vec<(usize, usize)> = (7..=33).chain([49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 400]).map(|n| (1, n)).chain((3..=17).chain([31, 32, 33, 50, 64, 65]).map(|k| (k, 1))).chain([(5, 40), (20, 20)]).collect();
    par(ctx, &numbers, || (), |_, (k, n)| {
        ctx.leave();
        let dir = base.join(format!("many {k} {n}"));
        project_with_documents(&dir);
        let mut toml = std::fs::read_to_string(dir.join("Brack.toml")).unwrap();
        let kinds = ["TInline", "TBlock", "TAST"];
        let mut want: [Vec<String>; 3] = Default::default();
        for i in 0..*k {
            let name = format!("p{i}");
            toml += &format!("[plugins.{name}]\nschema = \"github\"\nowner = \"o\"\nrepo = \"{name}\"\nversion = \"v\"\n");
            let cmds: Vec<plug::Command> = (0..*n).flat_map(|c| kinds.map(|r| plug::cmd(&format!("c{c}"), r, vec![plug::t()], Body::Const("x".into())))).collect();
            for c in 0..*n { for w in want.iter_mut() { w.push(format!("{name}.c{c}")) } }
            std::fs::write(plugin_path(&dir, &name, "b"), plug::wasm(&name, &cmds)).unwrap();
        }
        for w in want.iter_mut() { w.sort() }
        std::fs::write(dir.join("Brack.toml"), toml).unwrap();
        let u = uri(&dir.join("docs/a.[]"));
        let mut ls = Ls::start(&dir);
        ls.write(&msg(&initialize(json!("init"), true)));
        let _ = ls.until(&json!("init"));
        ls.write(&msg(&open(&u)));
        for (i, t) in ["[", "{", "<"].iter().enumerate() {
            let r = labels(&mut ls, &u, json!(i), Some(t)).and_then(|got| if got == want[i] { Ok(()) } else { Err(format!("{} commands are offered", got.len())) });
            if let Err(e) = r { ctx.violation(k * 1000 + n, &format!("{k} {n}"), format!("P17: {k} plugins of {n} commands of each kind, trigger {t:?}: {e}"), json!({"plugins": k, "commands": n})) }
            ctx.trace();
        }
        ctx.state(&format!("many {k} {n}"));
        let _ = std::fs::remove_dir_all(&dir);
    }, |_| ());
    ctx.count("numbers of plugins and commands", numbers.len() as u64);
    if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("many {:.1} s", ctx.start.elapsed().as_secs_f64()) }
    if !ctx.stopped() { reopened(ctx, &base) }
    ctx.count("completions offered", offered.into_inner());
    ctx.sample(json!({"offers": offers, "triggers": triggers}));
    let _ = std::fs::remove_dir_all(&base);
    ctx.finish("model_checking", !ctx.stopped(), &["plugins are found in the project's cache under the name the project manager's own hash gives them"])
}
