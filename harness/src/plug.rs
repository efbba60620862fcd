//! Plugins for the checks, generated as WebAssembly: commands that answer with their own name and
//! exactly what they were given, count their calls, or answer with something fixed.
use serde_json::{json, Value as Json};
use std::fmt::Write;
use std::path::{Path, PathBuf};

pub enum Body {
    /// NAME(input)
    Echo,
    /// a text node NAME#calls(input)
    Macro,
    /// always this
    Const(String),
    /// so many bytes, as `big` says
    Big(usize),
    /// number of calls of all Echo and Macro commands so far
    Count,
    /// a trap
    Trap,
}
pub struct Command { pub name: String, pub call: String, pub args: Vec<Json>, pub ret: &'static str, pub body: Body }

pub fn t() -> Json { json!("TInline") }
pub fn opt() -> Json { json!({"TOption": "TInline"}) }
pub fn arr() -> Json { json!({"TArray": "TInline"}) }

pub fn cmd(name: &str, ret: &'static str, args: Vec<Json>, body: Body) -> Command {
    Command { name: name.into(), call: format!("{name}_{ret}"), args, ret, body }
}

pub fn metadata(cmds: &[Command]) -> Json {
    cmds.iter().map(|c| json!({
        "command_name": c.name, "call_name": c.call, "return_type": c.ret,
        "argument_types": c.args.iter().enumerate().map(|(i, a)| json!([format!("a{i}"), a])).collect::<Vec<_>>(),
    })).collect()
}

pub fn big(n: usize) -> String { (0..n).map(|i| (b'a' + (i % 25) as u8) as char).collect() }

/// What Echo and Macro make of their input: it stays one JSON string.
pub fn mapped(s: &str) -> String { s.replace('"', "'").replace('\\', "/") }
/// The name under which a command answers.
pub fn answer_name(plugin: &str, c: &str, ret: &str) -> String {
    format!("{plugin}.{c}{}", match ret { "TInline" => "", "TBlock" => "!", _ => "?" })
}
pub const MACRO_LOCATION: &str = r#"{"start":{"line":7,"character":7},"end":{"line":7,"character":8}}"#;

pub fn wasm(plugin: &str, cmds: &[Command]) -> Vec<u8> { wasm_with(plugin, cmds, &metadata(cmds).to_string()) }

/// With this text as metadata.
pub fn wasm_with(plugin: &str, cmds: &[Command], metadata: &str) -> Vec<u8> {
    let mut data: Vec<u8> = vec![];
    let mut put = |s: &str| { let at = data.len(); data.extend(s.as_bytes()); (at, s.len()) };
    let mut funcs = String::new();
    let meta = put(metadata);
    // plugins are made for WASI, and this one uses it
    let scratch = put("00000000").0;
    writeln!(funcs, r#"(func (export "get_metadata") (result i32) (drop (call $random (i32.const {scratch}) (i32.const 8))) (call $const (i32.const {}) (i32.const {})) (i32.const 0))"#, meta.0, meta.1).unwrap();
    for c in cmds {
        let name = answer_name(plugin, &c.name, c.ret);
        let body = match &c.body {
            Body::Echo => {
                let (p, s) = (put(&format!("{name}(")), put(")"));
                format!("(call $emit (i32.const {}) (i32.const {}) (i32.const {}) (i32.const {}) (i32.const 0))", p.0, p.1, s.0, s.1)
            }
            Body::Macro => {
                let p = put(&format!(r#"{{"Text":{{"id":"result","location":{MACRO_LOCATION},"value":"{name}#"#));
                let s = put(r#")"}}"#);
                format!("(call $emit (i32.const {}) (i32.const {}) (i32.const {}) (i32.const {}) (i32.const 1))", p.0, p.1, s.0, s.1)
            }
            Body::Const(x) => { let x = put(x); format!("(call $bump) (call $const (i32.const {}) (i32.const {}))", x.0, x.1) }
            Body::Big(n) => format!("(call $bump) (call $big (i64.const {n}))"),
            Body::Count => "(call $count)".into(),
            Body::Trap => "unreachable".into(),
        };
        writeln!(funcs, r#"(func (export "{}") (result i32) {body} (i32.const 0))"#, c.call).unwrap();
    }
    let pages = data.len() / 65536 + 1;
    let mut bytes = String::new();
    for b in &data { write!(bytes, "\\{b:02x}").unwrap() }
    let wat = format!(r#"(module
 (import "extism:host/env" "input_length" (func $input_length (result i64)))
 (import "extism:host/env" "input_load_u8" (func $input (param i64) (result i32)))
 (import "extism:host/env" "alloc" (func $alloc (param i64) (result i64)))
 (import "extism:host/env" "store_u8" (func $store (param i64 i32)))
 (import "extism:host/env" "output_set" (func $output (param i64 i64)))
 (import "wasi_snapshot_preview1" "environ_sizes_get" (func $environ (param i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "random_get" (func $random (param i32 i32) (result i32)))
 (memory (export "memory") {pages})
 (data (i32.const 0) "{bytes}")
 (global $n (mut i32) (i32.const 0))
 (func $bump (global.set $n (i32.add (global.get $n) (i32.const 1))))
 (func $copy (param $at i64) (param $p i32) (param $len i32)
  (local $i i32)
  (block $end (loop $l
   (br_if $end (i32.ge_u (local.get $i) (local.get $len)))
   (call $store (i64.add (local.get $at) (i64.extend_i32_u (local.get $i))) (i32.load8_u (i32.add (local.get $p) (local.get $i))))
   (local.set $i (i32.add (local.get $i) (i32.const 1)))
   (br $l))))
 (func $const (param $p i32) (param $len i32)
  (local $at i64)
  (local.set $at (call $alloc (i64.extend_i32_u (local.get $len))))
  (call $copy (local.get $at) (local.get $p) (local.get $len))
  (call $output (local.get $at) (i64.extend_i32_u (local.get $len))))
 (func $big (param $len i64)
  (local $at i64) (local $i i64)
  (local.set $at (call $alloc (local.get $len)))
  (block $end (loop $l
   (br_if $end (i64.ge_u (local.get $i) (local.get $len)))
   (call $store (i64.add (local.get $at) (local.get $i)) (i32.add (i32.const 97) (i32.wrap_i64 (i64.rem_u (local.get $i) (i64.const 25)))))
   (local.set $i (i64.add (local.get $i) (i64.const 1)))
   (br $l)))
  (call $output (local.get $at) (local.get $len)))
 (func $digits (param $at i64)
  (local $i i32) (local $v i32)
  (local.set $v (global.get $n))
  (local.set $i (i32.const 9))
  (loop $l
   (local.set $i (i32.sub (local.get $i) (i32.const 1)))
   (call $store (i64.add (local.get $at) (i64.extend_i32_u (local.get $i))) (i32.add (i32.const 48) (i32.rem_u (local.get $v) (i32.const 10))))
   (local.set $v (i32.div_u (local.get $v) (i32.const 10)))
   (br_if $l (i32.ne (local.get $i) (i32.const 0)))))
 (func $count
  (local $at i64)
  (local.set $at (call $alloc (i64.const 9)))
  (call $digits (local.get $at))
  (call $output (local.get $at) (i64.const 9)))
 (func $emit (param $p i32) (param $plen i32) (param $s i32) (param $slen i32) (param $number i32)
  (local $at i64) (local $o i64) (local $i i64) (local $len i64) (local $total i64) (local $c i32)
  (call $bump)
  (local.set $len (call $input_length))
  (local.set $total (i64.add (local.get $len) (i64.extend_i32_u (i32.add (local.get $plen) (local.get $slen)))))
  (if (local.get $number) (then (local.set $total (i64.add (local.get $total) (i64.const 10)))))
  (local.set $at (call $alloc (local.get $total)))
  (call $copy (local.get $at) (local.get $p) (local.get $plen))
  (local.set $o (i64.add (local.get $at) (i64.extend_i32_u (local.get $plen))))
  (if (local.get $number) (then
   (call $digits (local.get $o))
   (call $store (i64.add (local.get $o) (i64.const 9)) (i32.const 40))
   (local.set $o (i64.add (local.get $o) (i64.const 10)))))
  (block $end (loop $l
   (br_if $end (i64.ge_u (local.get $i) (local.get $len)))
   (local.set $c (call $input (local.get $i)))
   (if (i32.eq (local.get $c) (i32.const 34)) (then (local.set $c (i32.const 39))))
   (if (i32.eq (local.get $c) (i32.const 92)) (then (local.set $c (i32.const 47))))
   (call $store (local.get $o) (local.get $c))
   (local.set $o (i64.add (local.get $o) (i64.const 1)))
   (local.set $i (i64.add (local.get $i) (i64.const 1)))
   (br $l)))
  (call $copy (local.get $o) (local.get $s) (local.get $slen))
  (call $output (local.get $at) (local.get $total)))
 {funcs})"#);
    wat::parse_str(&wat).expect("plugin")
}

pub fn write(dir: &Path, plugin: &str, cmds: &[Command]) -> PathBuf {
    let path = dir.join(format!("{plugin}_0.wasm"));
    std::fs::write(&path, wasm(plugin, cmds)).unwrap();
    path
}

pub fn load(plugins: &[(&str, PathBuf, brack_plugin::feature_flag::FeatureFlag)]) -> anyhow::Result<brack_plugin::plugins::Plugins> {
    let mut v = vec![];
    for (name, path, flag) in plugins { v.push(brack_plugin::plugin::Plugin::new(name, path, flag.clone())?) }
    brack_plugin::plugins::Plugins::new(v)
}

/// The plugins of a check are plugins like any other: when one of them cannot be loaded or called,
/// nothing can be expected of any document, and that is what the check reports.
pub fn loaded(plugins: &[(&str, PathBuf, brack_plugin::feature_flag::FeatureFlag)]) -> brack_plugin::plugins::Plugins {
    match crate::common::catch(|| load(plugins)) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => unusable(&format!("cannot be loaded: {e:#}")),
        Err(e) => unusable(&format!("cannot be loaded: {e}")),
    }
}
fn unusable(what: &str) -> ! {
    static ONCE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONCE.lock();
    let prop = std::env::args().nth(2).unwrap_or_default();
    crate::common::report(&prop, &format!("{prop}: a plugin that offers all it should {what}"), &json!({"plugin": "generated by plug.rs"}));
    crate::common::flush();
    std::process::exit(1)
}

pub fn count(p: &mut brack_plugin::plugins::Plugins, plugin: &str) -> u64 {
    match crate::common::catch(|| p.call_inline_command(plugin, "count", vec![])) {
        Ok(Ok(n)) => n.parse().unwrap_or_else(|_| unusable(&format!("answers {n:?} where it counts its calls"))),
        Ok(Err(e)) => unusable(&format!("cannot be called: {e:#}")),
        Err(e) => unusable(&format!("cannot be called: {e}")),
    }
}
