//! P22: configurations survive being written and read.
use crate::common::*;
use brack_project_manager::{config::Config, document::Document, plugin::PluginSchema, project::Project};
use serde_json::{json, Value as Json};
use std::collections::HashMap;
use std::path::Path;

const STRINGS: &[&str] = &["", "a", " ", "\"", "\\", "\n", "\r\n", "'", "#", "あ", "\u{0}", "\t", "=", "]", "a.b", "\u{7f}", "'''", "\"\"\"", "\\n", "🏳️‍🌈", "true", "1", "${x}", "\u{1b}[0m", "\r", "[plugins]", "a\nb=c", "é\u{301}", "owner", "\u{feff}"];

#[derive(Clone, Debug)]
struct P { key: String, owner: String, repo: String, version: String, hooks: [Option<bool>; 4] }
#[derive(Clone, Debug)]
struct C { name: String, version: String, backend: String, authors: Vec<String>, plugins: Option<Vec<P>> }

fn build(c: &C) -> Config {
    Config {
        document: Document { name: c.name.clone(), version: c.version.clone(), backend: c.backend.clone(), authors: c.authors.clone() },
        plugins: c.plugins.as_ref().map(|ps| ps.iter().map(|p| (p.key.clone(), PluginSchema::GitHub {
            owner: p.owner.clone(), repo: p.repo.clone(), version: p.version.clone(),
            expr_hook: p.hooks[0], stmt_hook: p.hooks[1], document_hook: p.hooks[2], text_hook: p.hooks[3],
        })).collect::<HashMap<_, _>>()),
    }
}
pub fn canon(c: &Config) -> Json {
    let mut plugins = serde_json::Map::new();
    for (k, PluginSchema::GitHub { owner, repo, version, expr_hook, stmt_hook, document_hook, text_hook }) in c.plugins.iter().flatten() {
        plugins.insert(k.clone(), json!({"owner": owner, "repo": repo, "version": version, "expr_hook": expr_hook, "stmt_hook": stmt_hook, "document_hook": document_hook, "text_hook": text_hook}));
    }
    json!({"name": c.document.name, "version": c.document.version, "backend": c.document.backend, "authors": c.document.authors, "plugins": plugins})
}

fn load(dir: &Path, text: &str) -> Result<Result<Json, String>, String> {
    std::fs::write(dir.join("Brack.toml"), text).unwrap();
    catch(|| {
        let mut p = Project::new(dir);
        p.load_brack_toml().map(|()| canon(&p.config)).map_err(|e| format!("{e:#}").chars().take(200).collect())
    })
}

fn round_trip(dir: &Path, c: &C) -> Result<(), String> {
    let config = build(c);
    let want = canon(&config);
    let text = catch(|| toml::to_string(&config))?.map_err(|e| format!("cannot be written: {e}"))?;
    match load(dir, &text)? {
        Ok(got) if got == want => Ok(()),
        Ok(got) => Err(format!("written as {text:?}, read back as {got}")),
        Err(e) => Err(format!("written as {text:?}, cannot be read back: {e}")),
    }
}

pub fn run(ctx: &Ctx) -> i32 {
    let s = |x: &str| x.to_string();
    let p = |key: &str| P { key: s(key), owner: s("o"), repo: s("r"), version: s("v"), hooks: [None; 4] };
    let base = C { name: s("n"), version: s("v"), backend: s("b"), authors: vec![s("x")], plugins: Some(vec![p("m")]) };
    let mut cases: Vec<C> = vec![];
    let set = |c: &mut C, field: usize, v: &str| match field {
        0 => c.name = s(v), 1 => c.version = s(v), 2 => c.backend = s(v), 3 => c.authors = vec![s(v)],
        4 => c.plugins.as_mut().unwrap()[0].key = s(v), 5 => c.plugins.as_mut().unwrap()[0].owner = s(v),
        6 => c.plugins.as_mut().unwrap()[0].repo = s(v), _ => c.plugins.as_mut().unwrap()[0].version = s(v),
    };
    // every string, and every pair of strings glued together, in every field
    let mut strings: Vec<String> = STRINGS.iter().map(|x| s(x)).collect();
    for a in STRINGS { for b in STRINGS { strings.push(format!("{a}{b}")) } }
    if ctx.thorough { for a in STRINGS { for b in STRINGS { for c in STRINGS { strings.push(format!("{a}{b}{c}")) } } } }
    for f in 0..8 { for v in &strings { let mut c = base.clone(); set(&mut c, f, v); cases.push(c) } }
    // every pair of fields
    for f in 0..8 { for g in f + 1..8 { for v in STRINGS { for w in STRINGS { let mut c = base.clone(); set(&mut c, f, v); set(&mut c, g, w); cases.push(c) } } } }
    // authors
    let lists: Vec<Vec<String>> = std::iter::once(vec![]).chain(STRINGS.iter().flat_map(|a| STRINGS.iter().map(move |b| vec![a.to_string(), b.to_string()]))).chain([vec![s("a"), s("b"), s("a"), s("")]]).collect();
    for l in &lists { let mut c = base.clone(); c.authors = l.clone(); cases.push(c) }
    // no table, an empty table, one or two plugins with every hook setting, three plugins
    for ps in [None, Some(vec![])] { let mut c = base.clone(); c.plugins = ps; cases.push(c) }
    let hooks = |i: usize| -> [Option<bool>; 4] { std::array::from_fn(|h| [None, Some(true), Some(false)][i / 3usize.pow(h as u32) % 3]) };
    for i in 0..81 { for j in 0..81 {
        let mut c = base.clone();
        c.plugins = Some(vec![P { hooks: hooks(i), ..p("m") }, P { hooks: hooks(j), owner: s("q"), ..p("n") }]);
        cases.push(c);
    } }
    for a in STRINGS { for b in STRINGS { if a != b {
        let mut c = base.clone();
        c.plugins = Some(vec![P { hooks: hooks(5), ..p(a) }, P { hooks: hooks(70), repo: s(b), ..p(b) }, P { version: s(a), ..p("third") }]);
        cases.push(c);
    } } }
    par(ctx, &cases, || tmp_dir("p22"), |dir, c| {
        ctx.enter(&format!("{c:?}"));
        if let Err(e) = round_trip(dir, c) {
            let d = format!("{c:?}");
            ctx.violation(d.len(), &d, format!("P22: configuration {d}: {e}"), json!({"configuration": d}));
        }
        ctx.state(&format!("{c:?}"));
        ctx.trace();
    }, |_| ());
    ctx.count("configurations written and read", cases.len() as u64);
    if !ctx.stopped() { rejected(ctx) }
    ctx.note("rule", json!("every string (and glued pair; triple in the thorough tier) of the list in every field, every pair of strings in every pair of fields, every hook setting of two plugins; then every way to leave out, double, misspell or mistype one or two settings of a plugin; a case counts as distinct by its text"));
    ctx.note("strings", json!(STRINGS));
    ctx.sample(json!({"written": toml::to_string(&build(&base)).unwrap()}));
    ctx.finish("exploration", !ctx.stopped(), &["configurations are written with the same serialization that adding a plugin uses (toml::to_string of Config), and read by Project::load_brack_toml"])
}

/// Every way to leave out, double, misspell or mistype one or two of the settings of a plugin.
fn rejected(ctx: &Ctx) {
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum V { Good, Missing, Double, Number, List, Unknown, Other }
    use V::*;
    let keys = ["schema", "owner", "repo", "version", "expr_hook", "stmt_hook", "document_hook", "text_hook"];
    let options = [Good, Missing, Double, Number, List, Unknown, Other];
    let mut cases: Vec<[V; 8]> = vec![[Good; 8]];
    for i in 0..8 { for a in options { let mut c = [Good; 8]; c[i] = a; cases.push(c); for j in i + 1..8 { for b in options { let mut c = c; c[j] = b; cases.push(c) } } } }
    cases.dedup();
    let tasks: Vec<([V; 8], bool)> = cases.iter().flat_map(|c| [(*c, true), (*c, false)]).collect();
    let counts = std::sync::Mutex::new((0u64, 0u64));
    par(ctx, &tasks, || tmp_dir("p22"), |dir, (c, table)| {
        let mut lines: Vec<String> = vec![];
        let mut good = true;
        for (k, v) in keys.iter().zip(c) {
            let hook = k.ends_with("hook");
            let value = if hook { "true" } else if *k == "schema" { "\"github\"" } else { "\"x\"" };
            match v {
                Good => lines.push(format!("{k} = {value}")),
                Missing => good &= hook,
                Double => { lines.push(format!("{k} = {value}")); lines.push(format!("{k} = {value}")); good = false }
                Number => { lines.push(format!("{k} = 1")); good = false }
                List => { lines.push(format!("{k} = [{value}]")); good = false }
                Unknown => { lines.push(format!("{k} = {value}")); lines.push(format!("{k}s = {value}")); good = false }
                Other => { lines.push(format!("{k} = {}", if hook { "false" } else { "\"gitlab\"" })); good &= *k != "schema" }
            }
        }
        let mut text = "[document]\nname = \"n\"\nversion = \"v\"\nbackend = \"b\"\nauthors = []\n".to_string();
        if *table { text += &format!("[plugins.m]\n{}\n", lines.join("\n")) } else { text += &format!("[plugins]\nm = {{ {} }}\n", lines.join(", ")) }
        ctx.enter(&text);
        match load(dir, &text) {
            Ok(r) if r.is_ok() == good => {
                let mut n = counts.lock().unwrap();
                if good { n.0 += 1 } else { n.1 += 1 }
                drop(n);
                if let Ok(got) = r {
                    let h = |i: usize| match c[i] { Missing => Json::Null, Other => json!(false), _ => json!(true) };
                    let f = |i: usize| if c[i] == Other { "gitlab" } else { "x" };
                    let want = json!({"name": "n", "version": "v", "backend": "b", "authors": [], "plugins": {"m": {"owner": f(1), "repo": f(2), "version": f(3),
                        "expr_hook": h(4), "stmt_hook": h(5), "document_hook": h(6), "text_hook": h(7)}}});
                    if got != want { ctx.violation(1, &text, format!("P22: {text:?} is read as {got}, not {want}"), json!({"toml": text})) }
                }
            }
            Ok(r) => ctx.violation(1, &text, format!("P22: {text:?} should be {}, but: {r:?}", if good { "accepted" } else { "rejected" }), json!({"toml": text})),
            Err(e) => ctx.violation(1, &text, format!("P22: {text:?}: {e}"), json!({"toml": text})),
        }
        ctx.state(&text);
        ctx.trace();
    }, |_| ());
    // other broken files
    let dir = tmp_dir("p22");
    let doc = "[document]\nname = \"n\"\nversion = \"v\"\nbackend = \"b\"\nauthors = []\n";
    let mut broken = vec![];
    // what is almost a supported source, or almost a setting
    for schema in ["GitHub", "GITHUB", "Github", "githuB", "github ", " github", "github\\n", "git", "githubs", "github:", "github.com", "hub", "gh", "", " ", "gıthub", "ｇithub", "github\\u0000", "https", "local", "url", "path", "null", "true", "GitLab", "gitlab", "github:o/r@v"] {
        broken.push(format!("{doc}[plugins.m]\nschema = \"{schema}\"\nowner = \"o\"\nrepo = \"r\"\nversion = \"v\"\n"));
    }
    for v in ["1", "0", "1.5", "\"true\"", "\"\"", "[]", "[true]", "{}", "1979-05-27", "True", "yes"] { for k in ["expr_hook", "stmt_hook", "document_hook", "text_hook"] {
        broken.push(format!("{doc}[plugins.m]\nschema = \"github\"\nowner = \"o\"\nrepo = \"r\"\nversion = \"v\"\n{k} = {v}\n"));
    } }
    for v in ["1", "true", "[]", "[\"o\"]", "{}", "1979-05-27", "1.5"] { for k in ["schema", "owner", "repo", "version"] {
        let good = format!("schema = \"github\"\nowner = \"o\"\nrepo = \"r\"\nversion = \"v\"\n");
        let lines: Vec<String> = good.lines().map(|l| if l.starts_with(k) { format!("{k} = {v}") } else { l.to_string() }).collect();
        broken.push(format!("{doc}[plugins.m]\n{}\n", lines.join("\n")));
    } }
    for k in ["Schema", "Owner", "REPO", "branch", "rev", "tag", "url", "path", "hook", "hooks", "text-hook", "textHook", "text_hooks", "Text_hook", "block_hook", "inline_hook", "document", "name", "backend", "", "owner ", "sha256"] { for v in ["true", "\"x\""] {
        broken.push(format!("{doc}[plugins.m]\nschema = \"github\"\nowner = \"o\"\nrepo = \"r\"\nversion = \"v\"\n\"{k}\" = {v}\n"));
    } }
    broken.extend(["".to_string(), "[plugins]\n".into(), "[document]\n".into(), format!("{doc}[plugins]\nm = \"github:o/r@v\"\n"), format!("{doc}[plugins]\nm = []\n"), format!("plugins = 1\n{doc}"), "name = 1".into(), "\u{0}".into(), "[".into()]);
    for k in ["name", "version", "backend", "authors"] {
        broken.push(doc.lines().filter(|l| !l.starts_with(k)).collect::<Vec<_>>().join("\n"));
        broken.push(doc.replace(&format!("{k} = "), &format!("{k} = 1 #")));
        broken.push(format!("{doc}{k} = \"twice\"\n"));
    }
    for text in &broken {
        match load(&dir, text) {
            Ok(Err(_)) => (),
            r => ctx.violation(1, text, format!("P22: {text:?} should be rejected, but: {r:?}"), json!({"toml": text})),
        }
        ctx.state(text);
        ctx.trace();
    }
    let n = counts.lock().unwrap();
    ctx.count("plugin settings accepted", n.0);
    ctx.count("plugin settings rejected", n.1 + broken.len() as u64);
}
