//! P01 - P07: tokenizer, parser and transformer against the reference model.
use crate::common::*;
use crate::docs::*;
use crate::refmodel::{self as rm, Br, Defect, Item, Node, Pos, Span, Tok, K, NK};
use brack_parser::cst::CST;
use brack_tokenizer::tokens::{Location, LocationData, Token};
use brack_transformer::ast::AST;
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use unicode_segmentation::UnicodeSegmentation;

pub fn span(l: &Location) -> Span {
    Span { s: Pos { l: l.start.line, c: l.start.character }, e: Pos { l: l.end.line, c: l.end.character } }
}
pub fn location(s: &Span) -> Location {
    Location { start: LocationData { line: s.s.l, character: s.s.c }, end: LocationData { line: s.e.l, character: s.e.c } }
}

fn kind(t: &Token) -> Option<(K, Option<&str>)> {
    Some(match t {
        Token::Empty(_) => return None,
        Token::Text(s, _) => (K::Text, Some(s)),
        Token::Module(s, _) => (K::Module, Some(s)),
        Token::Ident(s, _) => (K::Ident, Some(s)),
        Token::NewLine(_) => (K::NewLine, None),
        Token::WhiteSpace(_) => (K::Blank, Some(" ")),
        Token::Dot(_) => (K::Dot, Some(".")),
        Token::BackSlash(_) => (K::Back, Some("\\")),
        Token::AngleBracketOpen(_) => (K::Open(Br::Angle), Some("<")),
        Token::AngleBracketClose(_) => (K::Close(Br::Angle), Some(">")),
        Token::SquareBracketOpen(_) => (K::Open(Br::Square), Some("[")),
        Token::SquareBracketClose(_) => (K::Close(Br::Square), Some("]")),
        Token::CurlyBracketOpen(_) => (K::Open(Br::Curly), Some("{")),
        Token::CurlyBracketClose(_) => (K::Close(Br::Curly), Some("}")),
        Token::Comma(_) => (K::Comma, Some(",")),
        Token::EOF(_) => (K::Eof, Some("")),
    })
}

pub fn tokenize(doc: &str) -> Result<Vec<Token>, String> {
    match catch(|| brack_tokenizer::tokenize::tokenize_str(doc)) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(e) => Err(e),
    }
}
pub fn parse(t: &[Token]) -> Result<Option<CST>, String> {
    catch(|| brack_parser::parse::parse(t)).map(|r| r.ok())
}
pub type Errors = Vec<(String, Span)>;
pub fn transform(c: &CST) -> Result<(AST, Errors), String> {
    catch(|| brack_transformer::transform::transform(c)).map(|(ast, errors)| {
        (ast, errors.iter().map(|e| {
            let name = format!("{e:?}");
            (name.split('(').next().unwrap().to_string(), span(&e.get_location()))
        }).collect())
    })
}

/// Whether each error's message, and the error shown, tell its kind; the place is in the error shown.
fn messages(c: &CST) -> Result<(), String> {
    let (_, errors) = catch(|| brack_transformer::transform::transform(c))?;
    for e in errors {
        let name = format!("{e:?}");
        let kind = name.split('(').next().unwrap();
        let message = e.get_message();
        let low = message.to_lowercase();
        let has = |w: &str| low.contains(w);
        // it names what it is about, and no other bracket than the one it is about
        let (about, what): (&[&str], &[&str]) = match kind {
            "AngleNotOpened" => (&["angle"], &["open"]), "AngleNotClosed" => (&["angle"], &["clos"]), "CurlyNotOpened" => (&["curly"], &["open"]), "CurlyNotClosed" => (&["curly"], &["clos"]),
            "SquareNotOpened" => (&["square"], &["open"]), "SquareNotClosed" => (&["square"], &["clos"]), "MismatchedBracket" => (&[], &["match"]), "ModuleNotFound" => (&["module"], &[]),
            "IdentifierNotFound" => (&["identifier"], &[]), "DotNotFound" | "UnexpectedDot" => (&["dot"], &[]), "CommaNotFound" | "UnexpectedComma" => (&["comma"], &[]), "InvalidBackslash" => (&["backslash"], &[]), _ => continue,
        };
        let other = kind.ends_with("Opened") || kind.ends_with("Closed");
        let fits = about.iter().chain(what).all(|w| has(w)) && !(other && ["angle", "curly", "square"].iter().any(|w| has(w) && !about.contains(w)))
            && !(kind.ends_with("Opened") && has("clos")) && !(kind.ends_with("Closed") && has("open")) && !(kind == "UnexpectedDot" && has("comma")) && !(kind == "UnexpectedComma" && has("dot"));
        if !fits { return Err(format!("{kind} has the message {message:?}")) }
        let (shown, at) = (e.to_string(), e.get_location());
        if !shown.contains(&message) || [at.start.line, at.start.character, at.end.line, at.end.character].iter().any(|n| !shown.contains(&n.to_string())) { return Err(format!("{name} is shown as {shown:?}")) }
    }
    Ok(())
}

/// P01 for one document.
pub fn lossless(doc: &str, tokens: &[Token]) -> Result<(), String> {
    let mut rest: Vec<&str> = doc.graphemes(true).collect();
    rest.reverse();
    let mut p = Pos::default();
    for (i, t) in tokens.iter().enumerate() {
        let (k, text) = kind(t).ok_or_else(|| format!("token {i} is {t:?}"))?;
        let at = span(&t.get_location());
        if at.s != p { return Err(format!("token {i} {t:?} starts at {:?}, not at {:?}", at.s, p)) }
        let end = match (k, text) {
            (K::Eof, _) => {
                if i + 1 != tokens.len() { return Err(format!("token {i} is EOF but {} tokens follow", tokens.len() - i - 1)) }
                p
            }
            (K::NewLine, _) => match rest.pop() {
                Some("\n") | Some("\r\n") => Pos { l: p.l, c: p.c + 1 },
                other => return Err(format!("token {i} is a newline, the document has {other:?} there")),
            },
            (_, Some(text)) => {
                let mut got = String::new();
                let mut n = 0;
                while got.len() < text.len() {
                    match rest.pop() { Some(g) => { got.push_str(g); n += 1 } None => break }
                }
                if got != text { return Err(format!("token {i} {t:?}: the document has {got:?} there")) }
                if text.is_empty() { return Err(format!("token {i} {t:?} is empty")) }
                if text.contains('\n') { return Err(format!("token {i} {t:?} spans a line break")) }
                Pos { l: p.l, c: p.c + n }
            }
            _ => unreachable!(),
        };
        if at.e != end { return Err(format!("token {i} {t:?} ends at {:?}, not at {:?}", at.e, end)) }
        p = if k == K::NewLine { Pos { l: p.l + 1, c: 0 } } else { end };
    }
    if !matches!(tokens.last(), Some(Token::EOF(_))) { return Err("no end-of-input token".into()) }
    if !rest.is_empty() { return Err(format!("{} characters at the end are lost", rest.len())) }
    Ok(())
}

/// P02 for one document: role of every character, and each module and identifier in one piece.
pub fn roles(doc: &str, tokens: &[Token]) -> Result<(), String> {
    let model = rm::tokenize(doc);
    let expand = |it: &mut dyn Iterator<Item = (K, String)>| -> Vec<(K, String, usize)> {
        let mut out = vec![];
        for (i, (k, text)) in it.enumerate() {
            if k == K::NewLine { out.push((k, "\n".into(), i)) }
            else { for g in text.graphemes(true) { out.push((k, g.to_string(), i)) } }
        }
        out
    };
    let limit = model.unspecified_from.min(model.toks.len());
    let want = expand(&mut model.toks[..limit].iter().map(|t| (t.k, t.text.clone())));
    let got = expand(&mut tokens.iter().filter_map(|t| kind(t).map(|(k, s)| (k, s.unwrap_or("\n").to_string()))));
    for (i, (k, g, n)) in want.iter().enumerate() {
        let Some((k2, g2, n2)) = got.get(i) else { return Err(format!("character {i} {g:?} is missing")) };
        let same = k == k2 || (*k == K::Word && k2.word());
        if !same || g != g2 { return Err(format!("character {i} {g:?} is {k:?}, but was taken for {k2:?} ({g2:?})")) }
        if i > 0 && matches!(k, K::Module | K::Ident) && (want[i - 1].2 == *n) != (got[i - 1].2 == *n2) {
            return Err(format!("{k:?} at character {i} is not one token"));
        }
    }
    Ok(())
}

fn to_model(tokens: &[Token]) -> Vec<Tok> {
    tokens.iter().map(|t| {
        let (k, s) = kind(t).unwrap_or((K::Word, None));
        Tok { k, text: s.unwrap_or("\n").to_string(), span: span(&t.get_location()), escaped: false }
    }).collect()
}

fn inner(c: &CST) -> Option<(NK, &brack_parser::cst::InnerNode)> {
    Some(match c {
        CST::Document(n) => (NK::Document, n),
        CST::Stmt(n) => (NK::Stmt, n),
        CST::Expr(n) => (NK::Expr, n),
        CST::Angle(n) => (NK::Bracket(Br::Angle), n),
        CST::Curly(n) => (NK::Bracket(Br::Curly), n),
        CST::Square(n) => (NK::Bracket(Br::Square), n),
        CST::BackSlash(n) => (NK::Back, n),
        _ => return None,
    })
}
fn leaf(c: &CST) -> Option<(K, &brack_parser::cst::LeafNode)> {
    Some(match c {
        CST::AngleBracketOpen(n) => (K::Open(Br::Angle), n),
        CST::AngleBracketClose(n) => (K::Close(Br::Angle), n),
        CST::SquareBracketOpen(n) => (K::Open(Br::Square), n),
        CST::SquareBracketClose(n) => (K::Close(Br::Square), n),
        CST::CurlyBracketOpen(n) => (K::Open(Br::Curly), n),
        CST::CurlyBracketClose(n) => (K::Close(Br::Curly), n),
        CST::Module(n) => (K::Module, n),
        CST::Ident(n) => (K::Ident, n),
        CST::Text(n) => (K::Text, n),
        CST::Whitespace(n) => (K::Blank, n),
        CST::Newline(n) => (K::NewLine, n),
        CST::Dot(n) => (K::Dot, n),
        CST::Comma(n) => (K::Comma, n),
        CST::EOF(n) => (K::Eof, n),
        _ => return None,
    })
}

/// P03: the same tree.
pub fn same_tree(c: &CST, n: &Node) -> Result<(), String> {
    match n {
        Node::Leaf(t) => {
            let (k, l) = leaf(c).ok_or_else(|| format!("{:?} expected, found {}", t, name(c)))?;
            if k != t.k && !(t.k == K::Word && k.word()) { return Err(format!("{:?} expected, found {}", t, name(c))) }
            if k.word() && l.value.as_deref() != Some(&t.text[..]) { return Err(format!("{:?} expected, found value {:?}", t, l.value)) }
            if span(&l.location) != t.span { return Err(format!("{:?} expected, found it at {:?}", t, span(&l.location))) }
            Ok(())
        }
        Node::Inner { k, ch, .. } => {
            let (k2, i) = inner(c).ok_or_else(|| format!("{k:?} expected, found {}", name(c)))?;
            if *k != k2 { return Err(format!("{k:?} expected, found {k2:?}")) }
            if *k == NK::Back {
                // the backslash itself is the node, the escaped character is below it
                if i.children.len() + 1 != ch.len() { return Err(format!("escape with {} characters below it, not {}", i.children.len(), ch.len() - 1)) }
                if span(&i.location).s != ch[0].span().s { return Err(format!("escape starts at {:?}, not {:?}", span(&i.location).s, ch[0].span().s)) }
                if let (Some(c), Some(Node::Leaf(t))) = (i.children.first(), ch.get(1)) {
                    match c {
                        CST::Text(l) if l.value.as_deref() == Some(&t.text[..]) && span(&l.location) == t.span => (),
                        _ => return Err(format!("escaped {:?} expected, found {c:?}", t)),
                    }
                }
                return Ok(());
            }
            for (a, b) in i.children.iter().zip(ch) { same_tree(a, b)? }
            if i.children.len() != ch.len() { return Err(format!("{k:?} has {} children, not {}", i.children.len(), ch.len())) }
            Ok(())
        }
    }
}
fn name(c: &CST) -> String { format!("{c:?}").chars().take(60).collect() }

pub fn grammar(tokens: &[Token]) -> Result<Option<CST>, String> {
    let model = rm::parse(&to_model(tokens));
    let cst = parse(tokens)?;
    match (&model, &cst) {
        (None, None) => (),
        (None, Some(_)) => return Err("accepted, but not derivable from the grammar".into()),
        (Some(_), None) => return Err("derivable from the grammar, but rejected".into()),
        (Some(m), Some(c)) => same_tree(c, m)?,
    }
    Ok(cst)
}

/// P04 on the concrete tree.
fn cst_locations(c: &CST, ids: &mut HashSet<String>) -> Result<(Span, Span, Option<Span>), String> {
    // -> (span of the leaves, location of the node, location a trailing unclosed bracket may extend to)
    if let Some((k, l)) = leaf(c) {
        if !ids.insert(l.id.clone()) { return Err(format!("id {} of {k:?} is not unique", l.id)) }
        let s = span(&l.location);
        return Ok((s, s, None));
    }
    let Some((k, n)) = inner(c) else { return Ok((span(&c.location()), span(&c.location()), None)) };
    if !ids.insert(n.id.clone()) { return Err(format!("id {} of {k:?} is not unique", n.id)) }
    let at = span(&n.location);
    let mut leaves: Option<Span> = None;
    let mut ext = None;
    if k == NK::Back { leaves = Some(Span { s: at.s, e: Pos { l: at.s.l, c: at.s.c + 1 } }) }
    for ch in &n.children {
        let (ls, loc, x) = cst_locations(ch, ids)?;
        if let Some(prev) = leaves {
            if ls.s < prev.e { return Err(format!("child of {k:?} at {:?} starts before its sibling ends at {:?}", ls.s, prev.e)) }
        }
        if !loc.within(&at) { return Err(format!("{k:?} at {at:?} has a child at {loc:?}")) }
        leaves = Some(Span { s: leaves.map_or(ls.s, |l| l.s), e: ls.e });
        ext = x;
    }
    let Some(leaves) = leaves else { return Ok((at, at, None)) };
    if let NK::Bracket(b) = k {
        let closed = n.children.len() > 1 && leaf(&n.children[n.children.len() - 1]).map(|x| x.0) == Some(K::Close(b));
        if !closed { ext = Some(at) }
    }
    if at.s != leaves.s { return Err(format!("{k:?} starts at {:?}, its first leaf at {:?}", at.s, leaves.s)) }
    if at.e != leaves.e && !ext.is_some_and(|x| x.e == at.e) { return Err(format!("{k:?} ends at {:?}, its last leaf at {:?}", at.e, leaves.e)) }
    Ok((leaves, at, ext))
}

fn ast_children(a: &AST) -> Option<&Vec<AST>> {
    match a {
        AST::Document(n) | AST::Stmt(n) | AST::Expr(n) | AST::Angle(n) | AST::Square(n) | AST::Curly(n) => Some(&n.children),
        _ => None,
    }
}
pub fn ast_span(a: &AST) -> Span {
    match a {
        AST::Document(n) | AST::Stmt(n) | AST::Expr(n) | AST::Angle(n) | AST::Square(n) | AST::Curly(n) => span(&n.location),
        AST::Ident(l) | AST::Module(l) | AST::Text(l) | AST::Invalid(l) | AST::Ignored(l) => span(&l.location),
    }
}
pub fn ast_name(a: &AST) -> &'static str {
    match a {
        AST::Document(_) => "Document", AST::Stmt(_) => "Stmt", AST::Expr(_) => "Expr", AST::Angle(_) => "Angle", AST::Square(_) => "Square",
        AST::Curly(_) => "Curly", AST::Ident(_) => "Ident", AST::Module(_) => "Module", AST::Text(_) => "Text", AST::Invalid(_) => "Invalid", AST::Ignored(_) => "Ignored",
    }
}
fn ast_locations(root: &AST, a: &AST, ids: &mut HashSet<String>) -> Result<(), String> {
    let id = a.id();
    if !ids.insert(id.clone()) { return Err(format!("id {id} of {} is not unique", ast_name(a))) }
    match catch(|| root.get(&id).map(|x| std::ptr::eq(x, a)))? {
        Some(true) => (),
        Some(false) => return Err(format!("get({id}) finds another node than the {} with that id", ast_name(a))),
        None => return Err(format!("get({id}) does not find the {} with that id", ast_name(a))),
    }
    let at = ast_span(a);
    if at.e < at.s { return Err(format!("{} ends before it starts: {at:?}", ast_name(a))) }
    let mut prev: Option<Span> = None;
    for c in ast_children(a).into_iter().flatten() {
        let s = ast_span(c);
        if !s.within(&at) { return Err(format!("{} at {at:?} has a {} at {s:?}", ast_name(a), ast_name(c))) }
        if let Some(p) = prev { if s.s < p.s || (s.s < p.e && s.e < p.e) { return Err(format!("{} at {s:?} does not follow its sibling at {p:?}", ast_name(c))) } }
        prev = Some(s);
        ast_locations(root, c, ids)?;
    }
    Ok(())
}
/// Location of commands and arguments of a well-formed document.
fn cmd_locations(a: &AST, parent_is_cmd: bool, out: &mut Vec<Span>) -> Result<(), String> {
    let cmd = matches!(a, AST::Angle(_) | AST::Square(_) | AST::Curly(_));
    if cmd { out.push(ast_span(a)) }
    if let (AST::Expr(_), true, Some(ch)) = (a, parent_is_cmd, ast_children(a)) {
        if let (Some(f), Some(l)) = (ch.first(), ch.last()) {
            let (s, e) = (ast_span(f).s, ast_span(l).e);
            if ast_span(a) != (Span { s, e }) { return Err(format!("argument at {:?} spans {:?}", ast_span(a), Span { s, e })) }
        }
    }
    for c in ast_children(a).into_iter().flatten() { cmd_locations(c, cmd, out)? }
    Ok(())
}
fn model_cmds(items: &[Item], out: &mut Vec<Span>) {
    for i in items { if let Item::Cmd(c) = i { cmd_spans(c, out) } }
}
fn cmd_spans(c: &rm::Cmd, out: &mut Vec<Span>) {
    out.push(c.span);
    for h in [&c.module, &c.ident] { if let rm::Head::Macro(m) = h { cmd_spans(m, out) } }
    for a in &c.args { model_cmds(a, out) }
}

/// P07
pub fn read_ast(a: &AST) -> Result<rm::Meaning, String> {
    fn items(ch: &[AST]) -> Result<Vec<Item>, String> {
        let mut out: Vec<Item> = vec![];
        for c in ch {
            match c {
                AST::Text(l) => {
                    let s = l.value.clone().ok_or("text without a value")?;
                    if let Some(Item::Text(t)) = out.last_mut() { t.push_str(&s) } else { out.push(Item::Text(s)) }
                }
                AST::Angle(_) | AST::Square(_) | AST::Curly(_) => out.push(Item::Cmd(cmd(c)?)),
                c => return Err(format!("{} among the elements of a line or argument", ast_name(c))),
            }
        }
        Ok(out)
    }
    fn head(a: Option<&AST>, module: bool) -> Result<rm::Head, String> {
        match a {
            Some(AST::Module(l)) if module => Ok(rm::Head::Name(l.value.clone().ok_or("no value")?)),
            Some(AST::Ident(l)) if !module => Ok(rm::Head::Name(l.value.clone().ok_or("no value")?)),
            Some(c @ AST::Angle(_)) => Ok(rm::Head::Macro(Box::new(cmd(c)?))),
            Some(c) => Err(format!("{} instead of a {}", ast_name(c), if module { "module" } else { "identifier" })),
            None => Err("command without module or identifier".into()),
        }
    }
    fn cmd(a: &AST) -> Result<rm::Cmd, String> {
        let b = match a { AST::Angle(_) => Br::Angle, AST::Curly(_) => Br::Curly, _ => Br::Square };
        let ch = ast_children(a).unwrap();
        let mut args = vec![];
        for c in ch.iter().skip(2) {
            match c { AST::Expr(n) => args.push(items(&n.children)?), c => return Err(format!("{} as an argument", ast_name(c))) }
        }
        Ok(rm::Cmd { b, module: head(ch.first(), true)?, ident: head(ch.get(1), false)?, args, span: ast_span(a) })
    }
    let AST::Document(d) = a else { return Err(format!("{} instead of a document", ast_name(a))) };
    let mut out = vec![];
    for s in &d.children {
        let AST::Stmt(s) = s else { return Err(format!("{} in the document", ast_name(s))) };
        let mut lines = vec![];
        for e in &s.children {
            let AST::Expr(e) = e else { return Err(format!("{} in a paragraph", ast_name(e))) };
            lines.push(items(&e.children)?);
        }
        out.push(lines);
    }
    Ok(out)
}

/// (span of the escape, span of the escaped character)
fn escapes(t: &[Tok]) -> Vec<(Span, Span)> {
    t.windows(2).filter(|w| w[0].k == K::Back && w[1].escaped).map(|w| (Span { s: w[0].span.s, e: w[1].span.e }, w[1].span)).collect()
}

fn strip(m: &mut rm::Meaning) {
    fn c(x: &mut rm::Cmd) {
        x.span = Span::default();
        for h in [&mut x.module, &mut x.ident] { if let rm::Head::Macro(m) = h { c(m) } }
        for a in &mut x.args { for i in a { if let Item::Cmd(d) = i { c(d) } } }
    }
    for p in m { for l in p { for i in l { if let Item::Cmd(d) = i { c(d) } } } }
}

/// Checks one document for one property. Ok(label) names what kind of case it was.
pub fn check(prop: &str, doc: &str) -> Result<&'static str, String> {
    let tokens = tokenize(doc)?;
    match prop {
        "P01" => return lossless(doc, &tokens).map(|_| "document"),
        "P02" => return roles(doc, &tokens).map(|_| "document"),
        "P03" => return grammar(&tokens).map(|c| if c.is_some() { "accepted" } else { "rejected" }),
        _ => (),
    }
    let Some(cst) = parse(&tokens)? else { return Ok("rejected by the parser") };
    let (ast, errors) = transform(&cst)?;
    if prop == "P04" {
        cst_locations(&cst, &mut HashSet::new()).map_err(|e| format!("concrete tree: {e}"))?;
        ast_locations(&ast, &ast, &mut HashSet::new()).map_err(|e| format!("abstract tree: {e}"))?;
    }
    if prop == "P06" && !errors.is_empty() { messages(&cst)? }
    let model = rm::tokenize(doc);
    let specified = model.unspecified_from == usize::MAX;
    if !specified {
        // A closing bracket of the wrong kind always is, or leaves, something unclosed or unopened.
        if prop == "P05" && errors.is_empty() { return Err("no error although brackets do not match".into()) }
        return Ok("brackets that do not match");
    }
    let Some(tree) = rm::parse(&model.toks) else { return Ok("rejected by the grammar") };
    let judged = rm::judge(&tree);
    let ok = judged.defects.is_empty();
    match prop {
        "P04" => if ok {
            let mut got = vec![];
            cmd_locations(&ast, false, &mut got).map_err(|e| format!("abstract tree: {e}"))?;
            let mut want = vec![];
            for p in rm::meaning(&tree) { for l in p { model_cmds(&l, &mut want) } }
            if got != want { return Err(format!("commands are at {want:?}, the abstract tree has them at {got:?}")) }
        },
        "P05" => {
            if ok && !errors.is_empty() { return Err(format!("well formed, but reported: {errors:?}")) }
            if !ok && errors.is_empty() { return Err(format!("nothing reported, but it has {:?}", judged.defects)) }
            for (k, at) in &errors {
                let place = |d: fn(&Defect) -> bool| judged.defects.iter().any(|f| d(&f.defect) && f.errors[0].1 == *at);
                let fine = match &k[..] {
                    "InvalidBackslash" => place(|d| *d == Defect::Backslash),
                    "AngleNotOpened" | "CurlyNotOpened" | "SquareNotOpened" => place(|d| matches!(d, Defect::NotOpened(_))),
                    _ => judged.bad.iter().any(|b| at.within(b) && !judged.good.iter().any(|g| g.within(b) && at.within(g) && at != g)),
                };
                if !fine { return Err(format!("{k} at {at:?} is not at a mistake; mistakes: {:?}", judged.defects)) }
            }
        }
        "P06" => {
            let mut seen = HashMap::new();
            for (k, at) in &errors {
                if seen.insert((k.clone(), *at), ()).is_some() { return Err(format!("{k} at {at:?} reported twice")) }
            }
            let mut per: BTreeMap<usize, usize> = BTreeMap::new();
            for d in &judged.defects { *per.entry(d.paragraph).or_default() += 1 }
            if per.values().any(|n| *n > 1) { return Ok("several mistakes in one paragraph") }
            let mut want: Errors = judged.defects.iter().flat_map(|d| d.errors.iter().map(|(k, s)| (k.to_string(), *s))).collect();
            let mut got = errors.clone();
            // an escape may be pointed at as a whole or at its character
            let escapes = escapes(&model.toks);
            for (_, at) in want.iter_mut().chain(got.iter_mut()) {
                if let Some((_, c)) = escapes.iter().find(|(whole, _)| whole == at) { *at = *c }
            }
            want.retain_mut(|(k, at)| match k.strip_prefix('?') {
                Some(name) => {
                    let e = (name.to_string(), *at);
                    *k = name.to_string();
                    got.contains(&e)
                }
                None => true,
            });
            want.sort();
            got.sort();
            if want != got { return Err(format!("expected {want:?}, reported {got:?}")) }
            return Ok(match judged.defects.len() { 0 => "well formed", 1 => "one mistake", _ => "mistakes in separate paragraphs" });
        }
        "P07" => if ok {
            let mut want = rm::meaning(&tree);
            let mut got = read_ast(&ast)?;
            strip(&mut want);
            strip(&mut got);
            if want != got { return Err(format!("the document says {want:?}, the abstract tree {got:?}")) }
        },
        _ => unreachable!(),
    }
    Ok(if ok { "well formed" } else { "ill formed" })
}

fn spaces(prop: &str, thorough: bool) -> Vec<(Space, Option<usize>)> {
    let t = |q, th| if thorough { th } else { q };
    let s = |name, symbols, max, keep| (Space { name, symbols, max }, keep);
    match prop {
        "P01" | "P02" => vec![
            s("characters", CHARS, t(4, 5), None),
            s("unusual characters", UNUSUAL, t(4, 5), None),
            s("few characters", CHARS_SMALL, t(6, 7), None),
            s("fragments", CHUNKS, t(5, 6), None),
            s("well-formed fragments", CHUNKS_DEEP, t(7, 9), Some(0)),
        ],
        "P03" | "P04" | "P05" => vec![
            s("characters", CHARS, t(4, 5), None),
            s("unusual characters", UNUSUAL, t(3, 5), None),
            s("few characters", CHARS_SMALL, t(5, 7), None),
            s("fragments", CHUNKS, t(5, 6), None),
            s("documents with at most one mistake", CHUNKS_DEEP, t(6, 8), Some(1)),
            s("nested fragments", NEST, t(7, 9), Some(1)),
            s("macros as modules", HEADS, t(7, 9), if thorough { Some(1) } else { Some(0) }),
        ],
        "P06" => vec![
            s("characters", CHARS, t(4, 5), Some(2)),
            s("unusual characters", UNUSUAL, t(3, 5), Some(2)),
            s("few characters", CHARS_SMALL, t(6, 7), Some(2)),
            s("fragments with at most two mistakes", CHUNKS, t(5, 6), Some(2)),
            s("documents with at most two mistakes", CHUNKS_DEEP, t(6, 8), Some(2)),
            s("nested fragments", NEST, t(7, 9), Some(2)),
        ],
        _ => vec![
            s("well-formed characters", CHARS, t(6, 8), Some(0)),
            s("unusual well-formed characters", UNUSUAL, t(4, 6), Some(0)),
            s("well-formed fragments", CHUNKS, t(6, 7), Some(0)),
            s("longer well-formed fragments", CHUNKS_DEEP, t(6, 8), Some(0)),
            s("nested fragments", NEST, t(8, 11), Some(0)),
            s("macros as modules", HEADS, t(8, 10), Some(0)),
        ],
    }
}

pub fn run(ctx: &Ctx) -> i32 {
    let prop = ctx.prop.clone();
    if prop == "P03" { token_sequences(ctx) }
    for (space, keep) in spaces(&prop, ctx.thorough) {
        let labels = std::sync::Mutex::new(BTreeMap::<&str, u64>::new());
        explore(ctx, &space, BTreeMap::<&'static str, u64>::new,
            |doc| keep.is_none_or(|n| !rm::hopeless(doc, n)),
            |seen, doc, depth| match check(&prop, doc) {
                Ok(label) => *seen.entry(label).or_default() += 1,
                Err(e) => ctx.violation(depth, doc, format!("{prop}: document {doc:?}: {e}"), json!({"document": doc})),
            },
            |seen| for (k, v) in seen { *labels.lock().unwrap().entry(k).or_default() += v });
        if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("{} {:.1} s, {} docs", space.name, ctx.start.elapsed().as_secs_f64(), ctx.traces.load(std::sync::atomic::Ordering::Relaxed)) }
        for (k, v) in labels.into_inner().unwrap() { ctx.count(&format!("{k} ({})", space.name), v) }
    }
    edited(ctx);
    framed(ctx);
    every_character(ctx);
    if prop == "P01" { files(ctx) }
    families(ctx);
    for doc in ["[m.c x, y]", "{a.b [c.d \\]] z}\n\ntext. more", "<m.n x"] {
        ctx.sample(json!({"document": doc, "result": format!("{:?}", check(&prop, doc))}));
    }
    ctx.finish("model_checking", !ctx.stopped(), &[
        "the reference model (harness/src/refmodel.rs) states the documented grammars correctly",
        "user-perceived characters are the extended grapheme clusters of the unicode-segmentation crate",
    ])
}

/// Well-formed documents and all documents a bounded number of edits away from one.
fn edited(ctx: &Ctx) {
    let (small, all) = shapes();
    let one = |doc: &str, n: usize, seen: &mut BTreeMap<&'static str, u64>| {
        ctx.enter(doc);
        ctx.trace();
        match check(&ctx.prop, doc) {
            Ok(label) => *seen.entry(label).or_default() += 1,
            Err(e) => ctx.violation(20 + n, doc, format!("{}: document {doc:?}: {e}", ctx.prop), json!({"document": doc})),
        }
    };
    let labels = std::sync::Mutex::new(BTreeMap::<&str, u64>::new());
    // two edits where the document is short, or whatever it is in the thorough tier, else one
    let tasks: Vec<(&String, bool)> = small.iter().map(|d| (d, d.len() <= if ctx.thorough { 18 } else { 5 })).chain(all.iter().map(|d| (d, false))).collect();
    par(ctx, &tasks, BTreeMap::<&'static str, u64>::new, |seen, (doc, twice)| {
        one(doc, doc.len(), seen);
        edits(doc, |d| {
            if ctx.stopped() { return }
            one(&d, doc.len() + 1, seen);
            if *twice { edits(&d, |d| if !ctx.stopped() { one(&d, doc.len() + 2, seen) }) }
        });
    }, |seen| for (k, v) in seen { *labels.lock().unwrap().entry(k).or_default() += v });
    for (k, v) in labels.into_inner().unwrap() { ctx.count(&format!("{k} (well-formed documents with an edit)"), v) }
    ctx.note("edited documents", json!({"well_formed": tasks.len(), "edited_twice": tasks.iter().filter(|t| t.1).count(), "symbols": EDITS}));
    if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("edits {:.1} s, {} docs", ctx.start.elapsed().as_secs_f64(), ctx.traces.load(std::sync::atomic::Ordering::Relaxed)) }
}

/// Every short document in deep, wide and long surroundings.
fn framed(ctx: &Ctx) {
    let wide = wide_frames(WIDE);
    let frames: Vec<((String, String), bool)> = frames(if ctx.thorough { FRAMES_DEEP } else { FRAMES }).into_iter().map(|f| (f, false)).chain(wide.into_iter().map(|f| (f, true))).collect();
    let mut inner: Vec<String> = FRAMED.iter().map(|s| s.to_string()).collect();
    inner.push(String::new());
    inner.extend(periodic(FRAMED, 2).into_iter().filter(|d| !FRAMED.contains(&&d[..])));
    if ctx.thorough { inner.extend(periodic(&FRAMED[..12], 3)); inner.extend(LATE.iter().map(|s| s.to_string())) }
    let late: Vec<String> = FRAMED.iter().map(|s| s.to_string()).chain([String::new()]).chain(LATE.iter().map(|s| s.to_string())).collect();
    let labels = std::sync::Mutex::new(BTreeMap::<&str, u64>::new());
    par(ctx, &frames, BTreeMap::<&'static str, u64>::new, |seen, ((a, b), wide)| for i in if *wide && !ctx.thorough { &late[..] } else { &inner[..] } {
        if ctx.stopped() { return }
        let doc = format!("{a}{i}{b}");
        ctx.enter(&doc);
        ctx.trace();
        match check(&ctx.prop, &doc) {
            Ok(label) => *seen.entry(label).or_default() += 1,
            Err(e) => ctx.violation(50 + doc.len(), &doc, format!("{}: document {doc:?}: {e}", ctx.prop), json!({"document": doc})),
        }
    }, |seen| for (k, v) in seen { *labels.lock().unwrap().entry(k).or_default() += v });
    for (k, v) in labels.into_inner().unwrap() { ctx.count(&format!("{k} (deep, wide and long surroundings)"), v) }
    ctx.note("surroundings", json!({"number": frames.len(), "documents_in_each": inner.len()}));
    if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("frames {:.1} s, {} docs", ctx.start.elapsed().as_secs_f64(), ctx.traces.load(std::sync::atomic::Ordering::Relaxed)) }
}

/// Every character there is, in every place of a document where it may stand.
fn every_character(ctx: &Ctx) {
    let chars = characters(ctx.thorough);
    let tasks: Vec<&[char]> = chars.chunks(256).collect();
    let docs = |c: char| [format!("{c}"), format!("a{c}b"), format!("[m.c a{c}b]"), format!("[m.c {c}]{c}"), format!("[{c}.{c} x]\n{c}"), format!("\\{c}")];
    par(ctx, &tasks, || 0u64, |n, cs| for c in *cs { for (i, doc) in docs(*c).iter().enumerate() {
        if ctx.stopped() { return }
        ctx.enter(doc);
        ctx.trace();
        *n += 1;
        if let Err(e) = check(&ctx.prop, doc) { ctx.violation(10 + i, doc, format!("{}: document {doc:?}: {e}", ctx.prop), json!({"document": doc})) }
    } }, |n| ctx.count("documents with each character", n));
    ctx.count("characters", chars.len() as u64);
    if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("every character {:.1} s, {} docs", ctx.start.elapsed().as_secs_f64(), ctx.traces.load(std::sync::atomic::Ordering::Relaxed)) }
}

/// P01 for documents that are read from files, and files that are no text.
fn files(ctx: &Ctx) {
    let base = tmp_dir("files");
    let next = std::sync::atomic::AtomicUsize::new(0);
    let scratch = || base.join(format!("{}.[]", next.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    let read = |path: &std::path::PathBuf, bytes: &[u8]| {
        std::fs::write(path, bytes).unwrap();
        match (catch(|| brack_tokenizer::tokenize::tokenize(path))?, std::str::from_utf8(bytes)) {
            (Ok(t), Ok(doc)) => lossless(doc, &t),
            (Ok(t), Err(_)) => Err(format!("the file is no text, but tokenizes as {t:?}")),
            (Err(e), Ok(_)) => Err(format!("error: {e}")),
            (Err(_), Err(_)) => Ok(()),
        }
    };
    for (name, symbols) in [("files", CHARS), ("files of unusual characters", UNUSUAL)] {
        explore(ctx, &Space { name, symbols, max: if ctx.thorough { 4 } else { 3 } }, scratch, |_| true, |path, doc, depth| {
            if let Err(e) = read(path, doc.as_bytes()) { ctx.violation(depth, doc, format!("P01: file {doc:?}: {e}"), json!({"document": doc})) }
        }, |_| ());
    }
    // every sequence of up to three bytes from each class UTF-8 knows
    const BYTES: &[u8] = &[0, b'a', b'[', 0x80, 0xbf, 0xc0, 0xc3, 0xe0, 0xe3, 0xed, 0xef, 0xf0, 0xf4, 0xff, 0xbb, 0x9f];
    let tasks: Vec<(u8, u8)> = BYTES.iter().flat_map(|a| BYTES.iter().map(move |b| (*a, *b))).collect();
    par(ctx, &tasks, scratch, |path, (a, b)| for c in BYTES { for d in [None, Some(0x80), Some(b'x')] {
        let bytes: Vec<u8> = [*a, *b, *c].into_iter().chain(d).collect();
        ctx.enter(&format!("{bytes:?}"));
        ctx.trace();
        if let Err(e) = read(path, &bytes) { ctx.violation(5, &format!("{bytes:?}"), format!("P01: file of the bytes {bytes:?}: {e}"), json!({"bytes": bytes})) }
    } }, |_| ());
    for n in [4095usize, 4096, 8191, 8192, 8193, 65536] {
        let doc = "あ[m.c x]\n".repeat(n).chars().take(n / 3).collect::<String>();
        ctx.trace();
        ctx.enter(&doc.chars().take(60).collect::<String>());
        let path = scratch();
        if let Err(e) = read(&path, doc.as_bytes()) { ctx.violation(2000 + n, "", format!("P01: file of {} bytes: {e}", doc.len()), json!({"document": doc})) }
    }
    ctx.leave();
    let _ = std::fs::remove_dir_all(&base);
    if std::env::var("BRACKMC_TIMES").is_ok() { eprintln!("files {:.1} s, {} docs", ctx.start.elapsed().as_secs_f64(), ctx.traces.load(std::sync::atomic::Ordering::Relaxed)) }
}

/// Long, wide and deep documents: every pattern of up to two fragments, repeated.
fn families(ctx: &Ctx) {
    let prop = ctx.prop.clone();
    let n = match (&prop[..], ctx.thorough) { ("P03" | "P04" | "P06", false) => 600, ("P03" | "P04" | "P06", true) => 5_000, (_, false) => 5_000, (_, true) => 20_000 };
    let closed = ["[m.c x]", "{m.d [n.e \\,]}", "<a.b c, d>", "x", "é\u{301}", ". ", ", ", "\n", "\n\n", "\\]", "\r\n"];
    let mut docs: Vec<String> = periodic(&closed, 2).into_iter().map(|p| p.repeat(n / p.graphemes(true).count().max(1) / if p.contains('[') { 1 } else { 2 }))
        .filter(|d| !d.starts_with(['\n', '\r'])).collect();
    for depth in [20, 50, 100] {
        for b in rm::BRS { for c in rm::BRS {
            docs.push(format!("{}x{}", format!("{0}m.c {1}n.d ", b.open(), c.open()).repeat(depth), format!("{1}{0}", b.close(), c.close()).repeat(depth)));
        } }
    }
    docs.push(format!("[m.c {}x]", "x, ".repeat(n / 4)));
    for s in ["\n", "\n\n", "\n \n", "\r\n"] { for doc in [format!("a{}b", s.repeat(n / 4)), format!("a{}", s.repeat(n / 4)), format!("[m.c a{}b]", s.repeat(n / 4)), format!("[m.c x]{}[m.c x], x", s.repeat(n / 4))] { docs.push(doc) } }
    // the same mistake many times over
    if prop == "P06" { for p in periodic(&["[m] ", "[m. x]", "[.c x]\n", "]", "x > ", "[m x]", "{m.c y}"], 2) { docs.push(p.repeat(n / 12)) } }
    if prop == "P01" || prop == "P02" {
        for p in periodic(&["a", ".", "[", "]", "\\", " ", "\n", "<m."], 2) { docs.push(p.repeat(n / 4)); }
        // line numbers, and columns beyond 16 bits
        docs.push("\n".repeat(if ctx.thorough { 66_000 } else { 9_000 }));
        docs.push(format!("{}[m.c y]z", "x".repeat(66_000)));
        docs.push(format!("[m.c {}]z", "x".repeat(66_000)));
    }
    par(ctx, &docs, || (), |_, doc| {
        ctx.enter(doc);
        if let Err(e) = check(&prop, doc) {
            let short: String = doc.chars().take(60).collect();
            ctx.violation(1000 + doc.len(), doc, format!("{prop}: document of {} characters {short:?}...: {}", doc.chars().count(), e.chars().take(300).collect::<String>()), json!({"document": doc}));
        }
        ctx.trace();
    }, |_| ());
    ctx.count("long, wide and deep documents", docs.len() as u64);
}

/// Every sequence of token kinds, also ones the tokenizer never produces.
fn token_sequences(ctx: &Ctx) {
    const KINDS: usize = 14;
    let max = if ctx.thorough { 6 } else { 5 };
    let make = |k: usize, i: usize| {
        let l = Location { start: LocationData { line: 0, character: i }, end: LocationData { line: 0, character: i + 1 } };
        match k {
            0 => Token::Text("t".into(), l), 1 => Token::NewLine(l), 2 => Token::SquareBracketOpen(l), 3 => Token::SquareBracketClose(l),
            4 => Token::Dot(l), 5 => Token::Module("m".into(), l), 6 => Token::Ident("i".into(), l), 7 => Token::WhiteSpace(l), 8 => Token::BackSlash(l),
            9 => Token::AngleBracketOpen(l), 10 => Token::AngleBracketClose(l), 11 => Token::CurlyBracketOpen(l), 12 => Token::CurlyBracketClose(l), _ => Token::Comma(l),
        }
    };
    let tasks: Vec<(usize, usize)> = (0..KINDS).flat_map(|a| (0..KINDS).map(move |b| (a, b))).collect();
    fn go(ctx: &Ctx, seq: &mut Vec<usize>, max: usize, make: &dyn Fn(usize, usize) -> Token, n: &mut (u64, u64)) {
        if ctx.stopped() { return }
        let mut t: Vec<Token> = seq.iter().enumerate().map(|(i, k)| make(*k, i)).collect();
        let at = LocationData { line: 0, character: seq.len() };
        t.push(Token::EOF(Location { start: at.clone(), end: at }));
        ctx.enter(&format!("{seq:?}"));
        n.0 += 1;
        match grammar(&t) {
            Ok(Some(_)) => n.1 += 1,
            Ok(None) => (),
            Err(e) => ctx.violation(seq.len(), &format!("{seq:?}"), format!("P03: token sequence {:?}: {e}", t.iter().map(|t| kind(t).unwrap().0).collect::<Vec<_>>()), json!({"tokens": t})),
        }
        if seq.len() < max { for k in 0..KINDS { seq.push(k); go(ctx, seq, max, make, n); seq.pop(); } }
    }
    let mut n = (0, 0);
    go(ctx, &mut vec![], 0, &make, &mut n);
    for k in 0..KINDS { go(ctx, &mut vec![k], 1, &make, &mut n) }
    let total = std::sync::Mutex::new(n);
    par(ctx, &tasks, || (0u64, 0u64), |n, (a, b)| go(ctx, &mut vec![*a, *b], max, &make, n), |n| {
        let mut t = total.lock().unwrap();
        t.0 += n.0;
        t.1 += n.1;
    });
    let t = *total.lock().unwrap();
    ctx.traces.fetch_add(t.0, std::sync::atomic::Ordering::Relaxed);
    ctx.count("token sequences", t.0);
    ctx.count("token sequences accepted", t.1);
}
