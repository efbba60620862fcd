//! The reference model: what brack's documents mean, written from the documented grammars
//! (brack.cst.ebnf, brack.ast.ebnf) and the property statements, without looking at how the crates do it.
use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Br { Angle, Curly, Square }
pub const BRS: [Br; 3] = [Br::Angle, Br::Curly, Br::Square];
impl Br {
    pub fn open(self) -> &'static str { match self { Br::Angle => "<", Br::Curly => "{", Br::Square => "[" } }
    pub fn close(self) -> &'static str { match self { Br::Angle => ">", Br::Curly => "}", Br::Square => "]" } }
}

/// Role of a token. `Word` is text in a bracket whose header is already broken: whether it counts as
/// text, module or identifier is not specified.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K { Text, Module, Ident, Word, NewLine, Blank, Dot, Comma, Back, Open(Br), Close(Br), Eof }
impl K {
    pub fn special(self) -> bool { matches!(self, K::Dot | K::Comma | K::Back | K::Open(_) | K::Close(_)) }
    pub fn word(self) -> bool { matches!(self, K::Text | K::Module | K::Ident | K::Word) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Default)]
pub struct Pos { pub l: usize, pub c: usize }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Default)]
pub struct Span { pub s: Pos, pub e: Pos }
impl Span {
    pub fn within(&self, o: &Span) -> bool { o.s <= self.s && self.e <= o.e }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok { pub k: K, pub text: String, pub span: Span, pub escaped: bool }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Stage { Start, Mod, Dot, Args, Broken }

pub struct Toks {
    pub toks: Vec<Tok>,
    /// index of the first token after a closing bracket that does not match the innermost open one
    pub unspecified_from: usize,
    /// open brackets at the end of the document
    pub stack: Vec<(Br, Stage)>,
}

fn bracket(g: &str) -> Option<(Br, bool)> {
    BRS.iter().find_map(|b| if b.open() == g { Some((*b, true)) } else if b.close() == g { Some((*b, false)) } else { None })
}

pub fn tokenize(doc: &str) -> Toks {
    let g: Vec<&str> = doc.graphemes(true).collect();
    let mut toks: Vec<Tok> = vec![];
    let mut stack: Vec<(Br, Stage)> = vec![];
    let mut unspecified_from = usize::MAX;
    let mut p = Pos::default();
    let mut i = 0;
    let push = |toks: &mut Vec<Tok>, p: &mut Pos, k: K, text: String, n: usize, escaped: bool| {
        let s = *p;
        let e = Pos { l: p.l, c: p.c + n };
        toks.push(Tok { k, text, span: Span { s, e }, escaped });
        *p = if k == K::NewLine { Pos { l: p.l + 1, c: 0 } } else { e };
    };
    let structural = |x: &str, nested: bool| {
        matches!(x, "\\" | "\n" | "\r\n") || bracket(x).is_some() || (nested && matches!(x, "." | "," | " "))
    };
    let spoil = |stack: &mut Vec<(Br, Stage)>| {
        if let Some(top) = stack.last_mut() { if top.1 != Stage::Args { top.1 = Stage::Broken } }
    };
    while i < g.len() {
        let x = g[i];
        let nested = !stack.is_empty();
        if x == "\\" {
            spoil(&mut stack);
            push(&mut toks, &mut p, K::Back, x.into(), 1, false);
            i += 1;
            let k = match g.get(i).copied() {
                Some("\\") => Some(K::Back),
                Some(".") => Some(K::Dot),
                Some(",") => Some(K::Comma),
                Some(y) => bracket(y).map(|(b, open)| if open { K::Open(b) } else { K::Close(b) }),
                None => None,
            };
            if let Some(k) = k {
                push(&mut toks, &mut p, k, g[i].into(), 1, true);
                i += 1;
            }
        } else if let Some((b, true)) = bracket(x) {
            if let Some(top) = stack.last_mut() {
                top.1 = match (top.1, b) {
                    (Stage::Start, Br::Angle) => Stage::Mod,
                    (Stage::Dot, Br::Angle) | (Stage::Args, _) => Stage::Args,
                    _ => Stage::Broken,
                };
            }
            push(&mut toks, &mut p, K::Open(b), x.into(), 1, false);
            stack.push((b, Stage::Start));
            i += 1;
        } else if let Some((b, false)) = bracket(x) {
            push(&mut toks, &mut p, K::Close(b), x.into(), 1, false);
            if let Some((open, _)) = stack.pop() {
                if open != b && unspecified_from == usize::MAX { unspecified_from = toks.len() }
            }
            i += 1;
        } else if x == "\n" || x == "\r\n" {
            spoil(&mut stack);
            push(&mut toks, &mut p, K::NewLine, x.into(), 1, false);
            i += 1;
        } else if nested && x == "." {
            let top = stack.last_mut().unwrap();
            top.1 = match top.1 { Stage::Mod => Stage::Dot, Stage::Args => Stage::Args, _ => Stage::Broken };
            push(&mut toks, &mut p, K::Dot, x.into(), 1, false);
            i += 1;
        } else if nested && (x == "," || x == " ") {
            spoil(&mut stack);
            push(&mut toks, &mut p, if x == "," { K::Comma } else { K::Blank }, x.into(), 1, false);
            i += 1;
        } else {
            let mut j = i;
            let mut word = String::new();
            while j < g.len() && !structural(g[j], nested) { word.push_str(g[j]); j += 1 }
            let next = g.get(j).copied().unwrap_or("");
            let k = match stack.last_mut() {
                None => K::Text,
                Some(top) => match top.1 {
                    Stage::Start if next == "." => { top.1 = Stage::Mod; K::Module }
                    Stage::Dot if next == " " || matches!(bracket(next), Some((_, false))) => { top.1 = Stage::Args; K::Ident }
                    Stage::Args => K::Text,
                    _ => { top.1 = Stage::Broken; K::Word }
                },
            };
            push(&mut toks, &mut p, k, word, j - i, false);
            i = j;
        }
    }
    push(&mut toks, &mut p, K::Eof, String::new(), 0, false);
    Toks { toks, unspecified_from, stack }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum NK { Document, Stmt, Expr, Bracket(Br), Back }

#[derive(Clone, Debug)]
pub enum Node {
    Leaf(Tok),
    Inner { k: NK, ch: Vec<Node>, /// position where an unclosed bracket was given up
        given_up: Option<Span> },
}
impl Node {
    pub fn span(&self) -> Span {
        match self {
            Node::Leaf(t) => t.span,
            Node::Inner { ch, .. } => Span { s: ch[0].span().s, e: ch[ch.len() - 1].span().e },
        }
    }
}

/// The concrete grammar, read from left to right, every repetition as long as possible.
pub fn parse(t: &[Tok]) -> Option<Node> {
    fn expr(t: &[Tok], i: &mut usize) -> Option<Node> {
        let mut ch = vec![];
        loop {
            match t[*i].k {
                K::Back => {
                    let mut inner = vec![Node::Leaf(t[*i].clone())];
                    *i += 1;
                    if *i < t.len() && t[*i].k.special() { inner.push(Node::Leaf(t[*i].clone())); *i += 1 }
                    ch.push(Node::Inner { k: NK::Back, ch: inner, given_up: None });
                }
                K::Open(b) => ch.push(brack(t, i, b)),
                K::Text | K::Module | K::Ident | K::Word | K::Dot | K::Comma | K::Blank => { ch.push(Node::Leaf(t[*i].clone())); *i += 1 }
                K::NewLine | K::Close(_) | K::Eof => break,
            }
        }
        if ch.is_empty() { None } else { Some(Node::Inner { k: NK::Expr, ch, given_up: None }) }
    }
    fn brack(t: &[Tok], i: &mut usize, b: Br) -> Node {
        let mut ch = vec![Node::Leaf(t[*i].clone())];
        *i += 1;
        loop {
            if t[*i].k == K::NewLine { ch.push(Node::Leaf(t[*i].clone())); *i += 1 }
            else if let Some(e) = expr(t, i) { ch.push(e) }
            else { break }
        }
        let mut given_up = Some(t[*i].span);
        if t[*i].k == K::Close(b) { ch.push(Node::Leaf(t[*i].clone())); *i += 1; given_up = None }
        Node::Inner { k: NK::Bracket(b), ch, given_up }
    }
    fn item(t: &[Tok], i: &mut usize) -> Option<Node> {
        if let Some(e) = expr(t, i) { return Some(e) }
        if let K::Close(_) = t[*i].k { *i += 1; return Some(Node::Leaf(t[*i - 1].clone())) }
        None
    }
    let mut doc = vec![];
    let mut i = 0;
    loop {
        let Some(first) = item(t, &mut i) else { break };
        let mut ch = vec![first];
        while t[i].k == K::NewLine {
            let mut j = i + 1;
            match item(t, &mut j) {
                Some(next) => { ch.push(Node::Leaf(t[i].clone())); ch.push(next); i = j }
                None => break,
            }
        }
        doc.push(Node::Inner { k: NK::Stmt, ch, given_up: None });
        let mut newlines = 0;
        while t[i].k == K::NewLine { doc.push(Node::Leaf(t[i].clone())); i += 1; newlines += 1 }
        if newlines < 2 { break }
    }
    while t[i].k == K::NewLine { doc.push(Node::Leaf(t[i].clone())); i += 1 }
    if t[i].k != K::Eof { return None }
    doc.push(Node::Leaf(t[i].clone()));
    Some(Node::Inner { k: NK::Document, ch: doc, given_up: None })
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Defect { Unclosed(Br), NotOpened(Br), Backslash, Comma, Dot, Header }

#[derive(Clone, Debug)]
pub struct Found {
    pub defect: Defect,
    /// the errors a user should see: kind (with ? if optional) and place
    pub errors: Vec<(&'static str, Span)>,
    pub paragraph: usize,
}

pub struct Judged {
    pub defects: Vec<Found>,
    /// spans of bracket nodes with something wrong directly in them, and of those without
    pub bad: Vec<Span>,
    pub good: Vec<Span>,
}

/// The elements directly inside a bracket node, in order, brackets included.
pub fn elements(ch: &[Node]) -> Vec<&Node> {
    let mut out = vec![];
    for c in ch {
        match c {
            Node::Inner { k: NK::Expr, ch, .. } => out.extend(ch.iter()),
            c => out.push(c),
        }
    }
    out
}
pub fn leaf(n: &Node) -> Option<K> { match n { Node::Leaf(t) => Some(t.k), _ => None } }
pub fn is_angle(n: &Node) -> bool { matches!(n, Node::Inner { k: NK::Bracket(Br::Angle), .. }) }

pub fn judge(doc: &Node) -> Judged {
    let mut j = Judged { defects: vec![], bad: vec![], good: vec![] };
    fn walk(n: &Node, para: usize, top: bool, j: &mut Judged) {
        match n {
            Node::Leaf(t) => if let (true, K::Close(b)) = (top, t.k) {
                j.defects.push(Found { defect: Defect::NotOpened(b), paragraph: para, errors: vec![(match b {
                    Br::Angle => "AngleNotOpened", Br::Curly => "CurlyNotOpened", Br::Square => "SquareNotOpened" }, t.span)] });
            },
            Node::Inner { k: NK::Back, ch, .. } => if ch.len() == 1 {
                j.defects.push(Found { defect: Defect::Backslash, paragraph: para, errors: vec![("InvalidBackslash", n.span())] });
            },
            Node::Inner { k: NK::Document, ch, .. } => for (i, c) in ch.iter().enumerate() { walk(c, i, false, j) },
            Node::Inner { k: NK::Stmt, ch, .. } => for c in ch { walk(c, para, true, j) },
            Node::Inner { k: NK::Expr, ch, .. } => for c in ch { walk(c, para, false, j) },
            Node::Inner { k: NK::Bracket(b), ch, given_up } => {
                let before = j.defects.len();
                let el = elements(ch);
                let last = el[el.len() - 1];
                let mut add = |defect, errors| j.defects.push(Found { defect, errors, paragraph: para });
                if given_up.is_some() {
                    let place = Span { s: el[0].span().s, e: last.span().e };
                    add(Defect::Unclosed(*b), vec![(match b { Br::Angle => "AngleNotClosed", Br::Curly => "CurlyNotClosed", Br::Square => "SquareNotClosed" }, place)]);
                }
                let mut header = vec![];
                let mut complete = given_up.is_none() || el.len() >= 4;
                if let Some(m) = el.get(1) { if !(leaf(m) == Some(K::Module) || is_angle(m)) { header.push(("ModuleNotFound", m.span())) } }
                if let Some(d) = el.get(2) { if leaf(d) != Some(K::Dot) { header.push(("DotNotFound", d.span())) } }
                if let Some(i) = el.get(3) { 
                    // whether a word in a broken header can be the identifier is not specified
                    if leaf(i) == Some(K::Word) { header.push(("?IdentifierNotFound", i.span())) }
                    else if !(leaf(i) == Some(K::Ident) || is_angle(i)) { header.push(("IdentifierNotFound", i.span())) }
                 }
                if !header.is_empty() { complete = false; add(Defect::Header, header) }
                for d in el.iter().skip(3) {
                    if leaf(d) == Some(K::Dot) { add(Defect::Dot, vec![("UnexpectedDot", d.span())]) }
                }
                if complete && el.len() >= 4 {
                    let mut pending: Option<Span> = None;
                    let mut filled = false;
                    for e in &el[4..] {
                        match leaf(e) {
                            Some(K::Comma) => {
                                if filled { pending = Some(e.span()); filled = false }
                                else { add(Defect::Comma, vec![("UnexpectedComma", e.span())]) }
                            }
                            Some(K::Close(_)) => if let (false, Some(c)) = (filled, pending) { add(Defect::Comma, vec![("UnexpectedComma", c)]) },
                            Some(K::Blank) | Some(K::NewLine) | Some(K::Dot) => (),
                            _ => filled = true,
                        }
                    }
                }
                let mut span = n.span();
                if let Some(g) = given_up { span.e = span.e.max(g.e) }
                if j.defects.len() > before { j.bad.push(span) } else { j.good.push(span) }
                for c in ch { walk(c, para, false, j) }
            }
        }
    }
    walk(doc, 0, false, &mut j);
    j
}

/// What a well-formed document says.
#[derive(Clone, Debug, PartialEq)]
pub enum Item { Text(String), Cmd(Cmd) }
#[derive(Clone, Debug, PartialEq)]
pub enum Head { Name(String), Macro(Box<Cmd>) }
#[derive(Clone, Debug, PartialEq)]
pub struct Cmd { pub b: Br, pub module: Head, pub ident: Head, pub args: Vec<Vec<Item>>, pub span: Span }
pub type Line = Vec<Item>;
pub type Meaning = Vec<Vec<Line>>;

fn push_text(v: &mut Vec<Item>, s: &str) {
    if let Some(Item::Text(t)) = v.last_mut() { t.push_str(s) } else { v.push(Item::Text(s.to_string())) }
}

/// Only for documents without defects.
pub fn meaning(doc: &Node) -> Meaning {
    fn item(n: &Node, out: &mut Vec<Item>) {
        match n {
            Node::Leaf(t) => push_text(out, &t.text),
            Node::Inner { k: NK::Back, ch, .. } => item(&ch[1], out),
            Node::Inner { k: NK::Bracket(_), .. } => out.push(Item::Cmd(cmd(n))),
            _ => unreachable!(),
        }
    }
    fn head(n: &Node) -> Head {
        match n { Node::Leaf(t) => Head::Name(t.text.clone()), n => Head::Macro(Box::new(cmd(n))) }
    }
    fn cmd(n: &Node) -> Cmd {
        let Node::Inner { k: NK::Bracket(b), ch, .. } = n else { unreachable!() };
        let el = elements(ch);
        let mut args: Vec<Vec<Item>> = vec![];
        let mut arg: Vec<&Node> = vec![];
        let mut finish = |arg: &mut Vec<&Node>| {
            // line breaks are structure, so are blanks around the argument
            let mut a: Vec<&Node> = arg.iter().copied().filter(|n| leaf(n) != Some(K::NewLine)).collect();
            while a.first().is_some_and(|n| leaf(n) == Some(K::Blank)) { a.remove(0); }
            while a.last().is_some_and(|n| leaf(n) == Some(K::Blank)) { a.pop(); }
            let mut out = vec![];
            for n in a { item(n, &mut out) }
            if !out.is_empty() { args.push(out) }
            arg.clear();
        };
        for e in &el[4..el.len() - 1] {
            if leaf(e) == Some(K::Comma) { finish(&mut arg) } else { arg.push(e) }
        }
        finish(&mut arg);
        Cmd { b: *b, module: head(el[1]), ident: head(el[3]), args, span: n.span() }
    }
    let Node::Inner { ch, .. } = doc else { unreachable!() };
    let mut out = vec![];
    for stmt in ch {
        let Node::Inner { k: NK::Stmt, ch, .. } = stmt else { continue };
        let mut lines = vec![];
        for e in ch {
            if let Node::Inner { k: NK::Expr, ch, .. } = e {
                let mut line = vec![];
                for n in ch { item(n, &mut line) }
                lines.push(line);
            }
        }
        out.push(lines);
    }
    out
}

/// Whether every continuation of the document is rejected or has more than `max_defects` defects.
/// (Errs on the side of "no".)
pub fn hopeless(doc: &str, max_defects: usize) -> bool {
    // Complete the last word, argument or escape in the ways it can be, then complete and close
    // everything that is open.
    for tail in ["", ".", "x", "\\"] {
        let mut d = format!("{doc}{tail}");
        let t = tokenize(&d);
        for (b, stage) in t.stack.iter().rev() {
            d.push_str(match stage { Stage::Start => "x.x", Stage::Mod => ".x", Stage::Dot => "x", _ => "" });
            d.push_str(b.close());
        }
        if let Some(tree) = parse(&tokenize(&d).toks) {
            if judge(&tree).defects.len() <= max_defects { return false }
        }
    }
    true
}

/// A summary of where a document stands: the state of the model's automaton.
pub fn state(t: &Toks) -> String {
    let n = t.toks.len() - 1;
    let tail: Vec<String> = t.toks[n.saturating_sub(2)..n].iter().map(|x| format!("{:?}{}", x.k, x.escaped)).collect();
    format!("{:?}|{:?}|{}", t.stack, tail, t.unspecified_from != usize::MAX)
}
