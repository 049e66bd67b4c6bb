//! The reference model of the schema language: tokens, grammar, validity rules, imports, written
//! from README.md. It judges texts, and knows nothing of how `typical` does that.
use crate::model::{Rule, Ty};
use crate::names;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

/// A comment: paragraphs of words.
pub type Comment = Vec<Vec<String>>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Sym(char),
    Kw(&'static str),
    Ident(String),
    Int(u64),
    Path(String),
    Comment(Comment),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Token {
    pub tok: Tok,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum LTy {
    Base(Ty),
    Arr(Box<LTy>),
    Named(Option<String>, String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LField {
    pub comment: Comment,
    pub rule: Rule,
    pub name: String,
    pub ty: LTy,
    pub idx: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LDecl {
    pub comment: Comment,
    pub choice: bool,
    pub name: String,
    pub fields: Vec<LField>,
    pub deleted: Vec<u64>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LImport {
    pub path: String,
    pub name: String,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct LFile {
    pub comment: Comment,
    pub imports: Vec<LImport>,
    pub decls: Vec<LDecl>,
}

pub fn is_ident_start(c: char) -> bool {
    c.is_alphabetic()
}
pub fn is_ident_part(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// Split a text into tokens, or say what is wrong with it and where (a byte offset).
pub fn tokenize(text: &str) -> Result<Vec<Token>, (usize, String)> {
    let chars: Vec<(usize, char)> = text.char_indices().collect();
    let at = |k: usize| chars.get(k).map_or(text.len(), |p| p.0);
    let mut out = vec![];
    let mut k = 0;
    while k < chars.len() {
        let (start, c) = chars[k];
        if c.is_whitespace() {
            k += 1;
            continue;
        }
        let tok = match c {
            ':' | '.' | '=' | '{' | '[' | '}' | ']' => {
                k += 1;
                Tok::Sym(c)
            }
            '0'..='9' => {
                while k < chars.len() && chars[k].1.is_ascii_digit() {
                    k += 1;
                }
                match text[start..at(k)].parse::<u64>() {
                    Ok(n) => Tok::Int(n),
                    Err(_) => return Err((start, "integer out of range".into())),
                }
            }
            '\'' => {
                let Some(n) = chars[k + 1..].iter().position(|p| p.1 == '\'') else {
                    return Err((start, "unterminated path".into()));
                };
                let path = text[start + 1..at(k + 1 + n)].to_owned();
                k += n + 2;
                Tok::Path(path)
            }
            '#' => {
                // A comment goes on with the next line if that is a comment, too.
                let mut lines: Vec<Vec<String>> = vec![];
                loop {
                    let from = at(k) + 1;
                    while k < chars.len() && chars[k].1 != '\n' {
                        k += 1;
                    }
                    lines.push(text[from..at(k)].split_whitespace().map(str::to_owned).collect());
                    let mut next = k + 1;
                    while next < chars.len() && chars[next].1.is_whitespace() && chars[next].1 != '\n' {
                        next += 1;
                    }
                    if next < chars.len() && chars[next].1 == '#' {
                        k = next;
                    } else {
                        break;
                    }
                }
                let mut comment: Comment = vec![];
                for paragraph in lines.split(|l| l.is_empty()) {
                    if !paragraph.is_empty() {
                        comment.push(paragraph.concat());
                    }
                }
                Tok::Comment(comment)
            }
            '$' => {
                k += 1;
                let from = at(k);
                while k < chars.len() && is_ident_part(chars[k].1) {
                    k += 1;
                }
                let name = &text[from..at(k)];
                if !name.starts_with(is_ident_start) {
                    return Err((start, "no identifier after the sigil".into()));
                }
                Tok::Ident(name.to_owned())
            }
            c if is_ident_start(c) => {
                while k < chars.len() && is_ident_part(chars[k].1) {
                    k += 1;
                }
                let name = &text[start..at(k)];
                match names::SCHEMA_KEYWORDS.iter().find(|w| **w == name) {
                    Some(w) => Tok::Kw(w),
                    None => Tok::Ident(name.to_owned()),
                }
            }
            c => return Err((start, format!("unexpected {c:?}"))),
        };
        out.push(Token { tok, start, end: at(k).min(text.len()) });
    }
    Ok(out)
}

/// Where the parts of a schema are: byte ranges.
#[derive(Clone, Debug, Default)]
pub struct Spans {
    pub imports: Vec<(usize, usize)>,
    pub decls: Vec<DeclSpan>,
}
#[derive(Clone, Debug, Default)]
pub struct DeclSpan {
    /// All of it, with its comment.
    pub all: (usize, usize),
    pub name: (usize, usize),
    pub fields: Vec<FieldSpan>,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct FieldSpan {
    /// All of it, with its comment.
    pub all: (usize, usize),
    pub name: (usize, usize),
    pub ty: (usize, usize),
    pub idx: (usize, usize),
}

struct Parser<'a> {
    text: &'a str,
    toks: Vec<Token>,
    pos: usize,
    spans: Spans,
}

type Parsed<T> = Result<T, (usize, String)>;

impl Parser<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.toks.get(self.pos).map(|t| &t.tok)
    }
    /// From the token at a position to the last one which was consumed.
    fn since(&self, pos: usize) -> (usize, usize) {
        match self.toks.get(pos) {
            Some(t) if self.pos > pos => (t.start, self.toks[self.pos - 1].end),
            Some(t) => (t.start, t.start),
            None => (self.text.len(), self.text.len()),
        }
    }
    fn fail<T>(&self, what: &str) -> Parsed<T> {
        let at = self.toks.get(self.pos).map_or(self.text.len(), |t| t.start);
        Err((at, format!("expected {what}")))
    }
    fn sym(&mut self, c: char) -> Parsed<()> {
        if self.peek() == Some(&Tok::Sym(c)) {
            self.pos += 1;
            Ok(())
        } else {
            self.fail(&format!("{c:?}"))
        }
    }
    fn kw(&mut self, w: &'static str) -> bool {
        let is = self.peek() == Some(&Tok::Kw(w));
        if is {
            self.pos += 1;
        }
        is
    }
    fn ident(&mut self, what: &str) -> Parsed<String> {
        if let Some(Tok::Ident(name)) = self.peek() {
            let name = name.clone();
            self.pos += 1;
            Ok(name)
        } else {
            self.fail(what)
        }
    }
    fn int(&mut self) -> Option<u64> {
        if let Some(Tok::Int(n)) = self.peek() {
            let n = *n;
            self.pos += 1;
            Some(n)
        } else {
            None
        }
    }
    fn comment(&mut self) -> Comment {
        if let Some(Tok::Comment(c)) = self.peek() {
            let c = c.clone();
            self.pos += 1;
            c
        } else {
            vec![]
        }
    }
    fn ty(&mut self) -> Parsed<LTy> {
        if self.peek() == Some(&Tok::Sym('[')) {
            self.pos += 1;
            let inner = self.ty()?;
            self.sym(']')?;
            return Ok(LTy::Arr(Box::new(inner)));
        }
        for (w, t) in [
            ("Bool", Ty::Bool),
            ("Bytes", Ty::Bytes),
            ("F64", Ty::F64),
            ("S64", Ty::S64),
            ("String", Ty::Str),
            ("U64", Ty::U64),
            ("Unit", Ty::Unit),
        ] {
            if self.kw(w) {
                return Ok(LTy::Base(t));
            }
        }
        let first = self.ident("a type")?;
        if self.peek() == Some(&Tok::Sym('.')) {
            self.pos += 1;
            let second = self.ident("a type")?;
            return Ok(LTy::Named(Some(first), second));
        }
        Ok(LTy::Named(None, first))
    }
    fn field(&mut self) -> Parsed<(LField, FieldSpan)> {
        let start = self.pos;
        let comment = self.comment();
        let rule = if self.kw("optional") {
            Rule::Opt
        } else if self.kw("asymmetric") {
            Rule::Asym
        } else {
            Rule::Req
        };
        let mut span = FieldSpan::default();
        let name = self.ident("a field")?;
        span.name = self.since(self.pos - 1);
        let ty_at = self.pos;
        let ty = if self.peek() == Some(&Tok::Sym(':')) {
            self.pos += 1;
            self.ty()?
        } else {
            LTy::Base(Ty::Unit)
        };
        span.ty = self.since((ty_at + 1).min(self.pos));
        self.sym('=')?;
        let Some(idx) = self.int() else { return self.fail("an index") };
        span.idx = self.since(self.pos - 1);
        span.all = self.since(start);
        Ok((LField { comment, rule, name, ty, idx }, span))
    }
    fn decl(&mut self) -> Parsed<LDecl> {
        let start = self.pos;
        let mut span = DeclSpan::default();
        let comment = self.comment();
        let choice = if self.kw("struct") {
            false
        } else if self.kw("choice") {
            true
        } else {
            return self.fail("a declaration");
        };
        let name = self.ident("a name")?;
        span.name = self.since(self.pos - 1);
        self.sym('{')?;
        let mut fields = vec![];
        while !matches!(self.peek(), Some(Tok::Sym('}') | Tok::Kw("deleted"))) {
            let (field, at) = self.field()?;
            fields.push(field);
            span.fields.push(at);
        }
        let mut deleted = vec![];
        if self.kw("deleted") {
            loop {
                let at = self.toks.get(self.pos).map_or(self.text.len(), |t| t.start);
                let Some(n) = self.int() else { break };
                if deleted.contains(&n) {
                    return Err((at, "an index is deleted twice".into()));
                }
                deleted.push(n);
            }
        }
        self.sym('}')?;
        span.all = self.since(start);
        self.spans.decls.push(span);
        Ok(LDecl { comment, choice, name, fields, deleted })
    }
    fn file(&mut self) -> Parsed<LFile> {
        let mut file = LFile::default();
        if let Some(Tok::Comment(_)) = self.peek() {
            // The first comment belongs to the first declaration if it is right above it.
            let belongs_to_file = match self.toks.get(1) {
                Some(Token { tok: Tok::Kw("struct" | "choice"), start, .. }) => {
                    self.text[self.toks[0].end..*start].matches('\n').count() > 1
                }
                _ => true,
            };
            if belongs_to_file {
                file.comment = self.comment();
            }
        }
        loop {
            let start = self.pos;
            let at = self.toks.get(self.pos).map_or(self.text.len(), |t| t.start);
            if !self.kw("import") {
                break;
            }
            let Some(Tok::Path(path)) = self.peek() else { return self.fail("a path") };
            let path = path.clone();
            self.pos += 1;
            let name = if self.kw("as") {
                self.ident("a name for the import")?
            } else {
                match Path::new(&path).file_stem() {
                    Some(stem) => stem.to_string_lossy().into_owned(),
                    None => return Err((at, "no name for the import".into())),
                }
            };
            if file.imports.iter().any(|i| names::snake(&i.name) == names::snake(&name)) {
                return Err((at, "two imports with the same name".into()));
            }
            file.imports.push(LImport { path, name });
            let span = self.since(start);
            self.spans.imports.push(span);
        }
        while self.pos < self.toks.len() {
            let d = self.decl()?;
            file.decls.push(d);
        }
        Ok(file)
    }
}

pub fn parse(text: &str) -> Parsed<LFile> {
    Ok(parse_with_spans(text)?.0)
}
pub fn parse_with_spans(text: &str) -> Parsed<(LFile, Spans)> {
    let toks = tokenize(text)?;
    let mut p = Parser { text, toks, pos: 0, spans: Spans::default() };
    let file = p.file()?;
    Ok((file, p.spans))
}

/// Whether two names only differ by letter case convention.
pub fn same_name(a: &str, b: &str) -> bool {
    names::snake(a) == names::snake(b) || names::pascal(a) == names::pascal(b)
}
/// Whether two names refer to the same thing.
pub fn refers(a: &str, b: &str) -> bool {
    names::snake(a) == names::snake(b)
}

/// Names which came before.
#[derive(Default)]
struct Seen {
    snake: BTreeSet<String>,
    pascal: BTreeSet<String>,
}

impl Seen {
    /// Add a name, unless one of them is the same (see `same_name`).
    fn add(&mut self, name: &str) -> bool {
        let (a, b) = (self.snake.insert(names::snake(name)), self.pascal.insert(names::pascal(name)));
        a && b
    }
}

pub const MAX_INDEX: u64 = (1 << 62) - 1;

/// A tree of files (path from the base directory to contents). Every directory on the way exists.
pub type Tree = BTreeMap<String, String>;

/// A place in a file: the root as such, a byte offset, an import, a declaration, or a part of a field.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum At {
    Root,
    Offset(usize),
    Import(usize),
    Decl(usize),
    Name(usize, usize),
    Index(usize, usize),
    Type(usize, usize),
}

#[derive(Clone, Debug)]
pub struct Judgement {
    /// Files reachable from the root.
    pub reachable: BTreeSet<String>,
    /// What is wrong: a path and a description. Syntax and loading come first: if there is
    /// anything of that kind, nothing else is listed.
    pub loading: Vec<(String, String)>,
    pub invalid: Vec<(String, String)>,
    /// Where that is, in the same order.
    pub loading_at: Vec<At>,
    pub invalid_at: Vec<At>,
    pub cyclic: bool,
    /// Which types refer to which ones: (path, name in snake case).
    pub edges: BTreeMap<(String, String), Vec<(String, String)>>,
    pub parsed: BTreeMap<String, LFile>,
}

impl Judgement {
    pub fn ok(&self) -> bool {
        self.loading.is_empty() && self.invalid.is_empty() && !self.cyclic
    }
    pub fn show(&self) -> String {
        if self.ok() {
            "valid".into()
        } else {
            let mut all: Vec<String> = self.loading.iter().chain(&self.invalid).map(|(p, w)| format!("{p}: {w}")).collect();
            if self.cyclic {
                all.push("cyclic types".into());
            }
            all.join("; ")
        }
    }
}

/// Resolve a path of an import in a file (`from`), without symbolic links. An error if it leads to
/// no file of the tree; `Err(true)` if it leads out of the base directory.
pub fn resolve(tree: &Tree, from: &str, path: &str) -> Result<String, String> {
    let mut at: Vec<&str> = from.split('/').collect();
    at.pop();
    if path.starts_with('/') {
        return Err("absolute path".into());
    }
    let parts: Vec<&str> = path.split('/').collect();
    let trailing = path.ends_with('/') || path.ends_with("/.");
    for p in parts {
        match p {
            "" | "." => {}
            ".." => {
                if at.pop().is_none() {
                    return Err("outside of the base directory".into());
                }
            }
            p => at.push(p),
        }
        let here = at.join("/");
        let is_dir = here.is_empty() || tree.keys().any(|f| f.starts_with(&format!("{here}/")));
        if !is_dir && !tree.contains_key(&here) {
            return Err("no such file".into());
        }
    }
    let here = at.join("/");
    // A file in the middle of the path cannot be passed through.
    let mut walk: Vec<&str> = from.split('/').collect();
    walk.pop();
    let names: Vec<&str> = path.split('/').filter(|p| !matches!(*p, "" | ".")).collect();
    for (i, p) in names.iter().enumerate() {
        if *p == ".." {
            walk.pop();
        } else {
            walk.push(p);
        }
        if i + 1 < names.len() && tree.contains_key(&walk.join("/")) {
            return Err("not a directory".into());
        }
    }
    if trailing || !tree.contains_key(&here) {
        return Err("not a file".into());
    }
    Ok(here)
}

/// The namespace of a file: its path without the extension, in snake case.
pub fn namespace(path: &str) -> Vec<String> {
    let p = Path::new(path);
    let stripped = p.with_file_name(p.file_stem().unwrap_or_default());
    stripped.to_string_lossy().split('/').map(names::snake).collect()
}

pub fn namespace_valid(ns: &[String]) -> bool {
    ns.iter().all(|c| c.starts_with(char::is_alphabetic) && c.chars().all(|c| c.is_alphanumeric() || c == '_'))
}

/// Judge the schema at a path of a tree together with everything it imports.
pub fn judge(tree: &Tree, root: &str) -> Judgement {
    let mut j = Judgement { reachable: BTreeSet::new(), loading: vec![], invalid: vec![], loading_at: vec![], invalid_at: vec![], cyclic: false, edges: BTreeMap::new(), parsed: BTreeMap::new() };
    if !tree.contains_key(root) {
        j.loading.push((root.to_owned(), "no such file".into()));
        j.loading_at.push(At::Root);
        return j;
    }
    if !namespace_valid(&namespace(root)) {
        j.loading.push((root.to_owned(), "not a valid namespace".into()));
        j.loading_at.push(At::Root);
        return j;
    }
    let mut todo = vec![root.to_owned()];
    let mut spaces: BTreeMap<Vec<String>, String> = BTreeMap::new();
    spaces.insert(namespace(root), root.to_owned());
    let mut links: BTreeMap<(String, String), String> = BTreeMap::new();
    j.reachable.insert(root.to_owned());
    while let Some(path) = todo.pop() {
        let file = match parse(&tree[&path]) {
            Ok(f) => f,
            Err((at, what)) => {
                let line = tree[&path][..at].matches('\n').count() + 1;
                j.loading.push((path.clone(), format!("line {line}: {what}")));
                j.loading_at.push(At::Offset(at));
                continue;
            }
        };
        for (n, import) in file.imports.iter().enumerate() {
            let mut wrong = |what: String| {
                j.loading.push((path.clone(), format!("import {:?}: {what}", import.path)));
                j.loading_at.push(At::Import(n));
            };
            match resolve(tree, &path, &import.path) {
                Err(what) => wrong(what),
                Ok(target) => {
                    let ns = namespace(&target);
                    if !namespace_valid(&ns) {
                        wrong("not a valid namespace".into());
                        continue;
                    }
                    if *spaces.entry(ns).or_insert_with(|| target.clone()) != target {
                        wrong("another file has the same namespace".into());
                        continue;
                    }
                    links.insert((path.clone(), names::snake(&import.name)), target.clone());
                    if j.reachable.insert(target.clone()) {
                        todo.push(target);
                    }
                }
            }
        }
        j.parsed.insert(path, file);
    }
    if !j.loading.is_empty() {
        return j;
    }
    // Names, indices and types.
    let mut edges: BTreeMap<(String, String), Vec<(String, String)>> = BTreeMap::new();
    let known: BTreeMap<&String, BTreeSet<String>> = j.parsed.iter().map(|(path, file)| (path, file.decls.iter().map(|d| names::snake(&d.name)).collect())).collect();
    for (path, file) in &j.parsed {
        let mut types = Seen::default();
        for (i, d) in file.decls.iter().enumerate() {
            let mut wrong = |what: String, at: At| {
                j.invalid.push((path.clone(), what));
                j.invalid_at.push(at);
            };
            if !types.add(&d.name) {
                wrong(format!("two types named {}", d.name), At::Decl(i));
            }
            let mut targets = vec![];
            let (mut fields, mut indices) = (Seen::default(), BTreeSet::new());
            let deleted: BTreeSet<u64> = d.deleted.iter().copied().collect();
            for (k, f) in d.fields.iter().enumerate() {
                if !fields.add(&f.name) {
                    wrong(format!("two fields named {}", f.name), At::Name(i, k));
                }
                if !indices.insert(f.idx) {
                    wrong(format!("two fields with index {}", f.idx), At::Index(i, k));
                }
                if deleted.contains(&f.idx) {
                    wrong(format!("index {} is deleted", f.idx), At::Index(i, k));
                }
                if f.idx > MAX_INDEX {
                    wrong(format!("index {} is too large", f.idx), At::Index(i, k));
                }
                let mut ty = &f.ty;
                while let LTy::Arr(inner) = ty {
                    ty = inner;
                }
                if let LTy::Named(import, name) = ty {
                    let target = match import {
                        None => Some(path.clone()),
                        Some(i) => links.get(&(path.clone(), names::snake(i))).cloned(),
                    };
                    match target.as_ref().filter(|t| known[*t].contains(&names::snake(name))) {
                        None => wrong(format!("unknown type of field {}", f.name), At::Type(i, k)),
                        Some(t) => targets.push((t.clone(), names::snake(name))),
                    }
                }
            }
            for n in 0..(indices.len() + d.deleted.len()) as u64 {
                if !indices.contains(&n) && !deleted.contains(&n) {
                    wrong(format!("index {n} is neither used nor deleted"), At::Decl(i));
                }
            }
            edges.entry((path.clone(), names::snake(&d.name))).or_default().extend(targets);
        }
    }
    if !j.invalid.is_empty() {
        return j;
    }
    j.cyclic = cyclic(&edges);
    j.edges = edges;
    j
}

/// Whether a graph has a cycle: repeatedly drop what only points to dropped nodes.
pub fn cyclic<N: Ord + Clone>(edges: &BTreeMap<N, Vec<N>>) -> bool {
    let mut left: BTreeSet<N> = edges.keys().cloned().collect();
    loop {
        let drop: Vec<N> = left.iter().filter(|n| edges[*n].iter().all(|m| !left.contains(m))).cloned().collect();
        if drop.is_empty() {
            return !left.is_empty();
        }
        for n in drop {
            left.remove(&n);
        }
    }
}

/// The meaning of a parsed file, without comments: what formatting has to preserve.
pub fn meaning(f: &LFile) -> String {
    fn ty(t: &LTy) -> String {
        match t {
            LTy::Base(t) => t.text(),
            LTy::Arr(t) => format!("[{}]", ty(t)),
            LTy::Named(None, n) => format!("@{}", names::pascal(n)),
            LTy::Named(Some(i), n) => format!("@{}.{}", names::snake(i), names::pascal(n)),
        }
    }
    let mut out = String::new();
    let mut imports: Vec<String> = f.imports.iter().map(|i| format!("import {:?} as {}\n", i.path, names::snake(&i.name))).collect();
    imports.sort();
    for i in imports {
        out += &i;
    }
    for d in &f.decls {
        out += &format!("{} {}\n", if d.choice { "choice" } else { "struct" }, names::pascal(&d.name));
        for x in &d.fields {
            out += &format!("  {}{} {} {} = {}\n", x.rule.keyword(), names::snake(&x.name), names::pascal(&x.name), ty(&x.ty), x.idx);
        }
        let set: BTreeSet<u64> = d.deleted.iter().copied().collect();
        out += &format!("  deleted {set:?}\n");
    }
    out
}

/// The comments of a file and what they are attached to.
pub fn comments(f: &LFile) -> String {
    let mut out = format!("{:?}\n", f.comment);
    for d in &f.decls {
        out += &format!("{}: {:?}\n", names::pascal(&d.name), d.comment);
        for x in &d.fields {
            out += &format!("  {}: {:?}\n", names::snake(&x.name), x.comment);
        }
    }
    out
}
